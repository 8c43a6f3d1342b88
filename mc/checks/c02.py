import itertools
import os
import numpy as np
import pandas as pd
from mc.engine import Check
from mc.h5 import (HEAVY, Model, Session, frame, legal, new_path, verify,
                   version)
from mc.util import Spill, expect, raises, same_frame, sequences

ALPHA = [["append", "data"], ["heavy", "data"], ["append", "aux"],
         ["write", "aux"], ["write", "data"], ["meta"], ["metaK"], ["metaC"],
         ["metaA"], ["metaN"], ["map"]]
SMALL = [["append", "data"], ["heavy", "data"], ["append", "aux"], ["metaK"],
         ["metaC"]]
EXTRA = [["reserved"], ["write2"], ["metaX"]]
OTHER = [["append", "data"], ["metaC"], ["metaD"], ["metaE"],
         ["append", "g/h"], ["append", "gap"]]


def splits(n, sessions):
    """session sizes: the first session is the writer, others append"""
    if sessions == 1:
        yield [n]
        return
    for first in range(n + 1):
        for rest in splits(n - first, sessions - 1):
            yield [first] + rest


class C02(Check):
    id = "C02"
    level = "model_checking"
    rule = "distinct final file contents reached by a history of sessions"
    assumptions = (
        "as C01; metadata attached to a table that a later session replaces "
        "with write may be kept or dropped",)
    bounds = {
        "quick": "every history of 11 operations to depth 3 (14 to depth 2) "
                 "and of 5 operations to depth 4, split into a writer session "
                 "and 1 or 2 appender sessions at every position; "
                 "appending to a file of megabytes, 12 tables; a refused "
                 "append to a table stored with write",
        "thorough": "depth 4 and depth 5 (5 operations), 1 to 3 appender "
                    "sessions",
    }

    def cases(self, tier):
        t = tier == "thorough"
        out = []
        seen = set()
        groups = [(ALPHA + EXTRA, 2, (2, 3)), (ALPHA, 3, (2,)),
                  ([["append", "aux"], ["write", "aux"], ["metaX"]], 3, (2,)),
                  (SMALL, 4, (2,)), (SMALL, 3, (3,)), (OTHER, 3, (2,))]
        if t:
            groups += [(ALPHA, 4, (2,)), (ALPHA, 3, (3,)), (SMALL, 4, (3, 4)), (SMALL, 5, (2,))]
        for alphabet, depth, n_sessions in groups:
            for ops in sequences(alphabet, depth):
                if not legal(ops):
                    continue
                for n in n_sessions:
                    for sizes in splits(len(ops), n):
                        if sizes[0] == len(ops) and len(ops) > 1:
                            continue
                        k = (repr(ops), tuple(sizes))
                        if k not in seen:
                            seen.add(k)
                            out.append(dict(ops=list(ops), sizes=sizes))
        out.append(dict(missing=True))
        tabs = [["append", "t%d" % (i * 5 % 12)] for i in range(24)]
        for first in (0, 1, 9, 13, 23):
            out.append(dict(ops=tabs, sizes=[first, 24 - first]))
        for key, meta, n in itertools.product(("data", "aux"), (0, 1),
                                              (1, 2)):
            out.append(dict(written=key, meta=meta, n=n))
        for ops in ([["append", "data"]], [["metaK"], ["append", "aux"]],
                    [["write", "aux"]], [["meta"], ["map"], ["metaA"]]):
            out.append(dict(large=True, ops=ops, sizes=[0, len(ops)]))
        out.sort(key=lambda c: len(c.get("ops", ())))
        return out

    def setup(self):
        import CHECLabPy.core.io  # noqa: F401

    def run(self, case, ctx):
        from CHECLabPy.core.io import HDF5Appender, HDF5Writer
        if case.get("missing"):
            path = ctx.path("absent.h5")
            raises(FileNotFoundError, lambda: HDF5Appender(path),
                   "HDF5Appender on an absent file")
            ctx.check(not os.path.exists(path), "HDF5Appender made a file")
            return
        path = new_path(ctx, "fresh")
        if "written" in case:
            return self.written(case, ctx, path)
        model = Model()
        ops = list(case["ops"])
        with Spill(HEAVY) as spill:
            done = 0
            if case.get("large"):
                # a file of megabytes
                big = frame("data", 4, n=150000)
                big["charge"] = np.sin(np.arange(150000.) ** 2)
                with HDF5Writer(path) as w:
                    w.append(big)
                    w.add_metadata(first=1, run="big")
                    w.add_metadata(name="config", charge=9)
                model.append("data", big.copy(), False)
                model.add_meta("data", "metadata", dict(first=1, run="big"))
                model.add_meta("data", "config", dict(charge=9))
            for i, size in enumerate(case["sizes"]):
                s = Session(ctx, model, spill, seed0=done, later=i > 0)
                if i == 0 and case.get("large"):
                    continue
                cls = HDF5Writer if i == 0 else HDF5Appender
                with cls(path) as w:
                    for op in ops[done:done + size]:
                        s.apply(w, op)
                done += size
                verify(path, model, version(), ctx)
        ctx.trace()

    def written(self, case, ctx, path):
        """appending to a table stored with write may be refused, but the
        table stays"""
        from CHECLabPy.core.io import HDF5Appender, HDF5Reader, HDF5Writer
        key = case["written"]
        old, new = frame(key, 3), []
        with HDF5Writer(path) as w:
            w.write(**{key: old})
            if case["meta"]:
                w.add_metadata(key=key, a=1)
                w.add_metadata(key=key, name="config", b=2)
        w = HDF5Appender(path)
        try:
            with w:
                for i in range(case["n"]):
                    w.append(frame(key, 4 + i), key=key)
                    new.append(frame(key, 4 + i))
        except Exception:
            new = []
        finally:
            w.store.close()
        with HDF5Reader(path) as r:
            same_frame(r.read(key), pd.concat([old] + new), "the table after "
                       "an append that was %s" % (
                           "accepted" if new else "refused"))
            if case["meta"]:
                expect(r.get_metadata(key)["a"] == 1
                       and r.get_metadata(key, "config") == dict(b=2),
                       "metadata lost")
        ctx.ev()
        ctx.outcome(repr(case))


CHECK = C02()
