import itertools
import numpy as np
from mc.engine import Check
from mc.util import expect, raises, same_values
from mc.wf import Simtel, Tio, check_event, fits_header


class C06(Check):
    id = "C06"
    level = "model_checking"
    rule = "distinct (file, requests so far, result)"
    assumptions = ("TargetIO, TargetCalib and ctapipe are stand-ins",
                   "an empty selection is only required to have length 0",
                   "max_events=0 means no limit")
    bounds = {
        "quick": "files of 0..5 raw events, skip (2,1) (0,0) (1,3) (0,2) "
                 "(3,0), "
                 "max_events None, 1..6, R0 and R1, sim_telarray 1..4 events; "
                 "every integer in [-n-3, n+2], every slice with start/stop "
                 "in [-n-1, n+1] or None and step None, 1, 2, 3, -1, -2; every "
                 "list of up to 3 events; every sequence of 2 accesses out of "
                 "10 kinds, with two iterations interleaved",
        "thorough": "files of 0..7 raw events, sequences of 3 accesses",
    }

    def cases(self, tier):
        t = tier == "thorough"
        out = []
        for total in range(0, 8 if t else 6):
            for skip in ([2, 1], [0, 0], [1, 3], [0, 2], [3, 0]):
                n = max(0, total - sum(skip))
                for mx in [None] + list(range(1, n + 2)):
                    for r1 in (True, False):
                        out.append(dict(kind="tio", total=total, skip=skip,
                                        max=mx, r1=r1, depth=3 if t else 2))
        for total in range(1, 6 if t else 5):
            for mx in [None] + list(range(1, total + 2)):
                for order in (0, 1):
                    out.append(dict(kind="simtel", total=total, max=mx,
                                    order=order, depth=2))
        out.append(dict(kind="slots", single=True))
        out.append(dict(kind="slots", single=False))
        out.append(dict(kind="absent"))
        return out

    def setup(self):
        import CHECLabPy.core.io  # noqa: F401

    def run(self, case, ctx):
        from CHECLabPy.core.io import (ReaderR0, ReaderR1, SimtelReader,
                                       TIOReader)
        if case["kind"] == "absent":
            p = ctx.path("none.tio")
            for c in (TIOReader, ReaderR0, ReaderR1, SimtelReader):
                raises(FileNotFoundError, lambda: c(p), c.__name__)
            return
        if case["kind"] == "slots":
            return self.slots(case, ctx)
        if case["kind"] == "tio":
            f = Tio(ctx.path("Run00001_r%d.tio" % case["r1"]), case["total"],
                    n_pixels=3, n_samples=4, r1=case["r1"])
            first = case["skip"][0]
            n = max(0, case["total"] - sum(case["skip"]))

            def make():
                k = {}
                if case["skip"] != [2, 1]:
                    k = dict(skip_events=case["skip"][0],
                             skip_end_events=case["skip"][1])
                if case["max"] is not None:
                    k["max_events"] = case["max"]
                return TIOReader(f.path, **k)
        else:
            f = Simtel(ctx.path("run.simtel"), case["total"], n_samples=3,
                       order=case["order"])
            first, n = 0, case["total"]

            def make():
                return SimtelReader(f.path, *(
                    () if case["max"] is None else (case["max"],)))
        if case["max"]:
            n = min(n, case["max"])
        self.sequence(case, ctx, make, f, first, n)

    def sequence(self, case, ctx, make, f, first, n):
        want = [f.expect(first + i, i) for i in range(n)]
        simtel = case["kind"] == "simtel"

        def event(wf, i, what):
            check_event(wf, want[i], what)
            ctx.ev()

        def ints(r, values):
            for v in values:
                if -n <= v < n:
                    event(r[v], v % n, "reader[%d]" % v)
                    if simtel:
                        expect(r.mc["iev"] == v % n
                               and r.mc["energy"] == 10. + v % n
                               and r.pointing["iev"] == v % n
                               and r.pointing["azimuth_cor"] == 3. + v % n,
                               "mc/pointing of reader[%d]: %s" % (v, r.mc))
                else:
                    raises(IndexError, lambda: r[v], "reader[%d] of %d events"
                           % (v, n))

        def stack(got, idx, what):
            expect(len(got) == len(idx), lambda: "%s has %d events, expected "
                   "%d" % (what, len(got), len(idx)))
            if len(idx):
                w = np.array([want[i]["samples"] for i in idx])
                expect(isinstance(got, np.ndarray) and got.dtype == w.dtype
                       and same_values(got, w), "%s: other samples" % what)
            ctx.ev()

        def slices(r, some):
            for s in some:
                stack(r[s], list(range(n))[s], "reader[%s]" % (s,))

        def lists(r, some):
            for lst in some:
                if all(-n <= v < n for v in lst):
                    stack(r[list(lst)], [v % n for v in lst],
                          "reader[%s]" % (list(lst),))
                else:
                    raises(IndexError, lambda: r[list(lst)], "reader[%s]" % (
                        list(lst),))

        def iterate(r):
            got = [wf for wf in r]
            expect(len(got) == n, lambda: "iteration gave %d of %d events" % (
                len(got), n))
            for i, wf in enumerate(got):
                event(wf, i, "event %d of the iteration" % i)

        def two(r):
            a, b = iter(r), iter(r)
            for i in range(n):
                x = next(a, None)
                if i % 2 == 0:
                    event(next(b, None), i // 2, "second iteration")
                event(x, i, "first of two iterations")
                event(r[n - 1 - i], n - 1 - i, "reader[] within iterations")
            expect(next(a, None) is None, "iteration too long")

        def scribble(r):
            """changing a returned event changes no other"""
            if n:
                a, b = r[0], r[0]
                a[...] = 1
                a.iev = 99
                event(b, 0, "another copy of the event")
                event(r[0], 0, "reader[0] after changing a copy")

        def types(r):
            for bad in (1.0, "1", None, (0, 1)):
                raises(TypeError, lambda: r[bad], "reader[%r]" % (bad,))

        def length(r):
            expect(len(r) == n and r.n_events == n, lambda: "len %d, n_events"
                   " %d, expected %d" % (len(r), r.n_events, n))

        def consts(r):
            w = f.samples
            expect((r.n_pixels, r.n_samples, r.is_mc) == (
                w.shape[1], w.shape[2], simtel), "shape of the reader")
            if not simtel:
                expect(r.is_r1 == case["r1"] and r.run_id == 1234
                       and r.n_cells == 4096, "properties")
            else:
                expect(r.run_id == 77 or n == 0, "run_id")

        r = make()
        length(r)
        consts(r) if not simtel else None
        ints(r, range(-n - 3, n + 3))
        ends = [None] + list(range(-n - 1, n + 2))
        steps = (None, 1, 2, 3, -1, -2)
        if simtel:
            ends, steps = [None, 0, 1, -1, n, n + 1], (None, 2, -1)
        slices(r, [slice(*x) for x in itertools.product(ends, ends, steps)])
        vals = range(-n - 1, n + 1) if not simtel else range(-2, n + 1)
        lists(r, [x for k in range(3 if simtel else 4)
                  for x in itertools.product(vals, repeat=k)
                  if k < 3 or n <= 3])
        iterate(r)
        ops = [lambda r: ints(r, [0]), lambda r: ints(r, [-1]),
               lambda r: ints(r, [n]), lambda r: slices(r, [slice(None)]),
               lambda r: slices(r, [slice(None, None, -1)]),
               lambda r: lists(r, [[]] + ([[n - 1, 0]] if n else [])),
               iterate, two, scribble, types, length]
        for hist in itertools.product(range(len(ops)), repeat=case["depth"]):
            if simtel and hist[0] == hist[1]:
                continue
            r = make() if not simtel else r
            for h in hist:
                ops[h](r)
                ctx.step()
            ctx.state((repr(case), hist))
        consts(r)
        ctx.outcome(repr(case))
        ctx.trace()

    def slots(self, case, ctx):
        from CHECLabPy.core.io import TIOReader
        n_pixels = 64 if case["single"] else 2048
        f = Tio(ctx.path("a_r0.tio"), 4, n_pixels=n_pixels, n_samples=2,
                r1=False)
        r = TIOReader(f.path)
        nm = n_pixels // 64
        expect((r.n_modules, r.n_tmpix, r.n_pixels) == (nm, 64, n_pixels),
               "number of modules")
        m = r.mapping
        expect(len(m) == n_pixels and m.metadata["n_modules"] == nm,
               "mapping of %d modules" % nm)
        for tm in range(nm + 2):
            for name, val in (("get_sn", 300 + 41 * (5 * tm % 32)), ("get_sipm_temp",
                              20.5 + tm), ("get_primary_temp", 30.25 + tm)):
                g = getattr(r, name)
                if tm < nm:
                    expect(g(tm) == val, "%s(%d)" % (name, tm))
                else:
                    raises(IndexError, lambda: g(tm), "%s(%d)" % (name, tm))
            for sp in range(18):
                for name, val in (("get_sp_dac", 50 + 16 * tm + sp),
                                  ("get_sp_hvon", (tm + sp) % 2)):
                    g = getattr(r, name)
                    if tm < nm and sp < 16:
                        expect(g(tm, sp) == val, "%s(%d,%d)" % (name, tm, sp))
                    else:
                        raises(IndexError, lambda: g(tm, sp), "%s(%d, %d)" % (
                            name, tm, sp))
                    ctx.ev()
        ctx.outcome(repr(case))


CHECK = C06()
