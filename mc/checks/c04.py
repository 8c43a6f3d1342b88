import itertools
import os
import warnings
import numpy as np
import pandas as pd
from mc.engine import Check
from mc.h5 import HEAVY, frame, new_path
from mc.util import Spill, expect, raises, same_frame, same_values


def patch_meta(path, key="data", **values):
    """change entries of the metadata of a key (None deletes)"""
    with pd.HDFStore(path, mode="r+") as store:
        attrs = store.get_storer(key).attrs
        d = dict(attrs.metadata)
        for k, v in values.items():
            if v is None:
                d.pop(k, None)
            else:
                d[k] = v
        attrs.metadata = d


# keys of the tables; a mapping is only stored as such
NAMES = ["data", "mapping_extra", "group/part", "t3", "Data", "my_mapping",
         "monitor", "group/other"]


class Readers:
    """the same calls through HDF5Reader, DL1Reader and HDF5Appender"""

    def __init__(self, cls, path, key="data"):
        from CHECLabPy.core.io import DL1Reader, HDF5Appender, HDF5Reader
        self.r = dict(HDF5Reader=HDF5Reader, DL1Reader=DL1Reader,
                      HDF5Appender=HDF5Appender)[cls](path)
        self.key = () if cls == "DL1Reader" else (key,)
        self.cls = cls

    def __enter__(self):
        self.r.__enter__()
        return self

    def __exit__(self, *a):
        return self.r.__exit__(*a)

    def select(self, **k):
        return self.r.select(*self.key, **k)

    def column(self, c, **k):
        return self.r.select_column(*self.key, c, **k)

    def columns(self, c, **k):
        return self.r.select_columns(*self.key, c, **k)

    def chunks(self, *a, **k):
        return self.r.iterate_over_chunks(*self.key, *a, **k)

    def read(self, **k):
        if self.cls == "DL1Reader":
            return self.r.load_entire_table(**k)
        return self.r.read(self.key[0], **k)


WHERE = [
    ("iev > 100", lambda d: d.iev > 100),
    ("iev == 201", lambda d: d.iev == 201),
    ("charge > 1.0", lambda d: d.charge > 1.0),
    ("pixel == 0", lambda d: d.pixel == 0),
    ("i32 >= 2000 & pixel < 2", lambda d: (d.i32 >= 2000) & (d.pixel < 2)),
    ("iev == -1", lambda d: d.iev == -1),
]


class C04(Check):
    id = "C04"
    level = "model_checking"
    rule = "distinct (table layout, request, result)"
    assumptions = ("the stored n_bytes is the size the memory rules work on "
                   "(forged in the file to reach 2 GB and 8 GB)",)
    bounds = {
        "quick": "tables of 1..4 appended frames, every light/heavy pattern; "
                 "every start/stop pair and -1, 1 to 40 tables in a file, "
                 "every column subset of 4, 6 "
                 "conditions, every chunk size, default chunk sizes for 7 "
                 "table sizes; HDF5Reader, DL1Reader, HDF5Appender",
        "thorough": "1..6 frames",
    }

    def cases(self, tier):
        t = tier == "thorough"
        out = []
        for n in range(1, 7 if t else 5):
            for heavy in itertools.product([0, 1], repeat=n):
                for cls in ("HDF5Reader", "DL1Reader", "HDF5Appender"):
                    if cls != "HDF5Reader" and sum(heavy) not in (0, 1):
                        continue
                    out.append(dict(heavy=list(heavy), cls=cls))
        for nb in (7999999999, 8000000000, 8000000001, 9e9, 5, 2e10):
            for cls in ("HDF5Reader", "DL1Reader", "HDF5Appender"):
                for force in (None, False, True):
                    out.append(dict(guard=nb, cls=cls, force=force))
                    if cls != "DL1Reader":
                        out.append(dict(guard=nb, cls=cls, force=force,
                                        key="other"))
        for n in range(1, 6):
            for cls in ("HDF5Reader", "HDF5Appender"):
                out.append(dict(fixed=n, cls=cls))
        for n in (1, 8, 9, 17, 40):
            for cls in ("HDF5Reader", "DL1Reader", "HDF5Appender"):
                out.append(dict(many=n, cls=cls))
        for v in ("0.9.0", "0.1", "99.0.0", "99.1", None, "same", "minor"):
            for cls in ("HDF5Reader", "DL1Reader", "HDF5Appender"):
                out.append(dict(version=v, cls=cls))
        return out

    def setup(self):
        import CHECLabPy.core.io  # noqa: F401

    def make(self, ctx, heavy, key="data"):
        from CHECLabPy.core.io import HDF5Writer
        path = new_path(ctx, "fresh")
        frames = []
        with Spill(HEAVY) as spill:
            with HDF5Writer(path) as w:
                for i, h in enumerate(heavy):
                    df = frame("data", i + 1)
                    df.insert(0, "gap", np.where(
                        np.arange(len(df)) % 2, df.charge * 2, np.nan))
                    frames.append(df.copy())
                    if h:
                        spill.mark(df)
                    w.append(df, key=key)
        return path, pd.concat(frames, ignore_index=True)

    def run(self, case, ctx):
        if "guard" in case:
            return self.guard(case, ctx)
        if "fixed" in case:
            return self.fixed(case, ctx)
        if "many" in case:
            return self.many(case, ctx)
        if "version" in case:
            return self.versions(case, ctx)
        path, want = self.make(ctx, case["heavy"])
        n = len(want)
        ctx.state(("table", tuple(case["heavy"]), n))
        with Readers(case["cls"], path) as r:
            whole = r.read()
            same_frame(whole, want, "the whole table")
            expect(r.r.get_n_rows("data") == n, "get_n_rows")
            expect(list(r.r.get_column_names("data")) == list(want.columns),
                   "get_column_names")
            for start in [None] + list(range(n + 1)) + [-1, -n]:
                for stop in [None] + list(range(n + 2)) + [-1]:
                    if not len(range(n)[start:stop]) and (start or 0) < 0:
                        continue
                    if -1 not in (start, stop) and start is not None and (
                            stop is not None and stop < start):
                        continue
                    k = {}
                    if start is not None:
                        k["start"] = start
                    if stop is not None:
                        k["stop"] = stop
                    sub = want.iloc[slice(start, stop)]
                    ctx.step()
                    same_frame(r.select(**k), sub, "select(%r)" % k)
                    c = r.column("charge", **k)
                    expect(same_values(c.values, sub.charge.values),
                           "select_column(charge, %r)" % k)
                    got = r.columns(["iev", "f32"], **k)
                    expect(len(got) == 2
                           and same_values(got[0], sub.iev.values)
                           and same_values(got[1], sub.f32.values),
                           "select_columns(iev, f32, %r)" % k)
                    ctx.ev(3)
                    ctx.outcome((tuple(case["heavy"]), start, stop))
            names = ["flag", "pixel", "charge", "iev"]
            for m in range(1, 5):
                for cols in itertools.permutations(names, m):
                    got = r.columns(list(cols))
                    expect(len(got) == m and all(
                        same_values(g, want[c].values)
                        for g, c in zip(got, cols)),
                        "select_columns(%s)" % (cols,))
                    ctx.ev()
                    if list(cols) == sorted(cols, key=list(
                            want.columns).index):
                        same_frame(r.select(columns=list(cols)),
                                   want[list(cols)], "select(columns=)")
                    for i in range(m + 1):
                        # a column may be asked for twice
                        twice = list(cols[:i]) + [cols[0]] + list(cols[i:])
                        got = r.columns(list(twice), start=1)
                        expect(len(got) == m + 1 and all(
                            same_values(g, want[c].values[1:])
                            for g, c in zip(got, twice)),
                            "select_columns(%s, start=1)" % (twice,))
                        ctx.ev()
            for w, f in WHERE:
                same_frame(r.select(where=w), want[f(want)],
                           "select(where=%r)" % w)
                same_frame(r.select(where=w, columns=["iev", "charge"]),
                           want[f(want)][["iev", "charge"]],
                           "select(where=%r, columns=)" % w)
                ctx.ev(2)
            for size in range(1, n + 2):
                parts = list(r.chunks(size))
                self.parts(parts, want, size, "chunks(%d)" % size)
                parts = list(r.chunks(chunksize=size))
                self.parts(parts, want, size, "chunks(chunksize=%d)" % size)
                ctx.ev(2)
            for size, start, stop in itertools.product(
                    range(1, 4), (None, 0, 1, n - 1), (None, 1, 2, n, n + 1)):
                sub = want.iloc[start:stop]
                if not len(sub):
                    continue
                k = {}
                if start is not None:
                    k["start"] = start
                if stop is not None:
                    k["stop"] = stop
                self.parts(list(r.chunks(size, **k)), sub, size,
                           "chunks(%d, %r)" % (size, k))
                ctx.ev()
            for (w, f), size, cols in itertools.product(
                    WHERE, (1, 2, 3), (None, ["iev", "charge"])):
                sub = want[f(want)]
                k = dict(where=w)
                if cols:
                    sub, k["columns"] = sub[cols], cols
                if len(sub):
                    parts = [p for p in r.chunks(size, **k) if len(p)]
                    self.parts(parts, sub, size, "chunks(%d, %r)" % (
                        size, k), exact=False, few=False)
                    ctx.ev()
            for start, stop in itertools.product((0, 1), (n, n - 1)):
                cols = ["pixel", "charge", "t"]
                sub = want.iloc[start:stop][cols]
                if len(sub):
                    self.parts(list(r.chunks(2, start=start, stop=stop,
                                             columns=cols)), sub, 2,
                               "chunks(2, %s, %s, columns)" % (start, stop))
                    ctx.ev()
            parts = list(r.chunks(2, columns=["iev", "charge"]))
            self.parts(parts, want[["iev", "charge"]], 2, "chunks(columns)")
            if case["cls"] == "DL1Reader":
                self.parts(list(r.r.iterate_over_rows()), want, 1,
                           "iterate_over_rows")
        for total in (1.0, 2e9, 3e9, 4e9, 5e9, 2e9 * n, 1.5e9 * n, 1e13):
            if n / total * 2e9 < 1:
                continue
            patch_meta(path, n_bytes=total)
            with Readers(case["cls"], path) as r:
                parts = list(r.chunks())
                rows = max(1, int(np.ceil(n / total * 2e9)))
                self.parts(parts, want, rows, "default chunks of a table of "
                           "%r bytes" % total, exact=False)
                ctx.ev()
                ctx.outcome((tuple(case["heavy"]), "chunks", total,
                             len(parts)))
        ctx.trace()

    def parts(self, parts, want, size, what, exact=True, few=True):
        same_frame(pd.concat(parts, ignore_index=True), want, what)
        lens = [len(p) for p in parts]
        if exact:
            ok = all(x == size for x in lens[:-1]) and lens[-1] <= size
        else:
            ok = all(x <= size for x in lens)
            ok = ok and (not few or len(lens) <= 2 * (len(want) // size) + 2)
        expect(ok, lambda: "%s: chunks of %s rows, expected %d" % (
            what, lens, size))

    def fixed(self, case, ctx):
        """a table stored in one go, with missing values"""
        from CHECLabPy.core.io import HDF5Writer
        path = new_path(ctx, "fresh")
        n = case["fixed"]
        i = np.arange(n)
        for bad in itertools.product([0, 1], repeat=n):
            b = np.array(bad, dtype=bool)
            df = pd.DataFrame(dict(a=np.where(b, np.nan, i * 1.5), i=i,
                                   b=np.where(b[::-1], np.nan, 0.)))
            df.index = (i * 5 + 2) % 7
            with HDF5Writer(path) as w:
                w.write(data=df)
            with Readers(case["cls"], path) as r:
                got = r.read()
                same_frame(got, df, "read")
                expect(same_values(got.index, df.index), "index")
                expect(r.r.get_n_rows("data") == n, lambda: "get_n_rows is %r "
                       "for %d rows" % (r.r.get_n_rows("data"), n))
                expect(list(r.r.get_column_names("data")) == list(df),
                       "get_column_names")
            for what in ("any", "number"):
                df = pd.DataFrame(dict(a=i, b=i * 0.5, c=-i))
                df.columns = [" x ", "y-z", "x"] if what == "any" else [
                    4, 0, 7]
                with HDF5Writer(path) as w:
                    w.write(data=df)
                with Readers(case["cls"], path) as r:
                    same_frame(r.read(), df, "read")
                    expect(list(r.r.get_column_names("data"))
                           == list(df), lambda: "get_column_names is %s,"
                           " expected %s" % (list(
                               r.r.get_column_names("data")), list(df)))
            ctx.ev()
            ctx.outcome((n, bad))

    def many(self, case, ctx):
        """many tables in a file, one of them read through each class"""
        from CHECLabPy.core.io import HDF5Writer
        path = new_path(ctx, "fresh")
        tabs, index = {}, {}
        with HDF5Writer(path) as w:
            for i in range(case["many"]):
                key = NAMES[i] if i < len(NAMES) else "t%d" % i
                index[key] = i
                tabs[key] = frame("data", i + 1)
                if i % 3 == 2:
                    w.write(**{key: tabs[key]})
                else:
                    w.append(tabs[key], key=key)
                w.add_metadata(key=key, number=i)
                w.add_metadata(key=key, name="nothing")
            w.add_metadata(key="apart", name="nothing")
        for key, df in tabs.items():
            if case["cls"] == "DL1Reader" and key != "data":
                continue
            with Readers(case["cls"], path, key) as r:
                expect(sorted(r.r.dataframe_keys) == sorted(tabs),
                       "dataframe_keys is %s" % r.r.dataframe_keys)
                same_frame(r.read(), df, key)
                if key != "data" or case["many"] == 1:
                    same_frame(r.select(start=1), df.iloc[1:], key)
                expect(r.r.get_metadata(key)["number"] == index[key],
                       "metadata of " + key)
                for k, name in ((key, "number"), (key, "Nothing"),
                                (key + "_", "metadata"),
                                ("absent", "nothing"), ("apart", "metadata"),
                                (key, "mapping")):
                    raises(KeyError, lambda: r.r.get_metadata(k, name),
                           "metadata %r of %r" % (name, k))
                raises(KeyError, r.r.get_mapping, "mapping")
                if case["cls"] != "DL1Reader":
                    for k in ("absent", key + "_", "mapping"):
                        raises(KeyError, lambda: r.r.read(k), "table " + k)
                for k in (key, "apart"):
                    d = r.r.get_metadata(k, "nothing")
                    expect(d == {}, "empty metadata is %r" % (d,))
                    expect("nothing" in r.r.metadata_keys[k],
                           "empty metadata is not listed")
            ctx.ev()
        ctx.outcome(repr(case))

    def guard(self, case, ctx):
        absent = ctx.path("absent.h5")
        raises(FileNotFoundError, lambda: Readers(case["cls"], absent),
               "reading an absent file")
        expect(not os.path.exists(absent), "a file appears")
        key = case.get("key", "data")
        path, want = self.make(ctx, [0, 1], key)
        patch_meta(path, key, n_bytes=case["guard"])
        big = case["guard"] > 8e9
        k = {} if case["force"] is None else dict(force=case["force"])
        with Readers(case["cls"], path, key) as r:
            if big and not case["force"]:
                raises(MemoryError, lambda: r.read(**k),
                       "reading %r bytes" % case["guard"])
            else:
                with warnings.catch_warnings(record=True) as log:
                    warnings.simplefilter("always")
                    got = r.read(**k)
                n = sum(x.category is UserWarning for x in log)
                expect((n > 0) == big, "reading %r bytes: %d warnings" % (
                    case["guard"], n))
                same_frame(got, want, "forced read")
            # the rest of the reader does not depend on the size
            same_frame(r.select(start=1, stop=2), want.iloc[1:2], "select")
        ctx.ev()
        ctx.outcome(repr(case))

    def versions(self, case, ctx):
        from CHECLabPy import __version__
        path, want = self.make(ctx, [0])
        v = case["version"]
        major = int(__version__.split(".")[0])
        if v == "same":
            v, warn = __version__, False
        elif v == "minor":
            v, warn = "%d.999.7" % major, False
        elif v is None:
            warn = major != 1  # files without a version are from 1.0.0
        else:
            warn = int(v.split(".")[0]) != major
        patch_meta(path, version=v)
        with warnings.catch_warnings(record=True) as log:
            warnings.simplefilter("always")
            with Readers(case["cls"], path) as r:
                got = r.r.version
                same_frame(r.read(), want, "read")
        expect(got == (v or "1.0.0"), "version is %r" % got)
        n = sum("version" in str(x.message) and x.category is UserWarning
                for x in log)
        expect((n > 0) == warn, "file of version %r, code %s: %d warnings" % (
            v, __version__, n))
        ctx.ev()
        ctx.outcome(repr(case))


CHECK = C04()
