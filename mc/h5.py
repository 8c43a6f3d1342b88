"""Operation histories on an HDF5 file and the reference model of the file.

The model of a file is: for each key the ordered list of rows given to it
(append adds rows, write replaces them), and for each (key, name) a dict.
"""
import copy
import os
import numpy as np
import pandas as pd
from mc.util import Spill, expect, raises, same_frame, same_values

HEAVY = 6e8  # bytes reported by a frame marked heavy (the buffer is 0.5 GB)


def frame(key, seed, n=None):
    """A small frame; the columns depend on the key, the values on seed"""
    n = 1 + seed % 3 if n is None else n
    i = np.arange(n)
    if key == "data":
        df = pd.DataFrame(dict(
            iev=(i + 100 * seed).astype(np.int64),
            pixel=(i % 7).astype(np.uint8),
            charge=(i * 0.37 + seed - 2.25),
            f32=(i * 0.1 + 0.3 * seed).astype(np.float32),
            flag=(i + seed) % 2 == 0,
            i32=(seed * 1000 - i).astype(np.int32),
            t=pd.to_datetime(1500000000000000000 + 10 ** 9 * (seed + i)
                             + 7 * i),
        ))
        df.loc[df.index[seed % n], 'charge'] = np.nan if seed % 4 == 3 else 1.5
        return df
    if key == "aux":
        # equal rows follow each other
        return pd.DataFrame(dict(x=(i // 2 - 3 * seed).astype(np.int64),
                                 y=np.sqrt(i // 2 + seed + 1.0)))
    if key == "same":
        # all frames are equal
        return pd.DataFrame(dict(v=[1, 1], u=[0.5, 0.5]))
    if key == "gap":
        # rows without any value
        return pd.DataFrame(dict(u=np.where(i % 2, np.nan, i + seed * 1.),
                                 v=np.where(i % 2, np.nan, -seed * 2.)))
    return pd.DataFrame(dict(z=(i * 1.0 + seed), w=(i + seed) % 3))


def bytes_of(df):
    return int(df.memory_usage(index=False, deep=True).sum())


MAPPING_META = dict(cfgfile="/cfg/a.cfg", is_single_module=False, n_pixels=4,
                    size=0.00675, n_rows=2, n_columns=3, n_modules=1,
                    n_tmpix=64, n_superpixels=16, fOTUpRow_l=1, fOTUpRow_u=2,
                    fOTUpCol_l=0, fOTUpCol_u=5, fOTUpX_l=-0.25, fOTUpX_u=0.125,
                    fOTUpY_l=0., fOTUpY_u=1.5)


def mapping_frame(seed):
    df = pd.DataFrame(dict(pixel=(np.arange(4) * 3 + seed) % 4,
                           xpix=np.arange(4) * 0.1 + seed))
    meta = dict(MAPPING_META, tag=seed, n_pixels=4 + 3 * (seed % 2),
                note=None)
    object.__setattr__(df, "metadata", meta)
    return df, meta


class Model:
    def __init__(self):
        self.frames = {}      # key -> list of frames
        self.kind = {}        # key -> "append" | "write"
        self.flushes = {}     # key -> number of appended frames
        self.heavies = {}
        self.sized = set()    # keys with frames of other sizes
        self.meta = {}        # (key, name) -> dict
        self.maybe = {}       # (key, name) -> dict, kept or lost
        self.mapping = None
        self.version = True

    def key(self):
        return (
            tuple(sorted((k, self.kind[k], sum(len(f) for f in v), len(v))
                         for k, v in self.frames.items())),
            tuple(sorted((k, repr(sorted(d.items(), key=repr)))
                         for k, d in self.meta.items())),
            self.mapping is not None)

    def append(self, key, df, heavy):
        self.frames.setdefault(key, []).append(df)
        self.kind.setdefault(key, "append")
        self.flushes[key] = self.flushes.get(key, 0) + 1
        self.heavies[key] = self.heavies.get(key, 0) + int(heavy)

    def write(self, key, df, later=False):
        if later:
            for (k, n) in list(self.meta):
                if k == key:
                    self.maybe[(k, n)] = self.meta.pop((k, n))
        self.frames[key] = [df]
        self.kind[key] = "write"
        self.flushes[key] = 0
        self.heavies[key] = 0

    def add_meta(self, key, name, d):
        self.meta.setdefault((key, name), {}).update(copy.deepcopy(d))


META = {
    "meta": ("data", "metadata", lambda s: dict(
        n_events=s, n_pixels=2048, is_mc=bool(s % 2), label="run%d" % s,
        note=None if s % 2 else "", zero=0, empty=[], Label="Run%d" % s,
        label2="aBC")),
    "metaK": ("data", "metadata", lambda s: {"only%d" % (s % 3): s * 1.5}),
    "metaC": ("data", "config", lambda s: dict(
        charge=s, sub=dict(a=[s, 2, 3], B=None), path="/x/%d" % s,
        Charge=-s)),
    "metaA": ("aux", "mcHeader", lambda s: dict(alt=70.25 + s, tag="é%d" % s)),
    "metaX": ("aux", "metadata", lambda s: {"aux%d" % (s % 2): s}),
    "metaD": ("data", "config", lambda s: {"d%d" % (s % 3): s}),
    "metaE": ("data", "nothing", lambda s: {}),
    "metaN": ("extra", "metadata", lambda s: dict(v=s)),
}


def legal(ops):
    """a key that was written is not appended to (fixed format tables)"""
    written = set()
    for op in ops:
        if op[0] == "write":
            written.add(op[1])
        elif op[0] == "write2":
            written |= {"data", "aux"}
        elif op[0] in ("append", "heavy") and op[1] in written:
            return False
    return True


class Session:
    """Applies operations to a writer and to the model"""

    def __init__(self, ctx, model, spill, seed0=0, later=False):
        self.ctx, self.model, self.spill = ctx, model, spill
        self.seed = seed0
        self.later = later
        self.held = {}  # key -> [(rows, bytes)] of the frames in memory

    def memory(self):
        """what is not in the file yet takes less than 0.5 GB per table"""
        for key, held in self.held.items():
            n = self.spill.moved.pop(key, 0)
            while n:
                k = min(n, held[0][0])
                n -= k
                held[0][0] -= k
                if not held[0][0]:
                    held.pop(0)
            total = sum(b for _, b in held)
            expect(total < 0.5e9, "%d bytes of table %r are kept in memory"
                   % (total, key))

    def apply(self, w, op):
        self.seed += 1
        s = self.seed
        kind = op[0]
        if kind in ("append", "heavy", "size"):
            key = op[1]
            df = frame(key, s)
            given = df.copy()
            if kind == "heavy":
                self.spill.mark(df)
            if kind == "size":
                self.spill.mark(df, op[2])
                self.model.sized.add(key)
                self.held.setdefault(key, []).append([len(df), op[2]])
            before = self.spill.flushes
            if key == "data":
                w.append(df)  # the default key
            else:
                w.append(df, key=key, **(
                    dict(expectedrows=10) if s % 2 else {}))
            self.model.append(key, given, kind == "heavy")
            if kind == "heavy":
                expect(self.spill.flushes > before, "%d bytes were appended "
                       "to %r but nothing was moved to the file" % (
                           HEAVY, key))
            if kind == "size":
                self.memory()
            same_frame(df, given, "frame given to append")
            # the caller may fill the same frame again
            for c in df.columns:
                if c not in ("t", "flag"):
                    df[c] = df[c].values * 0 + 9
            df.drop(df.index[1:], inplace=True)
        elif kind == "write":
            key = op[1]
            df = frame(key, s)
            if s % 2:
                df.index = np.arange(len(df)) * 3 + s
            w.write(**{key: df})
            self.model.write(key, df.copy(), self.later)
        elif kind == "write2":
            a, b = frame("data", s), frame("aux", s)
            w.write(data=a, aux=b)
            self.model.write("data", a, self.later)
            self.model.write("aux", b, self.later)
        elif kind == "map":
            df, meta = mapping_frame(s)
            w.add_mapping(df)
            self.model.mapping = (df, meta)
        elif kind == "reserved":
            for name in ("info", "mapping"):
                raises(ValueError, lambda: w.add_metadata(name=name, a=1),
                       "add_metadata(name=%r)" % name)
                raises(ValueError, lambda: w.add_metadata(
                    key="aux", name=name, a=1), "add_metadata(name=%r)" % name)
            w.add_metadata(name="table", a=s)
            self.model.add_meta("data", "table", dict(a=s))
        else:
            key, name, f = META[kind]
            d = f(s)
            if kind in ("meta", "metaK"):
                w.add_metadata(**copy.deepcopy(d))
            else:
                w.add_metadata(key=key, name=name, **copy.deepcopy(d))
            self.model.add_meta(key, name, d)
        self.ctx.step()
        self.ctx.state(self.model.key())


def verify(path, model, version, ctx, strict=True):
    """The file at path holds exactly what the model says"""
    from CHECLabPy.core.io import HDF5Reader
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("error", UserWarning)
        r = HDF5Reader(path)
    with r:
        total = 0
        expect(r.version == version, lambda: "version %r, expected %r" % (
            r.version, version))
        for key, frames in model.frames.items():
            want = pd.concat(frames, ignore_index=True)
            got = r.read(key)
            same_frame(got, want, "read(%r)" % key)
            if model.kind[key] == "write":
                expect(same_values(got.index, frames[0].index), lambda:
                       "read(%r): index %s, %s was written" % (
                           key, list(got.index), list(frames[0].index)))
            n = r.get_n_rows(key)
            expect(n == len(want), lambda: "get_n_rows(%r) is %r, expected %d"
                   % (key, n, len(want)))
            c = list(r.get_column_names(key))
            expect(c == list(want.columns), lambda:
                   "get_column_names(%r) is %r" % (key, c))
            nb = int(r.get_n_bytes(key))
            total += nb
            base = sum(bytes_of(f) for f in frames)
            ok = any(base <= nb - h * HEAVY <= base + 200 * (
                len(frames) + 1) for h in range(model.heavies[key] + 1))
            expect(ok or key in model.sized, lambda: "get_n_bytes(%r) is %r for %d bytes of columns "
                   "in %d frames" % (key, nb, base, len(frames)))
        meta = dict(model.meta)
        for key in model.frames:
            meta.setdefault((key, "metadata"), {})
        meta.setdefault(("data", "metadata"), {})
        for (key, name), want in meta.items():
            got = dict(r.get_metadata(key, name))
            if key == "data" and name == "metadata":
                expect(dict(r.get_metadata()) == got, "get_metadata() is not "
                       "the metadata of the default key and name")
                tb = got.pop("total_bytes", None)
                expect(tb is not None and int(tb) == total, lambda:
                       "total_bytes is %r, the tables have %r" % (tb, total))
                expect(got.pop("version", None) == version, "no version")
            if name == "metadata":
                nb = got.pop("n_bytes", None)
                if key not in model.frames:
                    expect(not nb, lambda: "n_bytes is %r without a table"
                           % (nb,))
            old = model.maybe.get((key, name), {})
            for k, v in old.items():
                if k not in want:
                    expect(got.pop(k, v) == v, "old metadata changed")
            expect(got == want, lambda: "get_metadata(%r, %r) is %r, expected "
                   "%r" % (key, name, got, want))
        names = {n for _, n in list(meta) + list(model.maybe)}
        keys = {k for k, _ in list(meta) + list(model.maybe)} | {"absent"}
        for key in keys:
            for name in names | {"absent"}:
                if (key, name) not in meta and (key, name) not in model.maybe:
                    raises(KeyError, lambda: r.get_metadata(key, name),
                           "get_metadata(%r, %r)" % (key, name))
            if key not in model.frames:
                raises(KeyError, lambda: r.read(key), "read(%r)" % key)
        expect(sorted(r.dataframe_keys) == sorted(model.frames), lambda:
               "dataframe_keys is %r" % (r.dataframe_keys,))
        if model.mapping is None:
            raises(KeyError, r.get_mapping, "get_mapping()")
        else:
            df, m = model.mapping
            got = r.get_mapping()
            same_frame(got, df, "get_mapping()")
            expect(got.metadata == m, lambda: "metadata of the mapping is %r"
                   % (got.metadata,))
    ctx.ev()
    ctx.outcome(model.key())


def new_path(ctx, initial):
    """initial: the state of the path before the writer is made"""
    from CHECLabPy.core.io import HDF5Writer
    if initial == "nodir":
        p = ctx.path("x")
        return os.path.join(os.path.dirname(p), "a", "b", "f.h5")
    path = ctx.path("f.h5")
    if initial == "bigstale":
        big = frame("data", 8, n=150000)
        big["charge"] = np.sin(np.arange(150000.) ** 2)
        with HDF5Writer(path) as w:
            w.append(big)
            w.append(frame("other", 3), key="other")
            w.add_metadata(old=1)
            w.add_metadata(name="oldname", old=1)
            w.add_mapping(mapping_frame(5)[0])
    if initial == "stale":
        with HDF5Writer(path) as w:
            w.append(frame("data", 8))
            w.write(stale=frame("aux", 9))
            w.add_metadata(old=1)
            w.add_metadata(name="oldname", old=1)
            w.add_mapping(mapping_frame(5)[0])
    elif initial == "garbage":
        with open(path, "wb") as f:
            f.write(b"not an HDF5 file" * 10)
    return path


def version():
    from CHECLabPy import __version__
    return __version__
