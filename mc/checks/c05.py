import contextlib
import io
import itertools
import json
import warnings
import numpy as np
import pandas as pd
from mc.engine import Check
from mc.h5 import HEAVY, new_path
from mc.util import (Spill, expect, expect_close, raises, same_frame,
                     same_values)

IEVS = [0, 2, 3, 7]
# as far as the event numbers of the files go
BIG = [1, 300, 70000, 2 ** 31 + 5, 2 ** 32 - 1]


def event(iev, n_pixels, k):
    p = np.arange(n_pixels)
    return pd.DataFrame(dict(
        iev=np.full(n_pixels, iev, dtype=np.int64), pixel=p.astype(np.int32),
        t_cpu=pd.to_datetime(np.full(
            n_pixels, 1500000000000000000 + 1000003 * k)),
        charge=(p * 1.25 + 100 * iev + k).astype(np.float32)))


def tables(n_modules, n_sp):
    sn = {"TM%02d" % tm: 200 + tm for tm in range(n_modules)}
    t1 = {"TM%02d" % tm: 20.5 + tm for tm in range(n_modules)}
    t2 = {"TM%02d" % tm: 30.5 + tm for tm in range(n_modules)}
    dac = {"TM%02d_SP%02d" % (tm, sp): 100 * tm + sp
           for tm in range(n_modules) for sp in range(n_sp)}
    hv = {"TM%02d_SP%02d" % (tm, sp): (tm + sp) % 2
          for tm in range(n_modules) for sp in range(n_sp)}
    return sn, t1, t2, dac, hv


class C05(Check):
    id = "C05"
    level = "model_checking"
    rule = "distinct (file layout, request, result)"
    assumptions = ("TargetCalib is a stand-in", "the events of a DL1 file "
                   "have n_pixels consecutive rows with one iev")
    bounds = {
        "quick": "all orders of all subsets of 4 event numbers x 3 pixel "
                 "counts x flush patterns; all access sequences of length 2 "
                 "to 3 over the file; all subsets of event lists; cameras of "
                 "1, 2 and 32 modules; monitor tables",
        "thorough": "access sequences to length 4, 5 pixel counts",
    }

    def cases(self, tier):
        t = tier == "thorough"
        out = []
        for m in range(1, 5):
            for order in itertools.permutations(IEVS, m):
                for n_pixels in (1, 2, 5) + ((3, 64) if t else ()):
                    for heavy in range(0, m, 1 if t else 2):
                        out.append(dict(kind="events", order=list(order),
                                        n_pixels=n_pixels, heavy=heavy,
                                        depth=3 if t else 2))
        for order in itertools.permutations(BIG, 3):
            out.append(dict(kind="events", order=list(order), n_pixels=2,
                            heavy=order[0] % 3, depth=2))
        out.append(dict(kind="events", order=[5, 3, 9], n_pixels=2048,
                        heavy=1, depth=2))
        for nm, nsp in ((1, 16), (2, 4), (32, 16), (3, 2)):
            out.append(dict(kind="slots", n_modules=nm, n_sp=nsp))
        for nm in (1, 32, 2):
            for ver in ("1.0.1", "1.1.0"):
                out.append(dict(kind="maps", n_modules=nm, version=ver))
        for ne, nt, npx in itertools.product((1, 2, 3), (1, 2), (2, 3)):
            out.append(dict(kind="monitor", n=[ne, nt, npx]))
        out.append(dict(kind="nomonitor"))
        return out

    def setup(self):
        import CHECLabPy.core.io  # noqa: F401

    def make(self, ctx, order, n_pixels, heavy=0, extra=None, n_modules=1,
             n_sp=16, camera="1.1.0"):
        from CHECLabPy.core.io import HDF5Writer
        path = new_path(ctx, "fresh")
        frames = []
        sn, t1, t2, dac, hv = tables(n_modules, n_sp)
        with Spill(HEAVY) as spill, HDF5Writer(path) as w:
            for k, iev in enumerate(order):
                df = event(iev, n_pixels, k)
                frames.append(df.copy())
                if heavy and k == heavy - 1:
                    spill.mark(df)
                w.append(df, key="data",
                         expectedrows=len(order) * n_pixels)
            w.add_metadata(n_events=len(order), n_pixels=n_pixels,
                           n_modules=n_modules, n_samples=128, is_mc=True,
                           n_superpixels_per_module=n_sp,
                           camera_version=camera, source="x.tio")
            w.add_metadata(name="config", charge=True, window=5)
            for name, d in (("sn", sn), ("sipm_temp", t1), ("dac", dac),
                            ("primary_temp", t2), ("hvon", hv)):
                w.add_metadata(name=name, **d)
            if extra:
                extra(w)
        return path, frames

    def run(self, case, ctx):
        getattr(self, case["kind"])(case, ctx)
        ctx.trace()

    def events(self, case, ctx):
        from CHECLabPy.core.io import DL1Reader
        order, n_pixels = case["order"], case["n_pixels"]
        path, frames = self.make(ctx, order, n_pixels, case["heavy"])
        n = len(order)
        by_iev = dict(zip(order, frames))
        absent = [v for v in range(-1, 10) if v not in order]

        def get(iev):
            return lambda r: same_frame(r[iev], by_iev[iev], "reader[%d]"
                                        % iev)

        def idx(i):
            return lambda r: same_frame(r.select_event_index(i), frames[i],
                                        "select_event_index(%d)" % i)

        def missing(iev):
            return lambda r: raises(IndexError, lambda: r[iev],
                                    "reader[%d] of %s" % (iev, order))

        def selected(lst):
            def f(r):
                got = list(r.iterate_over_selected_events(lst))
                want = [fr for v, fr in zip(order, frames) if v in lst]
                expect(len(got) == len(want), lambda: "iterate_over_selected_"
                       "events(%s) of %s: %d events" % (lst, order, len(got)))
                for g, fr in zip(got, want):
                    same_frame(g, fr, "iterate_over_selected_events(%s) of %s"
                               % (lst, order))
            return f

        def alls(r):
            got = list(r.iterate_over_events())
            expect(len(got) == n, "iterate_over_events: %d of %d events" % (
                len(got), n))
            for g, fr in zip(got, frames):
                same_frame(g, fr, "iterate_over_events")

        def lookup(r):
            expect(list(r.event_lookup) == order, lambda: "event_lookup %s of "
                   "%s" % (list(r.event_lookup), order))

        def interleaved(r):
            a, b = r.iterate_over_events(), r.iterate_over_events()
            for i in range(n):
                same_frame(next(a, None), frames[i], "first of two iterations")
                if i:
                    same_frame(next(b, None), frames[i - 1], "second of two")
                get(order[-1 - i])(r)

        def whole(r):
            same_frame(r.load_entire_table(), pd.concat(
                frames, ignore_index=True), "load_entire_table")

        def props(r):
            expect((r.n_events, r.n_pixels, r.n_samples, r.is_mc, r.n_rows,
                    list(r.columns), r.config["window"],
                    r.metadata["source"]) == (
                        n, n_pixels, 128, True, n * n_pixels,
                        list(frames[0].columns), 5, "x.tio"), "properties")
            expect(r.n_bytes == r.metadata["n_bytes"], "n_bytes")

        ops = [get(v) for v in order] + [idx(i) for i in range(n)]
        ops += [missing(v) for v in absent[::4]]
        ops += [alls, lookup, interleaved, whole, props,
                selected(order[:1]), selected(order[::-1] + [5])]
        with DL1Reader(path) as r:
            for op in ops:
                op(r)
                ctx.step()
            for v in absent:
                missing(v)(r)
            cand = sorted(set(order) | {5})
            for m in range(len(cand) + 1):
                for sub in itertools.combinations(cand, m):
                    selected(list(sub))(r)
                    ctx.ev()
            for v in order:
                # what was returned belongs to the caller
                for df in (r[v], r.select_event_index(order.index(v)),
                           next(iter(r.iterate_over_selected_events([v])))):
                    df["charge"] = -1
                    df.drop(columns="pixel", inplace=True)
                    get(v)(r)
                ctx.ev()
            selected(np.array(order))(r)
            selected(order * 2)(r)
        depth = case["depth"] if n < 4 else 1
        if n_pixels == 2048:
            depth = 1
        short = [get(order[-1]), idx(0), missing(absent[0]), alls,
                 selected([order[0]]), interleaved]
        for hist in itertools.product(range(len(short)), repeat=depth):
            with DL1Reader(path) as r:
                for h in hist:
                    short[h](r)
                    ctx.step()
                    ctx.state((tuple(order), n_pixels, hist[:h + 1]))
            ctx.ev()
        ctx.outcome((tuple(order), n_pixels, case["heavy"]))

    def slots(self, case, ctx):
        from CHECLabPy.core.io import DL1Reader
        nm, nsp = case["n_modules"], case["n_sp"]
        path, _ = self.make(ctx, [0], 2, n_modules=nm, n_sp=nsp)
        sn, t1, t2, dac, hv = tables(nm, nsp)
        with DL1Reader(path) as r:
            expect((r.n_modules, r.n_superpixels_per_module) == (nm, nsp),
                   "n_modules")
            for tm in range(nm + 3):
                k = "TM%02d" % tm
                for f, d in ((r.get_sn, sn), (r.get_sipm_temp, t1),
                             (r.get_primary_temp, t2)):
                    if tm < nm:
                        expect(f(tm) == d[k], "%s(%d)" % (f.__name__, tm))
                    else:
                        raises(IndexError, lambda: f(tm), "%s(%d) of %d "
                               "modules" % (f.__name__, tm, nm))
                for sp in range(nsp + 2):
                    k2 = k + "_SP%02d" % sp
                    for f, d in ((r.get_sp_dac, dac), (r.get_sp_hvon, hv)):
                        if tm < nm and sp < nsp:
                            expect(f(tm, sp) == d[k2], "%s(%d, %d)" % (
                                f.__name__, tm, sp))
                        else:
                            raises(IndexError, lambda: f(tm, sp), "%s(%d, %d)"
                                   % (f.__name__, tm, sp))
                        ctx.ev()
        ctx.outcome(repr(case))

    def maps(self, case, ctx):
        from CHECLabPy.core.io import DL1Reader
        from CHECLabPy.utils.mapping import get_clp_mapping_from_tc_mapping
        from target_calib import CameraConfiguration
        nm = case["n_modules"]
        tc = CameraConfiguration(case["version"]).GetMapping(nm == 1)
        m = get_clp_mapping_from_tc_mapping(tc)
        path, _ = self.make(ctx, [0], 2, n_modules=nm,
                            camera=case["version"],
                            extra=lambda w: w.add_mapping(m))
        with DL1Reader(path) as r:
            got = r.mapping
            same_frame(got, m, "mapping")
            expect(got.metadata == m.metadata, "metadata of the mapping")
            expect(r.camera_version == case["version"], "camera_version")
            t = r.tc_mapping
            expect((t.cfgfile, t.single) == (tc.cfgfile, nm == 1), lambda:
                   "tc_mapping is %s, %s for %s" % (t.cfgfile, t.single,
                                                    case))
        ctx.ev()
        ctx.outcome(repr(case))

    def monitor(self, case, ctx):
        from CHECLabPy.core.io import DL1Reader
        ne, nt, npx = case["n"]
        rng = np.arange
        cam = pd.DataFrame(dict(imon=rng(ne), t_cpu=rng(ne) * 7,
                                temp=rng(ne) * 1.5 + 3))
        tm = pd.DataFrame(dict(imon=np.repeat(rng(ne), nt),
                               idevice=np.tile(rng(nt)[::-1], ne),
                               tm_temp=rng(ne * nt) ** 2 + 0.5))
        px = pd.DataFrame(dict(imon=np.repeat(rng(ne), npx),
                               idevice=np.tile(rng(npx), ne),
                               rate=np.sqrt(rng(ne * npx) + 2.0)))
        # a device that never gave a value
        tm["off"] = np.where(tm.idevice == 0, np.nan, tm.tm_temp + 1)
        px["dark"] = np.where(px.idevice == npx - 1, np.nan, px.rate * 2)
        tabs = dict(monitor_camera=cam, monitor_tm=tm, monitor_pixel=px)
        order = [4, 1, 3]
        imon = [(k * 2) % ne for k in range(3)]
        n_pixels = npx

        def extra(w):
            for k, v in tabs.items():
                w.append(v, key=k)
            w.add_metadata(key="monitor_metadata", n_bytes=1000,
                           n_events=ne, n_modules=nt)

        from CHECLabPy.core.io import HDF5Writer
        path = new_path(ctx, "fresh")
        index = dict(monitor_camera=[], monitor_tm=[], monitor_pixel=[])
        with HDF5Writer(path) as w:
            for k, iev in enumerate(order):
                df = event(iev, n_pixels, k)
                c = np.full(n_pixels, imon[k])
                t = imon[k] * nt + np.arange(n_pixels) % nt
                p = imon[k] * npx + np.arange(n_pixels)
                df["monitor_camera_index"] = c
                df["monitor_tm_index"] = t
                df["monitor_pixel_index"] = p
                for key, v in (("monitor_camera", c), ("monitor_tm", t),
                               ("monitor_pixel", p)):
                    index[key].extend(v)
                w.append(df)
            w.add_metadata(n_events=3, n_pixels=n_pixels)
            extra(w)
        warnings.simplefilter("ignore")
        with DL1Reader(path) as r:
            m = r.monitor
            expect((m.n_events, m.n_modules, m.n_bytes) == (ne, nt, 1000),
                   "monitor metadata")
            expect(list(m.columns_camera) == list(cam)
                   and list(m.columns_tm) == list(tm)
                   and list(m.columns_pixel) == list(px), "columns")
            same_frame(m.load_entire_table_camera(), cam, "camera")
            same_frame(m.load_entire_table_tm(), tm, "tm")
            same_frame(m.load_entire_table_pixel(), px, "pixel")
            for col, key in (("temp", "monitor_camera"),
                             ("tm_temp", "monitor_tm"),
                             ("rate", "monitor_pixel"),
                             ("off", "monitor_tm"),
                             ("dark", "monitor_pixel")):
                d = tabs[key][col].values
                expect(m.get_key_for_column(col) == key, "key of " + col)
                expect(same_values(m.select_column(col).values, d), col)
                expect(same_values(m.select_column(col, key).values, d), col)
                a, b = m.select_columns([col, "imon"], key)
                expect(same_values(a, d) and same_values(
                    b, tabs[key].imon.values), "select_columns " + col)
                for k in (dict(start=1), dict(stop=1),
                          dict(start=0, stop=len(d) - 1)):
                    want = d[k.get("start"):k.get("stop")]
                    for keys in ((), (key,)):
                        got = m.select_column(col, *keys, **k).values
                        expect(same_values(got, want), "%s %s" % (col, k))
                    got = m.select_columns([col, col], key, **k)
                    expect(len(got) == 2 and all(same_values(
                        g, want) for g in got), "%s %s" % (col, k))
                arr = m.select_column_as_array(col)
                expect(same_values(arr, d.reshape((ne, -1))),
                       "select_column_as_array " + col)
                got = r.get_matched_monitor_column(col)
                expect(same_values(np.asarray(got), d[index[key]]), lambda:
                       "get_matched_monitor_column(%s) is %s, expected %s" % (
                           col, np.asarray(got), d[index[key]]))
                if key != "monitor_camera":
                    w = d.reshape((ne, -1)).mean(0)
                    expect_close(m.get_average(col), w[::-1] if "tm" in key
                                 else w, "get_average " + col)
                ctx.ev()
            raises(KeyError, lambda: m.get_key_for_column("nothing"),
                   "get_key_for_column")
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                m.print_columns()
            own = {k: [c for c in v if c not in ("imon", "idevice", "t_cpu")]
                   for k, v in tabs.items()}
            expect(json.loads(out.getvalue()) == own, "print_columns")
        self.guard(path, tabs, ctx)
        ctx.outcome(repr(case))

    def guard(self, path, tabs, ctx):
        """monitor tables too large for memory"""
        from CHECLabPy.core.io import DL1Reader
        for n in (int(8e9), int(8e9) + 1, 10 ** 12):
            with pd.HDFStore(path, mode="a") as store:
                attrs = store.get_storer("monitor_metadata").attrs
                attrs.metadata = dict(attrs.metadata, n_bytes=n)
            with DL1Reader(path) as r:
                for key, v in tabs.items():
                    load = getattr(r.monitor, "load_entire_table_"
                                   + key.split("_")[1])
                    for force in (None, False, True):
                        k = {} if force is None else dict(force=force)
                        if n > 8e9 and not force:
                            raises(MemoryError, lambda: load(**k),
                                   "loading %d bytes" % n)
                            continue
                        with warnings.catch_warnings(record=True) as log:
                            warnings.simplefilter("always")
                            got = load(**k)
                        same_frame(got, v, "forced " + key)
                        w = sum(x.category is UserWarning for x in log)
                        expect((w > 0) == (n > 8e9), "loading %d bytes: %d "
                               "warnings" % (n, w))
                        ctx.ev()

    def nomonitor(self, case, ctx):
        from CHECLabPy.core.io import DL1Reader
        path, frames = self.make(ctx, [1, 2], 2)
        warnings.simplefilter("ignore")
        with DL1Reader(path) as r:
            raises(AttributeError, lambda: r.monitor, "monitor")
            raises(KeyError, lambda: r.mapping, "mapping")
            same_frame(r[2], frames[1], "reader[2]")
        ctx.ev()
        ctx.outcome("nomonitor")


CHECK = C05()
