import itertools
import os
import sys
import numpy as np
import pandas as pd
import yaml
from mc.engine import Check
from mc.red import COLUMNS, DEFAULT_ON, OWNER, REF, mapping, pulse
from mc.util import (Env, expect, expect_close, mkdir, noise,
                     same_values)
from mc.wf import Simtel, Tio

SKIPS = {"-": (False, False), "s": (True, False), "m": (False, True),
         "b": (True, True)}
NS = 40


def samples(total, n_pixels, n_samples=NS, seed=0):
    out = np.zeros((total, n_pixels, n_samples), dtype=np.float32)
    p = np.arange(n_pixels)
    for e in range(total):
        for i in p:
            out[e, i] = pulse(n_samples, 22 + (e * 5 + i * 3 + seed) % 9,
                              2.5, 10 + (i * 7 + e * 11) % 40)
        out[e] += (0.5 * e - 1 + (p % 5) * 0.25)[:, None]
        out[e] += noise((n_pixels, n_samples), e + 7 * seed + 1, -3, 3) / 16
    return out


class Ring:
    """the rolling baseline of the last n_base events"""

    def __init__(self, events, n_base=50, n=16):
        first = [np.asarray(w, dtype=float)[:, :n] for w in events[:n_base]]
        self.ring = list(first)
        self.n = n
        self.i = 0

    def subtract(self, wf):
        wf = np.asarray(wf, dtype=float)
        self.ring[self.i % len(self.ring)] = wf[:, :self.n].copy()
        self.i += 1
        base = np.mean([r.mean(1) for r in self.ring], axis=0)
        return wf - base[:, None], base


class SizePatch:
    """frames with `rows` rows report `size` bytes"""

    def __init__(self, rows, size):
        self.rows, self.size = rows, size

    def __enter__(self):
        real = pd.DataFrame.memory_usage
        outer = self
        flushes = self.flushes = []
        real_append = pd.HDFStore.append

        def memory_usage(df, *a, **k):
            v = real(df, *a, **k)
            if outer.size and len(df) == outer.rows:
                v = v.copy()
                v.iloc[-1] = outer.size
            return v

        def append(store, key, *a, **k):
            flushes.append(key)
            return real_append(store, key, *a, **k)
        self.env = Env((pd.DataFrame, "memory_usage", memory_usage),
                       (pd.HDFStore, "append", append))
        self.env.__enter__()
        return self

    def __exit__(self, *e):
        self.env.__exit__()


class C14(Check):
    id = "C14"
    level = "model_checking"
    rule = "distinct (skip pattern, flush pattern, options, file written)"
    assumptions = ("TargetIO, TargetCalib and ctapipe are stand-ins",
                   "the columns of one event are those of a fresh chain "
                   "(C10) on the time corrected (C17), baseline subtracted "
                   "waveforms")
    bounds = {
        "quick": "TIO runs of 1..3 events, every event ok, stale, missing "
                 "packets or both; the buffer moved to the file after every, "
                 "every third event, or at the end; max_events, several "
                 "files, YAML files, output paths; simulated runs of 1..3 "
                 "events; 60 events; 210 simulated events; 2048 pixels",
        "thorough": "1..5 events"}

    def cases(self, tier):
        t = tier == "thorough"
        out = []
        for n in range(1, 6 if t else 4):
            for skip in itertools.product("-smb", repeat=n):
                sizes = (0, 1, 3)
                if n == 3 and "b" in skip and not t:
                    sizes = (1,)
                if n > 3 and ("b" in skip or "m" in skip):
                    sizes = (1,)
                for s in sizes:
                    out.append(dict(kind="tio", skip="".join(skip), flush=s))
        for n in range(1, 4):
            for flush in (0, 1):
                for order in (0, 1):
                    out.append(dict(kind="sim", n=n, flush=flush,
                                    order=order))
        for f, name, o in (
                ("tio", "Run7_r1.tio", "Run7_dl1.h5"),
                ("tio", "Run7.tio", "Run7.h5"), ("tio", "Run7", None),
                ("tio", "Run7.fits", None), ("tio", "Run7.fits.gz", None),
                ("tio", "Run7.h5", None), ("tio", "dl1.simtel.gz", None),
                ("sim", "g.simtel.gz", "g_dl1.h5"), ("sim", "g.simtel", None),
                ("sim", "a.simtel.d/b.simtel.gz", "b_dl1.h5"),
                ("tio", "a.fits/Run3_r1.tio", "Run3_dl1.h5"),
                ("sim", "g", None), ("sim", "g.gz", None),
                ("sim", "g.tio", None), ("sim", "g_r1.tio", None)):
            out.append(dict(kind="names", file=f, name=name, out=o))
        out.append(dict(kind="shared"))
        for mx in (None, 1, 2, 3, 4):
            for conf in (None, "some", "all"):
                out.append(dict(kind="options", max=mx, conf=conf))
        for n in (1, 2, 3):
            for mx in (None, 1, 2, 3):
                out.append(dict(kind="files", n=n, max=mx))
        out.append(dict(kind="long_sim", n=210))
        out.append(dict(kind="long", n=60, skips=[3, 4, 49, 50, 55]))
        out.append(dict(kind="long", n=120 if t else 52, skips=[0]))
        out.append(dict(kind="big"))
        return out

    def setup(self):
        import CHECLabPy.scripts.extract_dl1  # noqa: F401

    def run(self, case, ctx):
        getattr(self, case["kind"])(case, ctx)
        ctx.trace()

    def main(self, *argv):
        from CHECLabPy.scripts import extract_dl1
        saved = sys.argv
        sys.argv = ["extract_dl1"] + list(argv)
        try:
            extract_dl1.main()
        finally:
            sys.argv = saved

    def expected(self, evs, n_pixels, conf, mc=False, n_base_from=None):
        """rows of the file: evs is the list of events of the reader"""
        from CHECLabPy.core.chain import WaveformReducerChain
        from CHECLabPy.calib import TimeCalibrator
        wfs = [e["samples"] for e in evs]
        ring = Ring(n_base_from or wfs)
        tc = None if mc else TimeCalibrator()
        rows = []
        k = dict(mapping=mapping(n_pixels), reference_pulse_path=REF)
        for e in evs:
            if e.get("stale") or e.get("missing_packets"):
                continue
            wf = e["samples"]
            cal = np.array(tc(np.array(wf))) if tc else wf
            sub, base = ring.subtract(cal)
            chain = WaveformReducerChain(n_pixels, wf.shape[1], conf, **k)
            d = chain.process(sub)
            d = {c: np.broadcast_to(np.asarray(v), (n_pixels,))
                 for c, v in d.items()}
            d["baseline_subtracted"] = base
            rows.append((e, d))
        return rows

    def verify(self, path, rows, n_read, run, case, ctx, columns, input_path,
               conf=None, mc=False):
        from CHECLabPy.core.io import DL1Reader
        n_pixels = run.samples.shape[1]
        with DL1Reader(path) as r:
            m = r.metadata
            want = dict(
                source="CHECLabPy", is_mc=mc, input_path=input_path,
                n_pixels=n_pixels, n_modules=n_pixels // 64,
                n_samples=run.samples.shape[2], camera_version="1.1.0",
                n_events=len(rows), n_skipped=n_read - len(rows),
                n_superpixels_per_module=0 if mc else 16,
                n_cells=0 if mc else 4096, run_id=77 if mc else 1234,
                start_time=rows[0][0]["t_cpu"] if rows else None,
                end_time=rows[-1][0]["t_cpu"] if rows else None)
            for k, v in want.items():
                expect(m[k] == v, lambda: "metadata[%r] is %r, expected %r" % (
                    k, m[k], v))
            expect("date_generated" in m, "date_generated")
            mp = r.mapping
            expect(len(mp) == n_pixels and mp.metadata["n_pixels"]
                   == n_pixels, "mapping")
            if not rows:
                expect("data" not in r.dataframe_keys, "rows of nothing")
                ctx.outcome((repr(case), "empty"))
                return
            df = r.load_entire_table()
            expect(len(df) == len(rows) * n_pixels, lambda: "%d rows for %d "
                   "events of %d pixels" % (len(df), len(rows), n_pixels))
            base = ["iev", "pixel", "t_cpu", "t_tack", "first_cell_id",
                    "baseline_subtracted"] + (["mc_true"] if mc else [])
            expect(set(df.columns) == set(base) | set(columns), lambda:
                   "columns %s" % list(df.columns))
            dt = dict(iev=np.uint32, pixel=np.uint32, t_tack=np.uint64,
                      first_cell_id=np.uint16, mc_true=np.uint32)
            for c in df.columns:
                if c in dt:
                    expect(df[c].dtype == dt[c], lambda: "%s is %s" % (
                        c, df[c].dtype))
                elif df[c].dtype.kind == "f":
                    expect(df[c].dtype == np.float32, lambda: "%s is %s" % (
                        c, df[c].dtype))
            for i, (e, d) in enumerate(rows):
                ev = df.iloc[i * n_pixels:(i + 1) * n_pixels]
                what = "event %d of the file (event %d of the run)" % (
                    i, e["iev"])
                expect((ev.iev.values == e["iev"]).all(), lambda: "%s: iev %s"
                       % (what, ev.iev.values[:3]))
                expect(same_values(ev.pixel.values, np.arange(n_pixels)),
                       "%s: pixels" % what)
                expect((pd.DatetimeIndex(ev.t_cpu) == e["t_cpu"]).all(),
                       "%s: t_cpu" % what)
                for c, k in (("t_tack", "t_tack"),
                             ("first_cell_id", "first_cell_id")):
                    expect((ev[c].values == e.get(k, 0)).all(), lambda:
                           "%s: %s is %s, expected %s" % (
                               what, c, ev[c].values[:3], e.get(k, 0)))
                if mc:
                    expect(same_values(ev.mc_true.values, e["mc_true"]),
                           "%s: mc_true" % what)
                for c, v in d.items():
                    v = np.asarray(v, dtype=float)
                    expect_close(ev[c].values, v, "%s: %s" % (what, c),
                                 1e-4, 1e-4 * max(1, np.nanmax(np.abs(v))))
                got = r[e["iev"]]
                expect(same_values(got.pixel.values, ev.pixel.values)
                       and (got.iev.values == e["iev"]).all(),
                       "%s through reader[]" % what)
                ctx.ev()
            c = r.config
            for k in columns:
                expect(bool(c[k]), "config[%r]" % k)
            for k in DEFAULT_ON | set(OWNER):
                expect(bool(c.get(k, False)) == (k in columns),
                       "config[%r]" % k)
            expect(c["reference_pulse_path"] == REF, "reference pulse")
            if conf:
                with open(conf) as f:
                    for k, v in yaml.safe_load(f).items():
                        expect(c[k] == v, lambda: "config[%r] is %r, %r was "
                               "configured" % (k, c[k], v))
            expect("mapping" not in c, "config contains the mapping")
            if not mc:
                for tm in range(n_pixels // 64):
                    expect((r.get_sn(tm), r.get_sipm_temp(tm),
                            r.get_primary_temp(tm)) == (
                                300 + 41 * (5 * tm % 32), 20.5 + tm, 30.25 + tm),
                           "module %d" % tm)
                    for sp in range(16):
                        expect((r.get_sp_dac(tm, sp), r.get_sp_hvon(tm, sp))
                               == (50 + 16 * tm + sp, (tm + sp) % 2),
                               "superpixel %d %d" % (tm, sp))
            else:
                mcd, po = r.read("mc"), r.read("pointing")
                ievs = [e["iev"] for e, _ in rows]
                expect(list(mcd.iev) == ievs and list(po.iev) == ievs,
                       "events of mc and pointing")
                for k, j in dict(energy=10, alt=20, az=30, core_x=40,
                                 core_y=50, h_first_int=60,
                                 x_max=70).items():
                    expect_close(mcd[k], [j + i for i in ievs], "mc " + k)
                expect(list(mcd.shower_primary_id) == [i % 3 for i in ievs],
                       "shower_primary_id")
                for j, k in enumerate(("azimuth_raw", "altitude_raw",
                                       "azimuth_cor", "altitude_cor")):
                    expect_close(po[k], [j + 1 + i for i in ievs], k)
                times = [e["t_cpu"] for e, _ in rows]
                for d in (mcd, po):
                    expect(list(pd.DatetimeIndex(d.t_cpu)) == times,
                           "times of mc and pointing")
                h = r.get_metadata("mc", "mcheader")
                from ctapipe.io import SimTelEventSource
                w = vars(SimTelEventSource(run.path, back_seekable=True)
                         .event(0).mcheader)
                w = {k: getattr(v, "value", v) for k, v in w.items()}
                expect(h == dict(w, obs_id=77), lambda: "mcheader %s" % h)
        ctx.outcome(repr(case))

    def tio_run(self, ctx, skip, n_pixels=64, name="Run00007_r1.tio", seed=0,
                n_samples=NS, path=None):
        total = len(skip) + 3
        pad = ["-", "-"] + list(skip) + ["-"]
        return Tio(path or ctx.path(name), total, samples=samples(
            total, n_pixels, n_samples, seed),
            stale=[SKIPS[s][0] for s in pad],
            missing=[SKIPS[s][1] for s in pad])

    def events(self, run, n, first=2):
        return [run.expect(first + i, i) for i in range(n)]

    def tio(self, case, ctx):
        skip = case["skip"]
        run = self.tio_run(ctx, skip)
        out = run.path.replace("_r1.tio", "_dl1.h5")
        size = {0: 0, 1: 6e8, 3: 2e8}[case["flush"]]
        with SizePatch(64, size) as sp:
            self.main("-f", run.path)
        evs = self.events(run, len(skip))
        rows = self.expected(evs, 64, None)
        n_flush = sum(k == "data" for k in sp.flushes)
        if case["flush"] == 1:
            expect(n_flush == len(rows), lambda: "%d moves to the file for %d "
                   "events of 0.6 GB" % (n_flush, len(rows)))
        ctx.step(len(skip))
        for i in range(len(skip)):
            ctx.state((skip[:i + 1], case["flush"]))
        self.verify(out, rows, len(skip), run, case, ctx, DEFAULT_ON,
                    run.path)

    def sim(self, case, ctx):
        n = case["n"]
        run = Simtel(ctx.path("gamma.simtel.gz"), n, order=case["order"],
                     samples=samples(n, 2048), gz=True)
        out = run.path.replace(".simtel.gz", "_dl1.h5")
        with SizePatch(2048, 6e8 if case["flush"] else 0):
            self.main("-f", run.path)
        evs = self.events(run, n, 0)
        rows = self.expected(evs, 2048, None, mc=True)
        ctx.step(n)
        ctx.state(repr(case))
        self.verify(out, rows, n, run, case, ctx, DEFAULT_ON, run.path,
                    mc=True)

    def long_sim(self, case, ctx):
        """a long run of simulated events"""
        n = case["n"]
        few = samples(7, 2048)
        run = Simtel(ctx.path("gamma.simtel.gz"), n, gz=True,
                     samples=few[np.arange(n) % 7])
        off = {c: False for c in DEFAULT_ON}
        conf = ctx.path("conf.yml")
        with open(conf, "w") as f:
            yaml.safe_dump(dict(off, waveform_max=True), f)
        self.main("-f", run.path, "-c", conf)
        rows = self.expected(self.events(run, n, 0), 2048, conf, mc=True)
        ctx.step(n)
        self.verify(run.path.replace(".simtel.gz", "_dl1.h5"), rows, n, run,
                    case, ctx, {"waveform_max"}, run.path, conf, mc=True)

    def config(self, ctx, conf):
        if conf is None:
            return None, DEFAULT_ON
        cols = {"some": ["t_pulse", "charge_cc_nn", "waveform_max"],
                "all": [c for c in OWNER if c != "flasher_unit"]}[conf]
        p = ctx.path("conf.yml")
        with open(p, "w") as f:
            yaml.safe_dump(dict({c: True for c in cols}, waveform_mean=False,
                                window_size=9, my_setting="x"), f)
        return p, set(cols) - {"waveform_mean"}

    def options(self, case, ctx):
        run = self.tio_run(ctx, "-s-")
        conf, cols = self.config(ctx, case["conf"])
        out = os.path.join(os.path.dirname(run.path), "new", "x.h5")
        argv = ["-f", run.path, "-o", out]
        n = 3
        if case["max"]:
            argv += ["-n", str(case["max"])]
            n = min(3, case["max"])
        if conf:
            argv += ["-c", conf]
        self.main(*argv)
        evs = self.events(run, n)
        rows = self.expected(evs, 64, conf)
        ctx.step()
        ctx.state(repr(case))
        self.verify(out, rows, n, run, case, ctx, cols, run.path, conf)

    def files(self, case, ctx):
        runs = [self.tio_run(ctx, "-" * (i + 1) + "s", seed=i,
                             name="Run0001%d_r1.tio" % i)
                for i in range(case["n"])]
        self.main("-f", *[r.path for r in runs], *(
            ["-n", str(case["max"])] if case["max"] else []))
        for i, run in enumerate(runs):
            n = min(i + 2, case["max"] or 9)
            rows = self.expected(self.events(run, n), 64, None)
            ctx.step()
            ctx.state((case["n"], i))
            self.verify(run.path.replace("_r1.tio", "_dl1.h5"), rows, n, run,
                        case, ctx, DEFAULT_ON, run.path)

    def shared(self, case, ctx):
        """one output path for several files cannot hold them all"""
        runs = [self.tio_run(ctx, "-" * (i + 1), name="Run%d_r1.tio" % i)
                for i in range(2)]
        out = ctx.path("all.h5")
        try:
            self.main("-f", *[r.path for r in runs], "-o", out)
        except (SystemExit, Exception) as e:
            expect(not isinstance(e, SystemExit) or e.code, "no error")
        else:
            expect(False, "two files were extracted to one path")
        ctx.ev()
        ctx.outcome("shared")

    def names(self, case, ctx):
        """without an output path, whatever the name of the input"""
        name = case["name"]
        path = mkdir(os.path.join(os.path.dirname(ctx.path("x")), name))
        name = os.path.basename(name)
        if "sim" in case["file"]:
            run = Simtel(path, 2, samples=samples(2, 2048),
                         gz=name.endswith("gz"))
        else:
            run = self.tio_run(ctx, "-s-", path=path)
        d = os.path.dirname(path)
        with open(path, "rb") as f:
            before = f.read()
        self.main("-f", path)
        with open(path, "rb") as f:
            expect(f.read() == before, "extracting %r changed the file of the "
                   "waveforms" % name)
        new = [x for x in os.listdir(d) if x != name]
        expect(len(new) == 1, lambda: "extracting %r left the files %s" % (
            name, new))
        if case["out"]:
            expect(new == [case["out"]], lambda: "%r was extracted to %s" % (
                name, new))
        sim = isinstance(run, Simtel)
        n = 2 if sim else 3
        n_pixels = 2048 if sim else 64
        rows = self.expected(self.events(run, n, *([0] if sim else [])),
                             n_pixels, None, mc=sim)
        ctx.step(n)
        ctx.state(repr(case))
        self.verify(os.path.join(d, new[0]), rows, n, run, case, ctx,
                    DEFAULT_ON, path, mc=sim)

    def long(self, case, ctx):
        skip = "".join("s" if i in case["skips"] else "-"
                       for i in range(case["n"]))
        run = self.tio_run(ctx, skip)
        with SizePatch(64, 3e7):
            self.main("-f", run.path)
        rows = self.expected(self.events(run, case["n"]), 64, None)
        ctx.step(case["n"])
        self.verify(run.path.replace("_r1.tio", "_dl1.h5"), rows, case["n"],
                    run, case, ctx, DEFAULT_ON, run.path)

    def big(self, case, ctx):
        run = self.tio_run(ctx, "-m-", 2048, n_samples=128)
        with SizePatch(2048, 6e8):
            self.main("-f", run.path)
        rows = self.expected(self.events(run, 3), 2048, None)
        ctx.step(3)
        self.verify(run.path.replace("_r1.tio", "_dl1.h5"), rows, 3, run,
                    case, ctx, DEFAULT_ON, run.path)


CHECK = C14()
