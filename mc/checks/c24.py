"""extract_spe: the result does not depend on how the fits are scheduled."""
import itertools
import os
import re
import sys
import numpy as np
import pandas as pd
import yaml
from mc import pool
from mc.engine import Check
from mc.red import mapping
from mc.util import expect, expect_close, lcg

TOY = "MCToyFitter"
NUMBER = re.compile(r"[-+]?\d+\.?\d*(?:e[-+]?\d+)?")
FINE = 2.0 ** -20  # lost in a smaller type


def define_toy():
    from CHECLabPy.core.spectrum_fitter import (
        SpectrumFitter, SpectrumParameter, SpectrumParameterCollection)

    class MCToyFitter(SpectrumFitter):
        def __init__(self, n_illuminations):
            super().__init__(n_illuminations)
            self.parameters = SpectrumParameterCollection([
                SpectrumParameter("eped", 1.0, (-5, 12)),
                SpectrumParameter("lambda_", 2.0, (0.3, 8), multi=True),
            ], n_illuminations)
            self.n_bins = 10
            self.range = (-5, 15)

        @staticmethod
        def _get_spectra(n, data_x, lookup, *v):
            x = np.asarray(data_x, dtype=float)
            return [np.exp(-0.5 * ((x - v[lookup[i]["eped"]])
                                   / v[lookup[i]["lambda_"]]) ** 2)
                    for i in range(n)]

        @staticmethod
        def _get_likelihood(n, data_x, data_y, lookup, *v):
            total = 0.0
            for i, s in enumerate(MCToyFitter._get_spectra(
                    n, data_x, lookup, *v)):
                y = np.asarray(data_y[i], dtype=float)
                total += np.sum((y - s * y.sum() / s.sum()) ** 2 / (y + 1))
            return total
    globals()[TOY] = MCToyFitter
    MCToyFitter.__qualname__ = TOY
    return MCToyFitter


def charges(n_pixels, ill, n_events=60):
    out = np.zeros((n_events, n_pixels), dtype=np.float32)
    for p in range(n_pixels):
        out[:, p] = (lcg(n_events, 3 + p + 50 * ill, -12, 12) * 0.25
                     * (0.6 + 0.1 * ill + 0.07 * (p % 5))
                     + 2 + 1.3 * ((p * 7) % 5))
    return out


def write_dl1(ctx, n_pixels, ill, n_events=60, dtype=np.float32):
    from CHECLabPy.core.io import HDF5Writer
    path = ctx.path("Run%05d_dl1.h5" % ill)
    c = charges(n_pixels, ill, n_events).astype(dtype)
    if dtype == np.float64:
        c += FINE
    with HDF5Writer(path) as w:
        for iev in range(len(c)):
            w.append(pd.DataFrame(dict(
                iev=np.full(n_pixels, iev, np.uint32),
                pixel=np.arange(n_pixels, dtype=np.uint32),
                t_cpu=pd.to_datetime(np.full(n_pixels, iev * 10 ** 9)),
                other=c[iev] * 0, charge=c[iev])), key="data",
                expectedrows=c.size)
        w.add_metadata(n_events=len(c), n_pixels=n_pixels, n_modules=1,
                       n_samples=128, is_mc=False,
                       n_superpixels_per_module=16, camera_version="1.1.0")
        w.add_metadata(name="config", charge=True)
        w.add_mapping(mapping(64))
    return path


class C24(Check):
    id = "C24"
    level = "model_checking"
    rule = "distinct schedules (order of hand-outs, writes and completions)"
    assumptions = (
        "multiprocessing is replaced by forked workers under a scheduler; "
        "shared objects are updated one operation at a time",
        "a fitter with a cheap likelihood, so that many schedules fit in")
    bounds = {
        "quick": "2 pixels on 2 workers: every schedule; 2 files and 3 "
                 "pixels on 2 and 3 workers: every schedule with up to 2 "
                 "preemptions; 5 pixels on 2 workers: 1 preemption; chunks "
                 "of several pixels (9 and 20 pixels); the real Pool with 2 "
                 "and 3 processes; serial runs of 1..3 files, in other orders, "
                 "of 9000 events, of different lengths, of double "
                 "precision and with a fixed parameter",
        "thorough": "4 preemptions with 3 pixels, 3 with 5"}

    def setup(self):
        import multiprocessing
        self.genuine = (multiprocessing.Pool, multiprocessing.Manager)
        # whichever way the script takes them from the module
        multiprocessing.Pool = pool.Pool
        multiprocessing.Manager = pool.Manager
        define_toy()
        import CHECLabPy.scripts.extract_spe as m
        import CHECLabPy.core.factory as fac
        assert TOY in fac.SpectrumFitterFactory.subclass_names
        assert m.main

    def cases(self, tier):
        t = tier == "thorough"
        out = [dict(kind="real", n=3, workers=w) for w in (2, 3)]
        out.append(dict(kind="serial"))
        out.append(dict(kind="inputs"))
        out += [dict(kind="plot", fixed=f) for f in (False, True)]
        out.append(dict(kind="shipped"))
        for n, w, ill, pre in ((2, 2, 1, None),
                               (2, 2, 2, None if t else 2),
                               (3, 2, 1, 4 if t else 2),
                               (3, 3, 1, 4 if t else 2),
                               (5, 2, 1, 3 if t else 1)):
            # the first two choices split the tree between the workers
            for a, b, c in itertools.product((0, 1), (0, 1, 2), (0, 1, 2)):
                out.append(dict(kind="schedules", n=n, workers=w, ill=ill,
                                preemptions=pre, first=[0, a, b, c]))
        for n, w in ((9, 2), (20, 2)):
            for a in (0, 1):
                out.append(dict(kind="schedules", n=n, workers=w, ill=1,
                                preemptions=1 if n == 9 or t else 0,
                                first=[0, a]))
        return out

    def run(self, case, ctx):
        getattr(self, case["kind"])(case, ctx)
        ctx.trace()

    def main(self, *argv):
        from CHECLabPy.scripts import extract_spe
        saved = sys.argv
        sys.argv = ["extract_spe"] + [str(a) for a in argv]
        try:
            extract_spe.main()
        finally:
            sys.argv = saved

    def read(self, path):
        from CHECLabPy.core.io import HDF5Reader
        with HDF5Reader(path) as r:
            return (r.read("values"), r.read("errors"), r.read("arrays"),
                    r.get_metadata(), r.get_mapping())

    def alone(self, n_pixels, ill, name=TOY, config=None, c=None):
        """each pixel on its own with a new fitter"""
        from CHECLabPy.core.factory import SpectrumFitterFactory as F
        if c is None:
            c = [charges(n_pixels, i) for i in range(ill)]
        out = []
        for p in range(n_pixels):
            f = F.produce(name, n_illuminations=ill)
            if config:
                f.load_config(config)
            f.apply(*[x[:, p] for x in c])
            out.append(dict(
                values=dict(f.fit_result_values),
                errors=dict(f.fit_result_errors),
                arrays=dict(zip(
                    ("charge_hist_x", "charge_hist_y", "charge_hist_edges",
                     "fit_x", "fit_y"),
                    f.charge_histogram + f.fit_result_curve))))
        return out

    def compare(self, path, want, what, files, ill, name=TOY):
        values, errors, arrays, meta, mapping = self.read(path)
        n = len(want)
        for df, key in ((values, "values"), (errors, "errors"),
                        (arrays, "arrays")):
            if "pixel" in df.columns:
                df = df.set_index("pixel")
            expect(list(df.index) == list(range(n)), lambda: "%s: %s has "
                   "pixels %s" % (what, key, list(df.index)))
            for p in range(n):
                w = want[p][key]
                expect(set(df.columns) == set(w), lambda: "%s: columns %s" %
                       (what, list(df.columns)))
                for c, v in w.items():
                    g = df.loc[p, c]
                    if key != "arrays":
                        expect(abs(g - v) <= 1e-9 * max(1, abs(v)), lambda:
                               "%s: %s of pixel %d: %s=%r, alone %r" % (
                                   what, key, p, c, g, v))
                    elif isinstance(v, list):
                        expect(len(g) == len(v), "%s: %s" % (what, c))
                        for a, b in zip(g, v):
                            expect_close(a, b, "%s: %s of pixel %d" % (
                                what, c, p))
                    else:
                        expect_close(g, v, "%s: %s of pixel %d" % (
                            what, c, p))
        expect(meta["fitter"] == name and meta["n_illuminations"] == ill
               and list(meta["files"]) == list(files),
               lambda: "%s: metadata %s" % (what, meta))
        expect(meta["n_pixels"] == n, lambda: "%s: n_pixels is %s" % (
            what, meta["n_pixels"]))
        expect(len(mapping) == 64, "%s: mapping" % what)
        return meta

    def schedules(self, case, ctx):
        n, ill = case["n"], case["ill"]
        files = [write_dl1(ctx, n, i) for i in range(ill)]
        want = self.alone(n, ill)
        out = ctx.path("spe.h5")

        def run(s):
            if os.path.exists(out):
                os.remove(out)
            self.main("-f", *files, "-o", out, "-C", "charge", "-s", TOY,
                      "--n_processes", case["workers"])
            expect(s.choices, "no work was given to the pool")
        first = case["first"]
        # prefixes that do not exist are covered by their siblings
        try:
            for s in pool.explore(run, case["preemptions"], first):
                self.compare(out, want, "schedule %s" % (s.trace,), files,
                             ill)
                ctx.ev()
                ctx.step(len(s.trace))
                for i in range(len(s.trace)):
                    ctx.state((n, case["workers"], ill,
                               tuple(s.trace[:i + 1])))
                ctx.outcome((n, case["workers"], ill, tuple(s.trace)))
        except pool.NoSuchBranch:
            pass

    def serial(self, case, ctx):
        conf = ctx.path("c.yml")
        with open(conf, "w") as f:
            yaml.safe_dump(dict(n_bins=8, range=[-6, 14], initial=dict(
                eped=2.5, lambda_=1.5), limits=dict(eped=[-2, 8])), f)
        fixed = ctx.path("f.yml")
        with open(fixed, "w") as f:
            yaml.safe_dump(dict(initial=dict(eped=2.5, lambda_=1.5),
                                fixed=dict(eped=True)), f)
        for ill in (1, 2, 3):
            for config in (None, conf, fixed):
                files = [write_dl1(ctx, 4, i) for i in range(ill)]
                out = ctx.path("spe.h5")
                argv = ["-f"] + files + ["-o", out, "-C", "charge", "-s",
                                         TOY]
                if config:
                    argv += ["-c", config]
                self.main(*argv)
                meta = self.compare(out, self.alone(4, ill, TOY, config),
                                    "%d files" % ill, files, ill)
                ini = dict(eped=2.5, lambda_=1.5) if config else \
                    dict(eped=1.0, lambda_=2.0)
                want = dict(eped=ini["eped"])
                for i in range(ill):
                    want["lambda_%d" % i] = ini["lambda_"]
                expect(dict(meta["initial"]) == want, lambda: "initial %s" %
                       meta["initial"])
                ctx.ev()
                ctx.outcome(("serial", ill, os.path.basename(str(config))))

    def inputs(self, case, ctx):
        """many events, other orders of files, other types"""
        for n_ev, dtype, order in (((9000, 9000), np.float32, (0, 1)),
                                   ((60, 60), np.float64, (1, 0)),
                                   ((61, 90), np.float32, (0, 1)),
                                   ((90, 61), np.float32, (1, 0)),
                                   ((61, 70, 50), np.float32, (2, 0, 1))):
            files = [write_dl1(ctx, 3, i, n_ev[i], dtype)
                     for i in sorted(order)]
            files = [files[i] for i in order]
            c = [charges(3, i, n_ev[i]).astype(dtype) for i in order]
            if dtype == np.float64:
                c = [x + FINE for x in c]
            out = ctx.path("spe.h5")
            self.main("-f", *files, "-o", out, "-C", "charge", "-s", TOY)
            self.compare(out, self.alone(3, len(order), c=c),
                         "files %s of %s events" % (order, n_ev), files,
                         len(order))
            ctx.ev()
            ctx.outcome(("inputs", order, n_ev))

    def real(self, case, ctx):
        """the scheduler is a model of the real one"""
        import CHECLabPy.scripts.extract_spe as m
        import multiprocessing
        names = [k for k, v in vars(m).items() if v is pool.Pool]
        mans = [k for k, v in vars(m).items() if v is pool.Manager]
        for k in names:
            setattr(m, k, self.genuine[0])
        for k in mans:
            setattr(m, k, self.genuine[1])
        multiprocessing.Pool, multiprocessing.Manager = self.genuine
        try:
            for n in (3, 70):
                files = [write_dl1(ctx, n, i) for i in range(2)]
                out = ctx.path("spe.h5")
                self.main("-f", *files, "-o", out, "-C", "charge", "-s", TOY,
                          "--n_processes", case["workers"])
                self.compare(out, self.alone(n, 2), "real pool", files, 2)
                ctx.ev()
        finally:
            multiprocessing.Pool = pool.Pool
            multiprocessing.Manager = pool.Manager
            for k in names:
                setattr(m, k, pool.Pool)
            for k in mans:
                setattr(m, k, pool.Manager)
        ctx.outcome(repr(case))

    def shipped(self, case, ctx):
        name = "SiPMGentileFitter"
        files = [write_dl1(ctx, 3, 0)]
        conf = ctx.path("c.yml")
        with open(conf, "w") as f:
            yaml.safe_dump(dict(n_bins=30, range=[-10, 15], initial=dict(
                spe=3.0, eped_sigma=1.0, spe_sigma=0.5), limits=dict(
                eped=[-5, 8], eped_sigma=[0.3, 5], spe=[1, 10],
                spe_sigma=[0.1, 3], opct=[0.01, 0.9],
                lambda_=[0.01, 4])), f)
        out = ctx.path("spe.h5")
        self.main("-f", *files, "-o", out, "-C", "charge", "-c", conf)
        self.compare(out, self.alone(3, 1, name, conf), name, files, 1, name)
        ctx.ev()
        ctx.outcome(name)

    def drawn(self, out, drawn):
        """the plots show the fits in the file"""
        val, err, arr = (pd.read_hdf(out, k) for k in (
            "values", "errors", "arrays"))
        for c in ("eped", "lambda_0", "lambda_1"):
            axes = [id(a) for _, _, a in drawn["camera_%s.pdf" % c][0]]
            expect(len(axes) == 2 and len(set(axes)) == 2,
                   "camera images of %s: %d on %d axes" % (
                       c, len(axes), len(set(axes))))
            images = {a: b for a, b, _ in drawn["camera_%s.pdf" % c][0]}
            expect_close(images["Fit Values"], val[c], "image of " + c, 0, 0)
            expect_close(images["Fit Errors"], err[c], "errors of " + c, 0,
                         0)
            expect(drawn["hist_%s.pdf" % c][1] == 64, lambda: "histogram of "
                   "%s holds %s pixels" % (c, drawn["hist_%s.pdf" % c][1]))
            texts = " ".join(drawn["hist_%s.pdf" % c][3])
            numbers = [float(x) for x in NUMBER.findall(texts)]
            for v, nm in ((val[c].mean(), "mean"), (val[c].std(), "spread")):
                expect(any(abs(x - v) <= 0.02 * abs(v) + 1e-12
                           for x in numbers), lambda: "histogram of %s: %s "
                       "%r is not in %r" % (c, nm, v, texts))

    def drawn_pixel(self, out, drawn, pixel, initial):
        val, err, arr = (pd.read_hdf(out, k) for k in (
            "values", "errors", "arrays"))
        _, _, lines, texts, rows = drawn["spectrum_p%d.pdf" % pixel]
        for i in (0, 1):
            y = arr.loc[pixel, "fit_y"][i]
            expect(any(len(b) == len(y) and np.allclose(b, y)
                       for _, b in lines), "no curve of illumination %d of "
                   "pixel %d" % (i, pixel))
        for c in ("eped", "lambda_0", "lambda_1"):
            row = [r for r in rows if c in r]
            expect(len(row) == 1, lambda: "rows for %s: %s" % (c, rows))
            numbers = [float(x) for t in row[0] if t != c
                       for x in NUMBER.findall(t)]
            for v, nm in ((initial[c], "initial value"),
                          (val.loc[pixel, c], "value"),
                          (err.loc[pixel, c], "error")):
                expect(any(abs(x - v) <= 6e-4 for x in numbers), lambda:
                       "pixel %d: %s %r of %s is not in %s" % (
                           pixel, nm, v, c, row[0]))
        expect(any(TOY in t and re.search(r"\b%d\b" % pixel, t)
                   for t in texts), lambda: "title: %s" % texts)

    def plot(self, case, ctx):
        """plot_spe reads what extract_spe wrote"""
        from matplotlib.figure import Figure
        from matplotlib.table import Table
        from matplotlib.text import Text
        from CHECLabPy.scripts import plot_spe
        files = [write_dl1(ctx, 64, i) for i in range(2)]
        out = ctx.path("spe.h5")
        argv, conf, eped = [], None, 1.0
        if case["fixed"]:
            # the same value, below zero, in every pixel
            conf, eped = ctx.path("f.yml"), -1.25
            with open(conf, "w") as f:
                yaml.safe_dump(dict(initial=dict(eped=eped), fixed=dict(
                    eped=True)), f)
            argv = ["-c", conf]
        self.main("-f", *files, "-o", out, "-C", "charge", "-s", TOY, *argv)
        self.compare(out, self.alone(64, 2, TOY, conf), "64 pixels", files,
                     2)
        d = os.path.join(os.path.dirname(out), "plots")
        saved = sys.argv
        drawn = {}
        real = Figure.savefig

        def savefig(fig, name, *a, **k):
            real(fig, name, *a, **k)
            drawn[os.path.basename(str(name))] = (
                [(c.colorbar.ax.get_ylabel(), np.array(c.get_array()), ax)
                 for ax in fig.axes for c in ax.collections
                 if np.size(c.get_array()) == 64
                 and c.colorbar is not None],
                sum(p.get_height() for ax in fig.axes for p in ax.patches
                    if hasattr(p, "get_height")),
                [(np.array(ln.get_xdata()), np.array(ln.get_ydata()))
                 for ax in fig.axes for ln in ax.lines],
                [t.get_text() for t in fig.findobj(Text)], rows(fig))

        def rows(fig):
            out = {}
            for t in fig.findobj(Table):
                for (r, _), cell in t.get_celld().items():
                    out.setdefault(r, []).append(cell.get_text().get_text())
            return list(out.values())
        Figure.savefig = savefig
        try:
            for pixel in (7, 0, 63):
                sys.argv = ["plot_spe", "-f", out, "-o", d, "-p", str(pixel)]
                plot_spe.main()
                self.drawn_pixel(out, drawn, pixel, dict(
                    eped=eped, lambda_0=2.0, lambda_1=2.0))
        finally:
            sys.argv = saved
            Figure.savefig = real
        self.drawn(out, drawn)
        want = {"spectrum_p%d.pdf" % i for i in (7, 0, 63)} | {
            "%s_%s.pdf" % (k, c) for k in ("camera", "hist")
            for c in ("eped", "lambda_0", "lambda_1")}
        expect(set(os.listdir(d)) == want, lambda: "plots %s" %
               sorted(os.listdir(d)))
        expect(all(os.path.getsize(os.path.join(d, f)) > 1000 for f in want),
               "empty plots")
        # plot mode of extract_spe leaves no file
        import matplotlib.pyplot as plt
        keep = plt.show
        plt.show = lambda *a, **k: None
        other = ctx.path("none.h5")
        try:
            self.main("-f", *files, "-o", other, "-C", "charge", "-s", TOY,
                      "-p", "5")
            code = "returned"
        except SystemExit as e:
            code = e.code
        finally:
            plt.show = keep
        expect(code in (None, 0, "returned") and not os.path.exists(other),
               "plot mode: exit %s" % code)
        ctx.ev()
        ctx.outcome(repr(case))


CHECK = C24()
