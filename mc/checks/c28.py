"""Camera images and waveform plots: what is drawn is what was given."""
import itertools
import os
import numpy as np
from mc.engine import Check
from mc.util import expect, expect_close, noise
from mc import red

N = 6
ROW = np.array([0, 0, 1, 1, 2, 2])
COL = np.array([0, 1, 0, 1, 0, 1])
SIZE = 0.5
IMAGES = {
    "a": np.array([1., 2., 3., 4., 5., 6.]),
    "b": np.array([60., 7., 0.5, 8., 9., 10.]),
    "nan": np.array([np.nan, 2., 30., np.inf, 5., 1.]),
    "neg": np.array([-5., 0., 5., 1., -20., 3.]),
    "inf": np.array([4., -np.inf, 2., np.inf, 50., 0.25]),
    "int": np.array([7, 3, 9, 1, 2, 8]),
}
LIMITS = dict(limits=(-1.0, 4.0), limits2=(-30.0, 100.0), limits3=(2.0, 40.0))
OPS = ["a", "b", "nan", "neg", "int", "inf", "limits", "limits2", "reset",
       "highlight", "text", "bar"]


class C28(Check):
    id = "C28"
    level = "model_checking"
    rule = "distinct sequences of operations on a camera image and scenes"
    assumptions = ("matplotlib's Agg backend",
                   "limits set while a colour bar is shown overlap the ones "
                   "in use (matplotlib before 3.10 swaps them otherwise)")
    bounds = {
        "quick": "every sequence of up to 3 of 12 operations (and log scale) "
                 "on both kinds of image; every set of highlighted pixels of "
                 "6, as mask and as list; annotations of 1 and 32 modules; "
                 "waveform plots of 1 and 32 modules, by module and by "
                 "pixel",
        "thorough": "sequences of up to 4 operations"}

    def setup(self):
        import matplotlib
        matplotlib.use("Agg")
        import CHECLabPy.plotting.camera  # noqa: F401
        import CHECLabPy.plotting.waveform  # noqa: F401
        import CHECLabPy.plotting.spe  # noqa: F401

    def cases(self, tier):
        depth = 4 if tier == "thorough" else 3
        out = [dict(kind="pixel", n=2048)]
        out += [dict(kind="annotate", cls=c, single=s, version=v)
               for c in ("patch", "imshow") for s in (True, False)
               for v in ("1.0.1",)]
        out += [dict(kind="coarse", cls=c) for c in ("patch", "imshow")]
        out += [dict(kind="tm", n_samples=n, single=s)
                for n in (16, 40) for s in (True, False)]
        out += [dict(kind="pixel", n=64)]
        for c in ("patch", "imshow"):
            if tier == "thorough":
                firsts = [list(p) for p in itertools.product(OPS, repeat=2)]
                out += [dict(kind="ops", cls=c, first=f, more=depth - 2)
                        for f in firsts]
            else:
                out += [dict(kind="ops", cls=c, first=[o], more=depth - 1)
                        for o in OPS]
        out += [dict(kind="log", first=o) for o in ("a", "b", "neg", "int")]
        out += [dict(kind="masks", lo=lo) for lo in range(0, 64, 16)]
        out += [dict(kind="sizes"), dict(kind="partial"), dict(kind="line"), dict(kind="fit"),
                dict(kind="save")]
        return out

    def run(self, case, ctx):
        from matplotlib import pyplot as plt
        try:
            getattr(self, case["kind"])(case, ctx)
        finally:
            plt.close("all")
        ctx.trace()

    # ---- operations
    def make(self, cls):
        from CHECLabPy.plotting.camera import CameraImage, CameraImageImshow
        if cls == "patch":
            return CameraImage(COL * SIZE, ROW * SIZE, SIZE)
        return CameraImageImshow(ROW, COL, 3, 2)

    def shown(self, im):
        """the values on display, by pixel, as a masked array"""
        if hasattr(im, "pixels"):
            return np.ma.asarray(im.pixels.get_array())
        return np.ma.asarray(im.camera.get_array())[im.row, im.col]

    def mappable(self, im):
        return im.pixels if hasattr(im, "pixels") else im.camera

    def judge(self, im, model, what):
        want = model["image"]
        if want is None:
            expect(im.image is None, what + ": an image before any was set")
            return
        expect(np.array_equal(im.image, want, equal_nan=True), lambda:
               "%s: image is %s" % (what, im.image))
        got = self.shown(im)
        ok = np.isfinite(want)
        mask = np.ma.getmaskarray(got)
        expect(np.array_equal(~mask, ok), lambda: "%s: pixels masked: %s, "
               "values %s" % (what, mask, want))
        expect(np.array_equal(np.asarray(got)[ok], want[ok]), lambda:
               "%s: shown %s, expected %s" % (what, got, want))
        lo, hi = self.mappable(im).get_clim()
        wlo, whi = model["clim"]
        expect(lo == wlo and hi == whi, lambda: "%s: colour limits %s, "
               "expected %s" % (what, (lo, hi), model["clim"]))
        m = self.mappable(im)
        if model["bar"]:
            expect(im.colorbar is not None
                   and im.colorbar.mappable is m, what + ": colour bar")
            expect_close(im.colorbar.vmin, wlo, what + " colour bar min")
            expect_close(im.colorbar.vmax, whi, what + " colour bar max")
        if hasattr(im, "pixels"):
            face = im.pixels.get_facecolor()
            rgba = m.cmap(m.norm(np.ma.masked_invalid(want)))
            expect_close(face, rgba, what + " colours", 1e-6, 1e-6)
        texts = [t for t in im.ax.texts]
        expect(len(texts) == len(model["texts"]), lambda: "%s: %d texts, "
               "expected %d" % (what, len(texts), len(model["texts"])))
        for t, (p, v) in zip(texts, model["texts"]):
            xy = self.where(im, p)
            expect(t.get_text() == str(v), lambda: "%s: text %r, expected %r"
                   % (what, t.get_text(), v))
            expect_close(t.get_position(), xy, what + " text position")
        for h, want_lw, color in model["marks"]:
            self.mark(h, want_lw, color, what)

    def where(self, im, p):
        if hasattr(im, "pixels"):
            return (COL[p] * SIZE, ROW[p] * SIZE)
        return (COL[p], ROW[p])

    def mark(self, h, want_lw, color, what):
        from matplotlib.colors import to_rgba
        lw = np.broadcast_to(np.asarray(h.get_linewidth(), float), N)
        expect_close(lw, want_lw, what + " highlighted line widths")
        face = np.asarray(h.get_facecolor())
        expect(face.size == 0 or np.all(face[:, 3] == 0), lambda:
               "%s: highlighting is filled: %s" % (what, face))
        edge = np.asarray(h.get_edgecolor())
        expect(len(edge) >= 1, what + ": no edge colour")
        expect_close(edge[:, :3], np.tile(to_rgba(color)[:3],
                                          (len(edge), 1)),
                     what + " edge colour")

    def apply(self, im, model, op):
        if op in IMAGES:
            v = IMAGES[op]
            if op in ("b", "nan", "neg", "inf"):  # one array, filled again
                buf = model.setdefault("buffer", np.zeros(N))
                buf[...] = v
                im.image = buf
            else:
                im.image = v.copy()
            model["image"] = v
            if model["auto"]:
                self.auto(model)
        elif op in LIMITS:
            lim = LIMITS[op]
            im.set_limits_minmax(*lim)
            model["auto"] = False
            model["clim"] = lim
        elif op == "reset":
            im.reset_limits()
            model["auto"] = True
            if model["image"] is not None:
                self.auto(model)
        elif op == "highlight":
            k = len(model["marks"])
            if hasattr(im, "pixels"):
                color = ["g", "red"][k % 2]
                pix = [[1, 4], [0, 2, 5]][k % 2]
                h = im.highlight_pixels(pix, color=color, linewidth=1.5 + k,
                                        alpha=0.5)
                lw = np.zeros(N)
                lw[pix] = 1.5 + k
                model["marks"].append((h, lw, color))
        elif op == "text":
            if len(model["texts"]) % 2 == 0:
                im.add_text_to_pixel(3, "x%d" % len(model["texts"]))
                model["texts"].append((3, "x%d" % len(model["texts"])))
            else:
                v = np.array([10, 0, -30, 40, 50, 60])
                im.add_pixel_text(v)
                model["texts"] += [(p, v[p]) for p in range(N)]
        elif op == "bar":
            if not model["bar"]:
                if hasattr(im, "pixels"):
                    im.add_colorbar("mV", pad=0.05)
                else:
                    im.add_colorbar("mV")
                expect(im.colorbar.ax.get_ylabel() == "mV",
                       "label of the colour bar")
                model["bar"] = True

    def auto(self, model):
        v = model["image"]
        v = v[np.isfinite(v)]
        if model["log"]:
            v = v[v > 0]
        model["clim"] = (v.min(), v.max())

    def fresh(self):
        return dict(image=None, auto=True, clim=None, texts=[], marks=[],
                    bar=False, log=False)

    def ops(self, case, ctx):
        from matplotlib import pyplot as plt
        for rest in itertools.product(OPS, repeat=case["more"]):
            seq = case["first"] + list(rest)
            im = self.make(case["cls"])
            model = self.fresh()
            for i, op in enumerate(seq):
                self.apply(im, model, op)
                ctx.step()
                if hasattr(im, "pixels"):
                    im.ax.figure.canvas.draw()
                self.judge(im, model, "%s: %s" % (case["cls"], seq[:i + 1]))
            self.place(im, "%s: %s" % (case["cls"], seq))
            for size in (N - 1, N + 1, 0):
                try:
                    im.image = np.zeros(size)
                except AssertionError:
                    continue
                expect(False, "an image of %d values was accepted" % size)
            self.judge(im, model, "%s: %s after refused images" % (
                case["cls"], seq))
            plt.close(im.fig)
            ctx.ev()
            ctx.state((case["cls"], model["auto"], model["clim"],
                       len(model["texts"]), len(model["marks"]),
                       str(model["image"])))
            ctx.outcome((case["cls"], tuple(seq)))

    def place(self, im, what):
        """every pixel is drawn where the camera has it"""
        if hasattr(im, "pixels"):
            paths = im.pixels.get_paths()
            expect(len(paths) == N, what + ": number of pixels drawn")
            for p, path in enumerate(paths):
                e = path.get_extents()
                expect_close(((e.x0 + e.x1) / 2, (e.y0 + e.y1) / 2),
                             self.where(im, p), what + " centre", 1e-6, 1e-6)
                expect(SIZE * 0.99 <= e.width <= SIZE * 1.01
                       and SIZE * 0.99 <= e.height <= SIZE * 1.01,
                       what + ": size of a pixel")
        else:
            expect(im.camera.origin == "lower", what + ": rows upside down")
            expect_close(im.camera.get_extent(), (-0.5, 1.5, -0.5, 2.5),
                         what + " extent")

    def log(self, case, ctx):
        from matplotlib import pyplot as plt
        from matplotlib.colors import LogNorm
        for rest in itertools.product(
                ("a", "b", "neg", "int", "reset", "bar", "limits3"),
                repeat=2):
            im = self.make("patch")
            model = self.fresh()
            self.apply(im, model, case["first"])
            im.set_z_log()
            model["log"] = True
            self.auto(model)
            for i, op in enumerate((None,) + rest):
                if op:
                    self.apply(im, model, op)
                im.ax.figure.canvas.draw()
                expect(isinstance(im.pixels.norm, LogNorm),
                       "the scale is not logarithmic")
                self.judge(im, model, "log scale: %s" % (
                    (case["first"],) + rest[:i],))
                ctx.step()
            plt.close(im.fig)
            ctx.ev()
            ctx.outcome(("log", case["first"], rest))

    def masks(self, case, ctx):
        """every subset of pixels highlighted, in the ways of naming it"""
        for bits in range(case["lo"], case["lo"] + 16):
            mask = np.array([bool(bits >> i & 1) for i in range(N)])
            idx = np.flatnonzero(mask)
            im = self.make("patch")
            im.image = IMAGES["a"]
            forms = [mask, idx, [int(i) for i in idx[::-1]]]
            if len(idx) == 1:
                forms.append(int(idx[0]))
            for k, f in enumerate(forms):
                lw = np.where(mask, 2.0, 0.0)
                color = ("r", "b", "k", "g")[k]
                h = im.highlight_pixels(f, color=color, linewidth=2.0)
                im.image = IMAGES["b"]
                self.mark(h, lw, color, "highlight %s" % (f,))
                expect(h in im.ax.collections, "highlighting is not drawn")
                expect(h.get_alpha() == 0.75, "transparency")
                expect_close(np.asarray(im.pixels.get_linewidth()).max(), 0,
                             "line width of the pixels themselves")
                expect_close(im.pixels.get_facecolor(), im.pixels.cmap(
                    im.pixels.norm(IMAGES["b"])), "colours of the pixels")
                ctx.ev()
            from matplotlib import pyplot as plt
            plt.close(im.fig)
            ctx.state(bits)
            ctx.outcome(("mask", bits))

    def sizes(self, case, ctx):
        from CHECLabPy.plotting.camera import CameraImage, CameraImageImshow
        for f in (lambda: CameraImage(np.zeros(3), np.zeros(4), 1.0),
                  lambda: CameraImageImshow(np.zeros(3, int),
                                            np.zeros(4, int), 2, 2)):
            try:
                f()
            except AssertionError:
                continue
            expect(False, "coordinates of different length were accepted")
        for cls in ("patch", "imshow"):
            im = self.make(cls)
            try:
                im.add_pixel_text(np.arange(N - 1))
            except AssertionError:
                pass
            else:
                expect(False, "too few texts were accepted")
            im.annotate_on_telescope_up()   # no mapping: only says so
            im.annotate_tm_edge_label()
            expect(not im.ax.texts, "annotation without a mapping")
            ctx.ev()
        ctx.outcome("sizes")

    # ---- whole cameras
    def annotate(self, case, ctx):
        from CHECLabPy.plotting.camera import CameraImage, CameraImageImshow
        from target_calib import CameraConfiguration
        single = case["single"]
        m = red.mapping(64 if single else 2048)
        patch = case["cls"] == "patch"
        cls = CameraImage if patch else CameraImageImshow
        n = len(m)
        makers = [lambda: cls.from_mapping(m)]
        if single:
            tc = CameraConfiguration("1.1.0").GetMapping(True)
            makers += [lambda: cls.from_tc_mapping(tc),
                       lambda: cls.from_camera_version("1.1.0", True)]
        elif not patch:
            makers += [lambda: cls.from_camera_version("1.1.0")]
        val = noise(n, seed=5, lo=-500, hi=500) + np.arange(n) * 1e-3
        for make in makers:
            im = make()
            what = "%s, %d pixels" % (cls.__name__, n)
            expect(im.n_pixels == n, what + ": number of pixels")
            im.image = val
            expect(np.array_equal(np.asarray(self.shown(im)), val),
                   what + ": values shown")
            if patch:
                e = [p.get_extents() for p in im.pixels.get_paths()]
                expect_close([(a.x0 + a.x1) / 2 for a in e], m["xpix"].values,
                             what + " x", 1e-6, 1e-8)
                expect_close([(a.y0 + a.y1) / 2 for a in e], m["ypix"].values,
                             what + " y", 1e-6, 1e-8)
            else:
                arr = np.ma.asarray(im.camera.get_array())
                expect(arr.shape == (m.metadata["n_rows"],
                                     m.metadata["n_columns"]),
                       what + ": shape of the image")
                want = np.ones(arr.shape, bool)
                want[m["row"].values, m["col"].values] = False
                expect(np.array_equal(np.ma.getmaskarray(arr), want),
                       what + ": cells without a pixel are masked")
            lo, hi = self.mappable(im).get_clim()
            expect(lo == val.min() and hi == val.max(), what + ": limits")
            im.annotate_on_telescope_up()
            md = m.metadata
            t = im.ax.texts[-1]
            expect("UP" in t.get_text(), what + ": telescope label")
            expect_close(t.get_position(), (
                (md["fOTUpX_l"], md["fOTUpY_l"]) if patch else
                (md["fOTUpCol_l"], md["fOTUpRow_l"])), what + " UP position")
            arrow = im.ax.patches[-1].get_xy()
            d = ((md["fOTUpX_u"] - md["fOTUpX_l"],
                  md["fOTUpY_u"] - md["fOTUpY_l"]) if patch else
                 (md["fOTUpCol_u"] - md["fOTUpCol_l"],
                  md["fOTUpRow_u"] - md["fOTUpRow_l"]))
            tip = arrow[np.argmax(arrow @ np.array(d))]
            base = np.array(t.get_position())
            v = tip - base
            cos = v @ np.array(d) / np.hypot(*v) / np.hypot(*d)
            expect(cos > 0.999, lambda: what + ": the arrow points along %s, "
                   "expected %s" % (v, d))
            n0 = len(im.ax.texts)
            im.annotate_tm_edge_label()
            self.edge(im, m, im.ax.texts[n0:], patch, what)
            if patch:
                n0, p0 = len(im.ax.texts), len(im.ax.patches)
                im.annotate_led_flasher()
                lx = md["fOTUpX_l"]
                ly = md["fOTUpY_l"] + 2 * md["size"]
                want = [(lx, ly), (-lx, ly), (lx, -ly), (-lx, -ly)]
                texts, pat = im.ax.texts[n0:], im.ax.patches[p0:]
                expect(len(texts) == len(pat) == 4, what + ": flashers")
                for i, w in enumerate(want):
                    expect(texts[i].get_text() == str(i), what + ": flasher "
                           "label %r" % texts[i].get_text())
                    expect_close(texts[i].get_position(), w, what + " LED")
                    expect_close(pat[i].center, w, what + " LED circle")
            ctx.ev()
        ctx.outcome((case["cls"], single))

    def partial(self, case, ctx):
        """some of the pixels of a camera keep their places"""
        from CHECLabPy.plotting.camera import CameraImage, CameraImageImshow
        from CHECLabPy.utils.mapping import get_superpixel_mapping
        full = red.mapping(2048)
        for m in (full, get_superpixel_mapping(full)):
            n = len(m)
            i = np.arange(n)
            for keep in (i < n // 2, i >= n // 4, i % 7 == 3, i == n - 1,
                         i == 0, m["row"].values < 5, m["col"].values > 8):
                part = m[keep].copy()
                part.metadata = m.metadata
                val = noise(len(part), seed=6, lo=-9, hi=9)
                im = CameraImageImshow.from_mapping(part)
                im.image = val
                arr = np.ma.asarray(im.camera.get_array())
                md = m.metadata
                expect(arr.shape == (md["n_rows"], md["n_columns"]), lambda:
                       "shape %s of an image of some pixels" % (arr.shape,))
                arr = arr[part["row"].values, part["col"].values]
                expect(np.array_equal(arr.filled(np.nan), val),
                       "image of some pixels")
                im = CameraImage.from_mapping(part)
                im.image = val
                e = [p.get_extents() for p in im.pixels.get_paths()]
                expect_close([(a.x0 + a.x1) / 2 for a in e],
                             part["xpix"].values, "x of some pixels", 1e-6,
                             1e-8)
                expect_close([(a.y0 + a.y1) / 2 for a in e],
                             part["ypix"].values, "y of some pixels", 1e-6,
                             1e-8)
                expect(np.array_equal(np.asarray(self.shown(im)), val),
                       "values of some pixels")
                ctx.ev()
                ctx.outcome((n, len(part)))

    def edge(self, im, m, texts, patch, what):
        """modules at the top and bottom of the camera, at their outer edge"""
        want = set()
        row, col, slot = m["row"].values, m["col"].values, m["slot"].values
        x = m["xpix"].values if patch else col
        y = m["ypix"].values if patch else row
        size = m.metadata["size"] if patch else 1.0
        tops, bots = set(), set()
        for c in set(col):
            s = col == c
            tops.add(int(slot[s][row[s].argmax()]))
            bots.add(int(slot[s][row[s].argmin()]))
        want = {(t, "bottom") for t in tops} | {(t, "top") for t in bots}
        got = [(int(t.get_text()[2:]), t.get_va()) for t in texts]
        expect(len(got) == len(set(got)) and set(got) == want, lambda:
               "%s: labels %s, expected %s" % (what, sorted(got),
                                               sorted(want)))
        for t in texts:
            tm = int(t.get_text()[2:])
            expect(t.get_text() == "TM%02d" % tm, what + ": label text")
            s = slot == tm
            px, py = t.get_position()
            expect_close(px, x[s].mean(), what + " label x", 1e-6, 1e-6)
            if t.get_va() == "bottom":
                d = py - y[s].max()
            else:
                d = y[s].min() - py
            expect(0.3 * size < d < 3 * size, lambda: "%s: label of TM%d is "
                   "%s outside of its pixels" % (what, tm, d))

    def coarse(self, case, ctx):
        from CHECLabPy.plotting.camera import CameraImage, CameraImageImshow
        from CHECLabPy.utils.mapping import get_superpixel_mapping, \
            get_tm_mapping
        patch = case["cls"] == "patch"
        cls = CameraImage if patch else CameraImageImshow
        for n_pix in (64, 2048):
            m = red.mapping(n_pix)
            for name, f in (("superpixel", get_superpixel_mapping),
                            ("slot", get_tm_mapping)):
                d = f(m)
                im = cls.from_mapping(d)
                val = np.arange(len(d)) * 1.5 - 7
                im.image = val
                expect(np.array_equal(np.asarray(self.shown(im)), val),
                       "%s values" % name)
                if patch:
                    # the centre of a group is drawn over its pixels
                    ext = [p.get_extents() for p in im.pixels.get_paths()]
                    for i, g in enumerate(d[name]):
                        s = m[name].values == g
                        e = ext[i]
                        for v, a, b in (("xpix", e.x0, e.x1),
                                        ("ypix", e.y0, e.y1)):
                            q = m[v].values[s]
                            expect(a <= q.min() and q.max() <= b, lambda:
                                   "%s %s is not drawn over its pixels" % (
                                       name, g))
                else:
                    arr = np.ma.asarray(im.camera.get_array())
                    expect(arr.shape == (d.metadata["n_rows"],
                                         d.metadata["n_columns"]), "shape")
                    expect((~np.ma.getmaskarray(arr)).sum() == len(d),
                           "%s: %d cells are shown for %d" % (
                               name, (~np.ma.getmaskarray(arr)).sum(),
                               len(d)))
                ctx.ev()
        ctx.outcome(case["cls"])

    def tm(self, case, ctx):
        """waveforms on a grid of modules"""
        from CHECLabPy.plotting.waveform import CameraTMWaveformPlotter
        from CHECLabPy.utils.mapping import get_tm_mapping
        ns = case["n_samples"]
        n = 64 if case["single"] else 2048
        m = red.mapping(n)
        tmm = get_tm_mapping(m)
        wf = noise((n, ns), seed=9, lo=-20, hi=60)
        wf[::37] *= 0.25
        wf = np.rint(wf)
        # the mean of the camera peaks at 64, some pixels at half of that
        low = np.isin(np.arange(n) % 5, (1, 2, 4))
        wf[low] = np.minimum(wf[low], 8.)
        wf[1::5, 7] = 32.
        more = np.flatnonzero(~low)
        left = int(n * 64 - wf[:, 5].sum())
        wf[more, 5] += left // len(more)
        wf[more[:left % len(more)], 5] += 1
        assert wf.mean(0).max() == 64
        p = CameraTMWaveformPlotter(m, "a title")
        expect(set(p.ax_dict) == set(tmm["slot"]), "one axes per module")
        p.plot_waveforms(wf, 0.5)
        thresh = wf.mean(0).max() * 0.5
        for _, r in tmm.iterrows():
            tm = int(r["slot"])
            ax = p.ax_dict[tm]
            ss = ax.get_subplotspec()
            nr = tmm.metadata["n_rows"]
            expect(ss.rowspan.start == nr - 1 - int(r["row"])
                   and ss.colspan.start == int(r["col"]), lambda:
                   "module %d is drawn in row %s, column %s" % (
                       tm, ss.rowspan.start, ss.colspan.start))
            texts = [t.get_text() for t in ax.texts]
            expect(texts[0] == str(tm), "module label %r" % texts[0])
            lines = [l for l in ax.lines if len(l.get_ydata()) == ns]
            for i in range(64):
                expect(np.array_equal(lines[i].get_ydata(), wf[tm * 64 + i]),
                       "waveform %d of module %d" % (i, tm))
                expect(lines[i].get_color() == p.asic_color[i // 16],
                       "colour of the ASIC of pixel %d" % i)
            expect_close(lines[64].get_ydata(), wf.mean(0), "camera mean",
                         1e-9, 1e-9)
            expect_close(lines[65].get_ydata(),
                         wf[tm * 64:tm * 64 + 64].mean(0), "module mean",
                         1e-9, 1e-9)
            low = ["[%d|%d]" % (i, tm * 64 + i) for i in range(64)
                   if wf[tm * 64 + i].max() < thresh]
            expect(texts[1].split() == low, lambda: "low pixels of module %d:"
                   " %s, expected %s" % (tm, texts[1].split(), low))
            # the ticks set afterwards may extend the axis on the right
            lo, hi = ax.get_xlim()
            expect(lo == 0 and ns <= hi <= ns + 32, "x limits %s" % ((lo, hi),))
            bot, top = ax.get_ylim()
            expect(wf.min() - 30 <= bot <= wf.min()
                   and wf.max() <= top <= wf.max() + 30,
                   "y limits %s" % ((bot, top),))
            ctx.ev()
        ctx.outcome((ns, n))
        if n == 64:
            return
        # some of the modules keep their places
        for slots in ([0, 31], [5], list(range(0, 32, 3)), [30, 2, 17]):
            part = m[m["slot"].isin(slots)].copy()
            part.metadata = m.metadata
            p = CameraTMWaveformPlotter(part, "some modules")
            expect(set(p.ax_dict) == set(slots), "axes of some modules")
            tmm = get_tm_mapping(part)
            for _, r in tmm.iterrows():
                ss = p.ax_dict[int(r["slot"])].get_subplotspec()
                expect(ss.rowspan.start == tmm.metadata["n_rows"] - 1
                       - int(r["row"]) and ss.colspan.start == int(r["col"]),
                       lambda: "of modules %s, %d is drawn in row %s, column "
                       "%s" % (slots, r["slot"], ss.rowspan.start,
                               ss.colspan.start))
            ctx.ev()

    def pixel(self, case, ctx):
        """waveforms on a grid of pixels; highlighting and its reset"""
        from CHECLabPy.plotting.waveform import CameraPixelWaveformPlotter
        from matplotlib.colors import to_rgba
        from matplotlib import cm
        n = case["n"]
        m = red.mapping(n)
        p = CameraPixelWaveformPlotter(m)
        wf = noise((n, 24), seed=4, lo=-20, hi=90)
        row, col, slot = (m[c].values for c in ("row", "col", "slot"))
        at = {(r, c): s for r, c, s in zip(row, col, slot)}

        def spines():
            return {(k, s): (v.get_visible(), tuple(to_rgba(
                v.get_edgecolor())), v.get_linewidth())
                for k, ax in p.ax_dict.items()
                for s, v in ax.spines.items()}
        start = spines()
        expect(set(p.ax_dict) == set(range(n)), "one axes per pixel")
        if n > 64:  # the outlines drawn are those of the modules
            for (k, s), v in start.items():
                dr, dc = dict(left=(0, -1), right=(0, 1), top=(1, 0),
                              bottom=(-1, 0))[s]
                edge = at.get((row[k] + dr, col[k] + dc)) != slot[k]
                expect(v[0] == edge, "%s outline of pixel %d" % (s, k))
        p.plot_waveforms(wf)
        top = wf.max(1)
        faces = cm.viridis((top - top.min()) / (top.max() - top.min()))
        for k, ax in p.ax_dict.items():
            expect_close(ax.get_facecolor(), faces[k],
                         "colour of pixel %d" % k, 0, 0.02)
            ss = ax.get_subplotspec()
            expect(ss.rowspan.start == row.max() - int(row[k])
                   and ss.colspan.start == int(col[k]),
                   "place of pixel %d" % k)
            lines = [l for l in ax.lines if len(l.get_ydata()) == 24]
            expect(np.array_equal(lines[0].get_ydata(), wf[k]),
                   "waveform of pixel %d" % k)
            expect_close(lines[1].get_ydata(), wf.mean(0), "mean waveform")
            expect_close(ax.get_ylim(), (wf.min(), wf.max()), "y limits")
            expect(ax.get_xlim() == (0, 24), "x limits")
            expect([t.get_text() for t in ax.texts] == ["%d\n%d,%d" % (
                k, k // 64, k % 64)], lambda: "label of pixel %d: %s" % (
                    k, [t.get_text() for t in ax.texts]))
            ctx.ev()
        i = np.arange(n)
        for mask in (i % 3 == 0, i == n - 1, i < 0, i >= 0):
            p.highlight_pixels(mask, "red")
            now = spines()
            for (k, s), v in now.items():
                if mask[k]:
                    expect(v == (True, tuple(to_rgba("red")), 1), lambda:
                           "pixel %d is not highlighted: %s" % (k, v))
                else:
                    expect(v == start[k, s], lambda:
                           "outline of pixel %d changed: %s" % (k, v))
            if mask.any() and not mask.all():  # and others, without a reset
                p.highlight_pixels(i % 4 == 1, "blue")
                for (k, s), v in spines().items():
                    want = start[k, s]
                    if k % 4 == 1 or mask[k]:
                        want = (True, tuple(to_rgba(
                            "blue" if k % 4 == 1 else "red")), 1)
                    expect(v == want, lambda: "pixel %d after a second "
                           "highlight: %s" % (k, v))
            p.reset_pixel_highlight()
            expect(spines() == start, "the outlines are not as before")
            ctx.step(2)
            ctx.outcome((n, tuple(mask)))

    def line(self, case, ctx):
        from CHECLabPy.plotting.waveform import WaveformPlotter
        from matplotlib import pyplot as plt
        for own, units, tunits in itertools.product(
                (True, False), ("mV", ""), ("ns", "")):
            ax = None
            if not own:
                fig, ax = plt.subplots()
            p = WaveformPlotter("T", units, tunits, ax=ax)
            if not own:
                expect(p.ax is ax and p.fig is ax.figure, "axes given")
            x, y = np.arange(5) * 2.0, np.array([1., 5., 2., 0., 3.])
            p.add(None, y, "first")
            p.add(x, y * 2, "second")
            p.add(x[::-1] - 3, y, "third")
            p.add(np.array([4., 0., 2., 2., -7.]), y, "fourth")
            p.finish()
            for i, w in ((2, x[::-1] - 3), (3, [4, 0, 2, 2, -7])):
                expect(np.array_equal(p.ax.lines[i].get_xdata(), w)
                       and np.array_equal(p.ax.lines[i].get_ydata(), y),
                       "waveform with x in another order")
            expect(np.array_equal(p.ax.lines[0].get_ydata(), y)
                   and np.array_equal(p.ax.lines[0].get_xdata(),
                                      np.arange(5)), "waveform without x")
            expect(np.array_equal(p.ax.lines[1].get_ydata(), y * 2)
                   and np.array_equal(p.ax.lines[1].get_xdata(), x),
                   "waveform with x")
            expect([l.get_label() for l in p.ax.lines]
                   == ["first", "second", "third", "fourth"], "labels")
            expect(p.ax.get_title() == "T", "title")
            expect(("(ns)" in p.ax.get_xlabel()) == bool(tunits)
                   and ("(mV)" in p.ax.get_ylabel()) == bool(units),
                   "units on the axes")
            ctx.ev()
            ctx.outcome((own, units, tunits))

    def fit(self, case, ctx):
        from CHECLabPy.plotting.spe import SpectrumFitPlotter
        from matplotlib import pyplot as plt
        for n in (1, 2, 3):
            before = set(plt.get_fignums())
            p = SpectrumFitPlotter(n)
            expect(len(set(plt.get_fignums()) - before) == 1,
                   "one figure is left open")
            edges = np.linspace(-1, 3, 9)
            hx = (edges[1:] + edges[:-1]) / 2
            hy = [np.arange(8) + 1.0 + i for i in range(n)]
            fx = np.linspace(-1, 3, 30)
            fy = [np.sin(fx) + 2 + i for i in range(n)]
            names = ["eped", "spe"] + ["lambda_%d" % i for i in range(n)]
            values = {k: 1.25 + i for i, k in enumerate(names)}
            errors = {k: 0.125 + i for i, k in enumerate(names)}
            initial = {k: 0.5 + i for i, k in enumerate(names)}
            p.plot(hx, hy, edges, fx, fy, values, errors, initial)
            p.finish()
            expect(len(p.ax.lines) == n and len(p.ax.patches) == n,
                   "one histogram and one curve per illumination")
            colors = set()
            for i in range(n):
                l, h = p.ax.lines[i], p.ax.patches[i]
                expect(np.array_equal(l.get_ydata(), fy[i])
                       and np.array_equal(l.get_xdata(), fx), "curve")
                expect_close(sorted(set(h.get_xy()[:, 1]) - {0.0}),
                             sorted(set(hy[i])), "histogram")
                expect_close(sorted(set(h.get_xy()[:, 0])), edges,
                             "edges of the histogram", 1e-9, 1e-9)
                k = "lambda_%d" % i
                for w in ("%.3f" % values[k], "%.3f" % errors[k]):
                    expect(w in l.get_label(), "legend %r lacks %s" % (
                        l.get_label(), w))
                from matplotlib.colors import to_hex
                expect(to_hex(l.get_color()) == to_hex(h.get_edgecolor()),
                       "curve and histogram have different colours")
                colors.add(to_hex(l.get_color()))
            expect(len(colors) == n, "illuminations share a colour")
            cells = p.ax_t.tables[0].get_celld()
            got = {}
            for (r, c), cell in cells.items():
                got.setdefault(r, {})[c] = cell.get_text().get_text()
            for r, k in enumerate(names):
                row = got[r + 1]
                expect(row[-1] == k, "row %d of the table is %r" % (r, row))
                expect(float(row[0]) == initial[k]
                       and "%.3f" % values[k] in row[1]
                       and "%.3f" % errors[k] in row[1],
                       lambda: "row of %s: %s" % (k, row))
            ctx.ev()
            ctx.outcome(n)

    def save(self, case, ctx):
        from CHECLabPy.plotting.setup import Plotter
        from CHECLabPy.plotting.waveform import WaveformPlotter
        from matplotlib import pyplot as plt
        for make, ext, sub in itertools.product(
                (lambda: self.make("patch"), lambda: self.make("imshow"),
                 Plotter, lambda: Plotter(sidebyside=True),
                 lambda: WaveformPlotter("T")),
                ("png", "pdf"), ("", "new/deeper")):
            path = os.path.join(os.path.dirname(ctx.path()), sub,
                                "plot." + ext)
            p = make()
            num = p.fig.number
            other = Plotter()
            p.save(path)
            expect(plt.fignum_exists(other.fig.number),
                   "another figure was closed")
            expect(os.path.getsize(path) > 0, "nothing was saved")
            expect(not plt.fignum_exists(num), "the figure stays open")
            if isinstance(p, WaveformPlotter):
                expect(p.ax.get_title() == "T", "finish was not called")
            p = make()
            p.save(path)   # overwriting is fine
            ctx.ev()
        # relative path without directory
        here = os.getcwd()
        d = os.path.dirname(ctx.path())
        os.chdir(d)
        try:
            Plotter().save("x.png")
            expect(os.path.exists(os.path.join(d, "x.png")), "x.png")
        finally:
            os.chdir(here)
        ctx.outcome("save")


CHECK = C28()
