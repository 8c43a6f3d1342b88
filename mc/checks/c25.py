"""Charge resolution and statistics: batches, memory, order do not matter."""
import itertools
import numpy as np
import pandas as pd
from mc.engine import Check
from mc.util import Env, expect, expect_close, lcg

ENTRIES = [  # pixel, true, measured
    (0, 2.0, 2.5), (1, 2.0, 1.0), (0, 2.0, 3.25), (3, 0.0, 0.5),
    (0, 7.5, 7.0), (1, 7.5, 9.0), (1, 2.0, 4.0), (0, 0.0, -1.0)]


class Memory:
    """says how much memory a contribution occupies"""
    heavy = False

    def __enter__(self):
        real = pd.DataFrame.memory_usage
        outer = self

        def memory_usage(df, *a, **k):
            v = real(df, *a, **k)
            if outer.heavy and len(v):
                v = v.copy()
                v.iloc[-1] = 2e9
            return v
        self.env = Env((pd.DataFrame, "memory_usage", memory_usage))
        self.env.__enter__()
        return self

    def __exit__(self, *e):
        self.env.__exit__()


def resolution(entries, mc):
    def stat(sel):
        d2 = [(m - t) ** 2 for _, t, m in sel]
        t = sel[0][1]
        n, s = len(sel), sum(d2)
        a = np.sqrt(s / n + t) if mc else np.sqrt(s / n)
        return dict(sum=s, n=n, charge_resolution=a / abs(t),
                    charge_resolution_abs=a)
    pix, cam = {}, {}
    for e in entries:
        if e[1] != 0:
            pix.setdefault((e[0], e[1]), []).append(e)
            cam.setdefault((e[1],), []).append(e)
    return ({k: stat(v) for k, v in pix.items()},
            {k: stat(v) for k, v in cam.items()})


def statistics(entries, _):
    def stat(sel):
        c = np.array([m for _, _, m in sel], dtype=float)
        return {"sum": c.sum(), "sum2": (c ** 2).sum(), "n": len(c),
                "mean": c.mean(), "std": c.std()}
    pix, cam = {}, {}
    for e in entries:
        pix.setdefault((e[0], e[1]), []).append(e)
        cam.setdefault((e[1],), []).append(e)
    return ({k: stat(v) for k, v in pix.items()},
            {k: stat(v) for k, v in cam.items()})


def new(which, mc):
    import CHECLabPy.utils.resolutions as r
    if which == "resolution":
        return r.ChargeResolution(mc), resolution, "true"
    if which == "intensity":
        return r.IntensityResolution(mc), resolution, "true"
    if which == "istat":
        return r.IntensityStatistics(), statistics, "amplitude"
    return r.ChargeStatistics(), statistics, "amplitude"


class C25(Check):
    id = "C25"
    level = "model_checking"
    rule = "distinct (entries, batches, reductions, finish calls)"
    assumptions = ("true charges of simulations are not negative",
                   "at least one contribution before finish")
    bounds = {
        "quick": "8 entries: every way of cutting 6 of them into batches x "
                 "every pattern of memory reductions, every order of 5, "
                 "finish in between at every position; 300000 entries in 30 "
                 "batches; true charges close together, equal and large charges "
                 "of five types; the plotted points of every pixel",
        "thorough": "every cut of 8 entries, every order of 7"}

    def setup(self):
        import CHECLabPy.utils.resolutions  # noqa: F401

    def cases(self, tier):
        t = tier == "thorough"
        out = []
        whats = [("resolution", True), ("resolution", False), ("stat", None)]
        n = 8 if t else 6
        for w, mc in whats:
            for cut in range(2 ** (n - 1)):
                out.append(dict(kind="batches", what=w, mc=mc, n=n, cut=cut))
            k = 7 if t else 5
            for first in range(k):
                out.append(dict(kind="orders", what=w, mc=mc, k=k,
                                first=first))
            out.append(dict(kind="finish", what=w, mc=mc))
            out.append(dict(kind="dtypes", what=w, mc=mc))
            out.append(dict(kind="fine", what=w, mc=mc))
        out.append(dict(kind="finish", what="intensity", mc=True))
        out.append(dict(kind="finish", what="istat", mc=None))
        for w, mc in whats:
            out.append(dict(kind="large", what=w, mc=mc))
        out += [dict(kind="curves"), dict(kind="plots"), dict(kind="means")]
        return out

    def run(self, case, ctx):
        getattr(self, case["kind"])(case, ctx)
        ctx.trace()

    def compare(self, obj, entries, model, col, mc, what, ctx, tol=1e-9):
        df_p, df_c = obj.finish()
        want_p, want_c = model(entries, mc)
        for df, want, keys in ((df_p, want_p, ["pixel", col]),
                               (df_c, want_c, [col])):
            got = {}
            cols = list(df.columns)
            for r in df.to_dict("records"):
                k = tuple(r[c] for c in keys)
                expect(k not in got, lambda: "%s: two rows for %s" % (
                    what, k))
                got[k] = r
            expect(set(got) == set(want), lambda: "%s: rows for %s, expected "
                   "%s" % (what, sorted(got), sorted(want)))
            if "pixel" not in keys:
                expect("pixel" not in cols, "%s: pixel in the camera" % what)
            for k, w in want.items():
                for c, v in w.items():
                    atol = tol
                    if c == "std":  # a difference of squares
                        atol = 1e-6 * (1 + abs(w["mean"]))
                    g = got[k][c]
                    expect(abs(g - v) <= tol * abs(v) + atol, lambda:
                           "%s: %s of %s is %r, expected %r" % (
                               what, c, k, g, v))
        ctx.ev()

    def add(self, obj, part):
        p, t, m = (np.array(x) for x in zip(*part))
        keep = p.copy(), t.copy(), m.copy()
        obj.add(p, t, m)
        for a, b in zip((p, t, m), keep):
            expect((a == b).all(), "the arguments were changed")
            a[:] = 99  # reused by the caller
        return obj

    def batches(self, case, ctx):
        n, cut = case["n"], case["cut"]
        entries = ENTRIES[:n]
        parts, cur = [], []
        for i, e in enumerate(entries):
            cur.append(e)
            if i == n - 1 or cut >> i & 1:
                parts.append(cur)
                cur = []
        patterns = range(2 ** len(parts))
        if len(parts) > 5:
            patterns = [0, 2 ** len(parts) - 1] + [
                1 << i for i in range(len(parts))]
        for pat in patterns:
            with Memory() as mem:
                obj, model, col = new(case["what"], case["mc"])
                for i, part in enumerate(parts):
                    mem.heavy = bool(pat >> i & 1)
                    self.add(obj, part)
                    ctx.step()
                    ctx.state((case["what"], case["mc"], cut, pat, i))
                mem.heavy = False
                self.compare(obj, entries, model, col, case["mc"],
                             "batches %s, reduced %s" % (
                                 [len(p) for p in parts], bin(pat)), ctx)
            ctx.outcome((case["what"], case["mc"], cut, pat))

    def orders(self, case, ctx):
        k = case["k"]
        for rest in itertools.permutations(
                [i for i in range(k) if i != case["first"]]):
            order = (case["first"],) + rest
            e = [ENTRIES[i] for i in order]
            for size in (1, 2):
                with Memory() as mem:
                    obj, model, col = new(case["what"], case["mc"])
                    for i in range(0, k, size):
                        mem.heavy = i == 2
                        self.add(obj, e[i:i + size])
                    mem.heavy = False
                    self.compare(obj, e, model, col, case["mc"],
                                 "order %s" % (order,), ctx)
                ctx.step()
            ctx.state((case["what"], case["mc"], order))
            ctx.outcome((case["what"], case["mc"], order))

    def finish(self, case, ctx):
        """finish, contribute more, finish again"""
        for bits in itertools.product((0, 1, 2), repeat=5):
            if sum(bits) == 0:
                continue
            with Memory() as mem:
                obj, model, col = new(case["what"], case["mc"])
                done = []
                for i, b in enumerate(bits):
                    mem.heavy = i == 3
                    self.add(obj, ENTRIES[i:i + 1])
                    done.append(ENTRIES[i])
                    mem.heavy = False
                    for j in range(b):
                        self.compare(obj, done, model, col, case["mc"],
                                     "finish calls %s" % (bits,), ctx)
                    ctx.step()
                    ctx.state((case["what"], case["mc"], bits[:i + 1]))
                # a second object is independent
                other, _, _ = new(case["what"], case["mc"])
                self.add(other, ENTRIES[5:8])
                self.compare(other, ENTRIES[5:8], model, col, case["mc"],
                             "another object", ctx)
                self.compare(obj, done, model, col, case["mc"],
                             "finish again", ctx)
            ctx.outcome((case["what"], bits))

    def dtypes(self, case, ctx):
        """columns as they come from DL1 files"""
        n_pix, n_ev = 16, 6
        pixel = np.tile(np.arange(n_pix, dtype=np.uint32), n_ev)
        true = (lcg(n_pix * n_ev, 3, 0, 4)).astype(np.uint32)
        meas = (lcg(n_pix * n_ev, 5, 0, 30) * 0.25).astype(np.float32)
        for td in (np.uint32, np.int64, np.float32, np.float64):
            for md in (np.float32, np.float64):
                obj, model, col = new(case["what"], case["mc"])
                for i in range(0, len(pixel), 2 * n_pix):
                    s = slice(i, i + 2 * n_pix)
                    obj.add(pixel[s], true[s].astype(td), meas[s].astype(md))
                e = [(int(p), float(t), float(m)) for p, t, m in
                     zip(pixel, true, meas)]
                self.compare(obj, e, model, col, case["mc"], "types %s %s" % (
                    td.__name__, md.__name__), ctx, 1e-5)
                ctx.outcome((case["what"], str(td), str(md)))
        # series of a table
        df = pd.DataFrame(dict(pixel=pixel, true=true.astype(float),
                               charge=meas.astype(float)), index=range(
                                   7, 7 + len(pixel)))
        obj, model, col = new(case["what"], case["mc"])
        obj.add(df["pixel"], df["true"], df["charge"])
        self.compare(obj, list(zip(df.pixel, df.true, df.charge)), model,
                     col, case["mc"], "columns of a table", ctx)

    def fine(self, case, ctx):
        """true charges close together, large and equal charges"""
        stat = case["what"] == "stat"
        trues = [1e-5, 2e-5, 0.123451, 0.123452, 2.0, 2.000001, 1000.0,
                 1000.001, 54321.5]
        if not case["mc"]:
            trues += [-1.5, -2.5]
        e = [(p, t, 1000.5 + 0.25 * ((7 * i + p) % 5)) for i, t in
             enumerate(trues) for p in (0, 5) for i in range(3)]
        # equal charges, also those that are no binary fractions
        e += [(9, float(t), 0.1 * t) for t in range(1, 60)
              for i in range(1 + t % 7)]
        for size in (1, 4, len(e)):
            obj, model, col = new(case["what"], case["mc"])
            for i in range(0, len(e), size):
                self.add(obj, e[i:i + size])
                ctx.step()
            self.compare(obj, e, model, col, case["mc"],
                         "batches of %d" % size, ctx)
            ctx.outcome((case["what"], case["mc"], "fine", size))
        # many contributions waiting after an earlier reduction
        obj, model, col = new(case["what"], case["mc"])
        with Memory() as mem:
            for i, x in enumerate(e):
                mem.heavy = i in (30, 31)
                self.add(obj, [x])
                ctx.step()
            mem.heavy = False
            self.compare(obj, e, model, col, case["mc"],
                         "%d contributions, reduced after 30" % len(e), ctx)
        for dt in (np.int16, np.uint16, np.int32, np.uint32):
            p = np.arange(60) % 3
            m = (np.arange(60) * 7919 % 30011).astype(dt)
            t = (1 + (np.arange(60) // 3 * 5) % 7 * 4000).astype(dt)
            obj, model, col = new(case["what"], case["mc"])
            for i in range(0, 60, 20):
                obj.add(p[i:i + 20], t[i:i + 20], m[i:i + 20])
            self.compare(obj, [(int(a), float(b), float(c)) for a, b, c in
                               zip(p, t, m)], model, col, case["mc"],
                         "true and measured of %s" % dt.__name__, ctx)
        for dt in (np.float32, np.float64, np.int16, np.uint16, np.int32):
            for base, d in ((300, 1), (1000, 1), (5000, 3)):
                m = (base + d * ((np.arange(400) * 7) % 5 - 2)).astype(dt)
                p, t = np.arange(400) % 2, np.arange(400) // 2 % 2 * 2.0 + 5
                obj, model, col = new(case["what"], case["mc"])
                for i in range(0, 400, 40):
                    s = slice(i, i + 40)
                    obj.add(p[s], t[s], m[s])
                e = list(zip(p.tolist(), t.tolist(), m.astype(float)))
                self.compare(obj, e, model, col, case["mc"], "charges of "
                             "%s about %d" % (dt.__name__, base), ctx)
                if stat:
                    sd = obj.finish()[0]["std"].values
                    expect_close(sd, np.full(len(sd), d * 2 ** 0.5),
                                 "std of %s" % dt.__name__, 1e-5)
                ctx.outcome((case["what"], case["mc"], str(dt), base))

    def large(self, case, ctx):
        n = 10000
        obj, model, col = new(case["what"], case["mc"])
        frames = []
        with Memory() as mem:
            for b in range(30):
                p = np.arange(n) % 32
                t = ((np.arange(n) * 7 + b) % 11).astype(float)
                m = t + ((np.arange(n) * 13 + b * 5) % 17 - 8) * 0.25
                mem.heavy = b in (3, 4, 20)
                obj.add(p, t, m)
                frames.append((p, t, m))
            mem.heavy = False
            p, t, m = (np.concatenate(x) for x in zip(*frames))
            df_p, df_c = obj.finish()
            if model is resolution:
                keep = t != 0
                p, t, m = p[keep], t[keep], m[keep]
            for df, key in ((df_p, ["pixel", col]), (df_c, [col])):
                expect(df["n"].sum() == len(p), lambda: "n is %s in total" %
                       df["n"].sum())
                for r in df.to_dict("records")[::7]:
                    sel = t == r[col]
                    if len(key) == 2:
                        sel &= p == r["pixel"]
                    s = ((m - t)[sel] ** 2).sum() if model is resolution \
                        else m[sel].sum()
                    expect(r["n"] == sel.sum() and abs(r["sum"] - s)
                           <= 1e-9 * abs(s) + 1e-9, lambda: "row %s" % r)
                    ctx.ev()
        ctx.step(30)
        ctx.state(repr(case))
        ctx.outcome(repr(case))

    def curves(self, case, ctx):
        from CHECLabPy.plotting.resolutions import ChargeResolutionPlotter as P
        x = np.array([0.5, 1, 2, 10, 100, 999, 1000, 1001, 1999, 2000, 2001,
                      5000], dtype=float)
        keep = x.copy()
        lim = [(P.requirement, np.sqrt(7.0), 1.2, 0.1, 1000),
               (P.goal, 2, 1.1152, 0.05, 2000)]
        for f, nsb, enf, sig, end in lim:
            got = f(x)
            for g, v in zip(got, x):
                w = np.sqrt(nsb + enf ** 2 * v + (sig * v) ** 2) / v
                if v > end:
                    w = np.nan
                expect_close(g, w, "%s at %s" % (f.__name__, v))
                ctx.ev()
                ctx.outcome((f.__name__, v))
        expect_close(P.poisson(x), 1 / np.sqrt(x), "poisson")
        expect((x == keep).all(), "argument changed")
        ints = np.array([1, 4, 1000, 3000])
        expect_close(P.requirement(ints), P.requirement(ints.astype(float)),
                     "integers")

    def bins(self, x, y):
        """points in logarithmic bins"""
        e = np.geomspace(0.1, x.max(), 100)
        k = np.clip(np.searchsorted(e, x, "right") - 1, -1, 98)
        out = []
        for b in range(99):
            s = k == b
            if s.any():
                out.append((x[s].mean(), s.sum() if y is None
                            else y[s].mean()))
        return np.array(out).reshape((-1, 2))

    def drawn(self, plotter):
        out = []
        for c in plotter.ax.containers:
            out.append(np.array(c[0].get_xydata(), dtype=float))
        return out

    def error_bars(self, plotter):
        """half lengths of the bars of the last points drawn"""
        seg = np.array(plotter.ax.containers[-1][2][0].get_segments())
        return (seg[:, 1, 1] - seg[:, 0, 1]) / 2

    def store(self, label=lambda p: p):
        import CHECLabPy.utils.resolutions as r
        res, st = r.ChargeResolution(False), r.ChargeStatistics()
        n = 1040
        p = np.arange(n) % 4
        # several values per bin of the plots, some beyond the curves
        t = 0.3 * 1.035 ** (np.arange(n) % 261)
        m = t * (1 + 0.05 * (p + 1)) + ((np.arange(n) * 7) % 5 - 2) * 0.1
        m[t < 1] -= 2
        for o in (res, st):
            o.add(label(p), t, m)
        (rp, rc), (sp, sc) = res.finish(), st.finish()
        return dict(charge_resolution_pixel=rp, charge_resolution_camera=rc,
                    charge_statistics_pixel=sp, charge_statistics_camera=sc)

    def plots(self, case, ctx):
        import matplotlib.pyplot as plt
        from CHECLabPy.plotting import resolutions as m
        store = self.store()
        for cls in (m.ChargeResolutionPlotter, m.ChargeResolutionWRRPlotter):
            p = cls()
            p.set_store(store)
            todo = [("pixel", i) for i in (2, 0, 3, 1)] + [("camera", None)]
            for k, (kind, i) in enumerate(todo):
                if kind == "pixel":
                    p.plot_pixel(i)
                    df = store["charge_resolution_pixel"]
                    df = df.loc[df["pixel"] == i]
                else:
                    p.plot_camera()
                    df = store["charge_resolution_camera"]
                want = self.bins(df["true"].values,
                                 df["charge_resolution"].values)
                if cls is m.ChargeResolutionWRRPlotter:
                    want[:, 1] /= cls.requirement(want[:, 0])
                got = self.drawn(p)
                expect(len(got) == k + 1, "lines drawn")
                expect_close(got[k], want, "%s %s of %s" % (
                    kind, i, cls.__name__))
                if cls is m.ChargeResolutionPlotter:
                    err = self.bins(df["true"].values, 1 / df["true"].values)
                    num = self.bins(df["true"].values, None)
                    expect_close(self.error_bars(p), np.sqrt(
                        err[:, 1] / num[:, 1]), "error bars of %s %s" % (
                            kind, i), 1e-6)
                ctx.ev()
                ctx.outcome((cls.__name__, kind, i))
            x = np.geomspace(0.5, 900, 50)
            for name in ("requirement", "goal", "poisson"):
                getattr(p, "plot_" + name)(x)
                line = p.ax.lines[-1].get_xydata()
                w = getattr(cls, name)(x)
                if cls is m.ChargeResolutionWRRPlotter:
                    w = w / cls.requirement(x)
                expect_close(line[:, 0], x, name)
                expect_close(line[:, 1], w, name)
            path = ctx.path("plot.pdf")
            p.save(path)
            plt.close("all")
            # pixels of the whole camera
            names = np.array([2047, 255, 256, 0])
            big = self.store(lambda q: names[q])
            p = cls()
            p.set_store(big)
            for i in (255, 2047, 0, 256):
                p.plot_pixel(i)
                df = big["charge_resolution_pixel"]
                df = df.loc[df["pixel"] == i]
                want = self.bins(df["true"].values,
                                 df["charge_resolution"].values)
                if cls is m.ChargeResolutionWRRPlotter:
                    want[:, 1] /= cls.requirement(want[:, 0])
                expect_close(self.drawn(p)[-1], want, "pixel %d of %s" % (
                    i, cls.__name__))
            plt.close("all")

    def means(self, case, ctx):
        import matplotlib.pyplot as plt
        from CHECLabPy.plotting import resolutions as m
        store = self.store()
        keep = {k: v.copy() for k, v in store.items()}
        p = m.ChargeMeanPlotter()
        p.set_store(store)
        for k, i in enumerate((1, 3, 0, None)):
            if i is None:
                p.plot_camera()
                df = store["charge_statistics_camera"]
            else:
                p.plot_pixel(i)
                df = store["charge_statistics_pixel"]
                df = df.loc[df["pixel"] == i]
            want = self.bins(df["amplitude"].values, df["mean"].values)
            want[:, 1] /= want[:, 0]
            expect_close(self.drawn(p)[k], want, "mean of %s" % i)
            ctx.ev()
            ctx.outcome(("means", i))
        p.save(ctx.path("plot.pdf"))
        plt.close("all")
        names = np.array([2047, 255, 256, 0])
        big = self.store(lambda q: names[q])
        p = m.ChargeMeanPlotter()
        p.set_store(big)
        for i in (255, 2047, 0, 256):
            p.plot_pixel(i)
            df = big["charge_statistics_pixel"]
            df = df.loc[df["pixel"] == i]
            want = self.bins(df["amplitude"].values, df["mean"].values)
            want[:, 1] /= want[:, 0]
            expect_close(self.drawn(p)[-1], want, "mean of pixel %d" % i)
        plt.close("all")
        for k, v in keep.items():
            expect(store[k].equals(v), "the store was changed")


CHECK = C25()
