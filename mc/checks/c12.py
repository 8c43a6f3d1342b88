import itertools
import numpy as np
from mc.engine import Check
from mc.red import (cross_correlation, needs, neighbour_mean, pulse,
                    reducer, reference)
from mc.util import expect, expect_close, noise

KINDS = {"CrossCorrelation": "", "CrossCorrelationLocal": "_local",
         "CrossCorrelationNeighbour": "_nn"}


def template(n, at, amp, ref=None):
    """one reference pulse of area amp with its maximum at sample `at`"""
    y, unit, p = ref or reference()
    out = np.zeros(n)
    for i, v in enumerate(unit):
        j = at - p + i
        if 0 <= j < n:
            out[j] += amp * v
    return out


def peak_time(y0, y1, y2, i, n):
    b = y0 - 2 * y1 + y2
    if b == 0:
        return float(i)
    t = i + 0.5 * (y0 - y2) / b
    return t if 0 <= t < n else float(i)


class C12(Check):
    id = "C12"
    level = "exploration"
    rule = "distinct (reducer, samples, pulse positions, amplitude)"
    assumptions = ("the reference pulse file of the stand-in "
                   "TargetCalib has 120 ns, sampled every 0.1 ns",)
    bounds = {
        "quick": "a reference pulse at every sample of waveforms of 64, 128 "
                 "and 30 samples x 5 amplitudes; every pair of pulse "
                 "positions on a grid of 6; noise; peaks on the first and "
                 "last sample; float32 and float64; all three peak finders; "
                 "96 other reference pulses of 9..25 ns; "
                 "64 and 2048 pixels; every sample index for the time",
        "thorough": "waveforms of 24..48 samples, pairs on a grid of 2"}

    def cases(self, tier):
        t = tier == "thorough"
        out = []
        for n in (30, 64, 128) + (tuple(range(24, 49)) if t else ()):
            for at in range(0, n):
                out.append(dict(kind="one", n=n, at=at))
            g = 2 if t and n < 64 else 6
            for a in range(1, n, g):
                out.append(dict(kind="two", n=n, a=a, g=g))
            for seed in range(12 if t else 4):
                out.append(dict(kind="noise", n=n, seed=seed))
            out.append(dict(kind="edge", n=n))
        for n in (3, 4, 7, 16):
            out.append(dict(kind="time", n=n))
        # other reference pulses: length in ns, maximum, undershoot
        for size, at, under in itertools.product(
                range(9, 40 if t else 26), (2, 5.5, 9), (0, 0.3)):
            if at + 2 < size:
                out.append(dict(kind="pulse", size=size, at=at,
                                under=under))
        out.append(dict(kind="camera"))
        return out

    def setup(self):
        import CHECLabPy.waveform_reducers  # noqa: F401

    def run(self, case, ctx):
        getattr(self, case["kind"])(case, ctx)
        ctx.outcome(repr(case))

    def reducers(self, n_pixels, n, **given):
        return {k: reducer(k)(n_pixels, n, **{**needs(k, n_pixels), **given})
                for k in KINDS}

    def pulse(self, case, ctx):
        """the reference pulse is that of the file"""
        x = np.arange(0, case["size"] + 0.45, 0.1)
        at = case["at"]
        y = np.exp(-0.5 * ((x - at) / np.where(x < at, 1.1, 2.3)) ** 2)
        y -= case["under"] * np.exp(-0.5 * ((x - at - 7) / 2.0) ** 2)
        path = ctx.path("pulse.txt")
        np.savetxt(path, np.column_stack([x * 1e-9, 3 * y]))
        ref = reference(path)
        n = 32
        reds = self.reducers(64, n, reference_pulse_path=path)
        amps = np.array([1.0, 0.5, 40.0, 7.25, 300.0])[np.arange(64) % 5]
        for at in (3, 10, 16, 27, 31):
            w = np.array([template(n, at, a, ref) for a in amps])
            self.verify(reds, w.astype(np.float32), "pulse of %s at %d" % (
                case, at), ctx, ref)
            d = reds["CrossCorrelation"].process(w)
            if at >= 16 and n - at > case["size"]:
                expect_close(d["charge_cc"], amps, "charge", 1e-6)
        self.verify(reds, noise((64, n), case["size"], -40, 40) / 8,
                    "noise", ctx, ref)

    def verify(self, reds, w, what, ctx, ref=None):
        """against the correlation with the reference pulse"""
        cc = cross_correlation(w, ref)
        n_pixels, n = w.shape
        unit_max = (ref or reference())[1].max()
        scale = max(1.0, float(np.abs(cc).max()))
        eps = 2e-5 * scale
        nb = neighbour_mean(cc, n_pixels)
        for name, suf in KINDS.items():
            d = reds[name].process(w)
            charge = np.asarray(d["charge_cc" + suf], dtype=float)
            t = np.asarray(d["t_cc" + suf], dtype=float)
            height = np.asarray(d["height_cc" + suf], dtype=float)
            expect(charge.shape == t.shape == height.shape == (n_pixels,),
                   "%s: shapes" % name)
            expect_close(height, charge * unit_max, "%s: height, %s" % (
                name, what), 1e-5, eps)
            if suf == "":
                avg = np.repeat(cc.mean(0)[None], n_pixels, 0)
            elif suf == "_local":
                avg = cc
            else:
                avg = nb
            for p in range(n_pixels):
                # any maximum within rounding is acceptable
                cand = np.flatnonzero(avg[p] >= avg[p].max() - eps)
                ok = False
                for i in cand:
                    if abs(cc[p, i] - charge[p]) > eps:
                        continue
                    if not 0 < i < n - 1:
                        want = [float(i)]
                    else:
                        y = cc[p, i - 1:i + 2]
                        if abs(y[0] - 2 * y[1] + y[2]) < 20 * eps:
                            ok = True  # too flat for its time to be defined
                            break
                        want = [peak_time(*y, i, n)]
                        q = want[0]
                        if q < 0.02 or q > n - 0.02 or q == i:
                            want.append(float(i))
                            raw = i + 0.5 * (y[0] - y[2]) / (
                                y[0] - 2 * y[1] + y[2])
                            want.append(raw)
                        tol = 0.02 + 40 * eps / abs(
                            y[0] - 2 * y[1] + y[2])
                        if abs(q - i) > 1:
                            tol += 2 * abs(q - i) * tol
                        ok = any(abs(x - t[p]) <= tol for x in want)
                        if ok:
                            break
                        continue
                    ok = any(abs(x - t[p]) < 1e-6 for x in want)
                    if ok:
                        break
                expect(ok, lambda: "%s, %s, pixel %d: charge %r at %r; the "
                       "correlation is %s about its maximum %s" % (
                           name, what, p, charge[p], t[p],
                           cc[p, max(0, cand[0] - 2):cand[0] + 3], cand))
            ctx.ev()

    def one(self, case, ctx):
        n, at = case["n"], case["at"]
        reds = self.reducers(64, n)
        y, unit, p = reference()
        amps = np.array([1.0, 0.5, 40.0, 7.25, 300.0])[np.arange(64) % 5]
        for dt in (np.float32, np.float64):
            w = np.array([template(n, at, a) for a in amps]).astype(dt)
            self.verify(reds, w, "pulse at %d of %d" % (at, n), ctx)
            if at - p >= 0 and at - p + len(unit) <= n or (
                    at >= p and n - at > 60):
                # the charge of a contained pulse is its area
                d = reds["CrossCorrelation"].process(w)
                expect_close(d["charge_cc"], amps, "charge of a pulse at %d"
                             % at, 0.02)
                expect_close(np.asarray(d["t_cc"]), np.full(64, at), "time "
                             "of a pulse at %d" % at, 0, 0.5)
                expect_close(np.asarray(d["height_cc"]), w.max(1), "height",
                             0.02)
                d = reds["CrossCorrelationLocal"].process(w * 2)
                expect_close(d["charge_cc_local"], 2 * amps, "charge", 0.02)

    def two(self, case, ctx):
        n, a = case["n"], case["a"]
        reds = self.reducers(64, n)
        for b in range(2, n, case["g"]):
            for amp in (0.5, 1.5, 3.0):
                w = np.array([
                    template(n, a, 20 + p % 3) + template(
                        n, b, amp * (20 + (p * 7) % 5)) for p in range(64)])
                w = w.astype(np.float32 if b % 2 else np.float64)
                self.verify(reds, w, "pulses at %d and %d" % (a, b), ctx)

    def noise(self, case, ctx):
        n = case["n"]
        reds = self.reducers(64, n)
        w = noise((64, n), 31 + case["seed"], -40, 40) / 8
        self.verify(reds, w, "noise", ctx)
        self.verify(reds, w.astype(np.float32), "noise", ctx)
        self.verify(reds, w - 50, "negative", ctx)

    def edge(self, case, ctx):
        """the maximum of the correlation on the first or last sample"""
        n = case["n"]
        reds = self.reducers(64, n)
        for k in (0, 1, 2, n - 3, n - 2, n - 1):
            for amp in (1.0, 50.0):
                w = np.zeros((64, n))
                w[:, k] = amp * (1 + np.arange(64) % 4)
                self.verify(reds, w, "spike at %d" % k, ctx)
                w[::3] = 0
                self.verify(reds, w.astype(np.float32), "spikes", ctx)
        self.verify(reds, np.tile(np.linspace(5, 0, n), (64, 1)), "falling",
                    ctx)
        self.verify(reds, np.tile(np.linspace(0, 5, n), (64, 1)), "rising",
                    ctx)

    def time(self, case, ctx):
        """the interpolation of the peak for every index and shape"""
        import CHECLabPy.waveform_reducers.cross_correlation as m
        n = case["n"]
        vals = (-1.0, 0.0, 2.0, 5.0)
        for i in range(n):
            for y in itertools.product(vals, repeat=3):
                wf = np.zeros(n)
                for k, v in zip((i - 1, i, i + 1), y):
                    if 0 <= k < n:
                        wf[k] = v
                want = (peak_time(*y, i, n) if 0 < i < n - 1 else float(i))
                for dt in (np.float64, np.float32):
                    g = m.extract_pulse_time(wf.astype(dt), i)
                    expect(abs(float(g) - want) < 1e-5, lambda:
                           "extract_pulse_time(%s, %d) is %r, expected %r" % (
                               wf, i, float(g), want))
                    ctx.ev()

    def camera(self, case, ctx):
        reds = self.reducers(2048, 128)
        for seed in (1, 2):
            w = np.array([template(128, 40 + (p * seed) % 13, 5 + p % 60)
                          for p in range(2048)])
            w = (w + noise(w.shape, seed) / 16).astype(np.float32)
            self.verify(reds, w, "camera", ctx)


CHECK = C12()
