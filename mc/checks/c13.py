import itertools
import math
import numpy as np
from mc.engine import Check
from mc.red import clipped_peak, pulse, reducer
from mc.util import expect, expect_close, noise


def timing(wf, start, end):
    """(t_pulse, amplitude, fwhm, rise) of one pixel, or None when the pulse
    cannot be interpolated; exact rational data keeps the branches safe"""
    wf = [float(v) for v in wf]
    n = len(wf)
    base = sum(wf[:10]) / 10
    win = wf[start:end]
    i = win.index(max(win)) + start
    if not 0 < i < n - 1:
        return None
    y0, y1, y2 = wf[i - 1:i + 2]
    b = y0 - 2 * y1 + y2
    if b == 0:
        return None
    d = 0.5 * (y0 - y2) / b
    t = i + d
    if not 0 <= t < n:
        return None
    amp = y1 - 0.25 * (y0 - y2) * d - base
    c = min(int(np.round(t)), n - 1)

    def left(level):
        for x in range(c, 0, -1):
            if wf[x] >= level >= wf[x - 1]:
                v = x - (level - wf[x]) / (wf[x - 1] - wf[x])
                if v:
                    return v
        return None

    def right(level):
        for x in range(c, n - 1):
            if wf[x] >= level >= wf[x + 1]:
                return x + (level - wf[x]) / (wf[x + 1] - wf[x])
        return None
    half = base + amp / 2
    lo, hi = left(half), right(half)
    a, z = left(base + 0.1 * amp), left(base + 0.9 * amp)
    return (t, amp,
            hi - lo if lo and hi else math.nan,
            z - a if a and z else math.nan)


def risky(wf, start, end):
    """a branch is within rounding, or a flat stretch lies on a level"""
    try:
        r = timing(wf, start, end)
    except ZeroDivisionError:
        return True
    for e in (1e-5, -1e-5):
        w = np.array(wf, dtype=float)
        s = np.arange(len(w))
        try:
            q = timing(w + e * np.cos(s * 1.7) * max(1, np.abs(w).max()),
                       start, end)
        except ZeroDivisionError:
            return True
        if (q is None) != (r is None):
            return True
        if r is not None:
            for x, y in zip(q, r):
                if math.isnan(x) != math.isnan(y):
                    return True
                if not math.isnan(x) and abs(x - y) > 0.05 * max(
                        1, abs(y)):
                    return True
    return False


class C13(Check):
    id = "C13"
    level = "exploration"
    rule = "distinct (waveform shape, window, position)"
    assumptions = ("pixels whose result jumps under a change of 1e-5 are "
                   "not compared",
                   "a pulse that cannot be interpolated gives zeros")
    bounds = {
        "quick": "gaussian, triangular, asymmetric and two-peak pulses at "
                 "every sample of waveforms of 24, 40, 128 samples; every "
                 "shape of 5 samples over 4 levels around the peak (1024) at "
                 "6 positions; window sizes 1..10, shifts 0..6, every "
                 "t_extract; float32, float64; 64 and 2048 pixels",
        "thorough": "6 samples over 4 levels, waveforms of 22..48 samples"}

    def cases(self, tier):
        t = tier == "thorough"
        out = []
        for n in (24, 40, 128) + (tuple(range(22, 49)) if t else ()):
            for shape in ("gauss", "triangle", "skew", "double", "noise"):
                for c in range(0, n, 1 if n < 60 else 3):
                    out.append(dict(kind="shape", n=n, shape=shape, c=c))
        for n in (24, 40):
            for t_ex in range(6, n + 1):
                out.append(dict(kind="extract", n=n, t=t_ex))
            for size in range(1, 11):
                out.append(dict(kind="window", n=n, size=size))
        for at in (11, 14, 19, 22, 23, 12):
            for first in range(4):
                out.append(dict(kind="levels", at=at, first=first,
                                k=6 if t else 5))
        for n, c in itertools.product((128, 300), (20, 40, 90, 110)):
            for shape in ("slow", "slowrise"):
                out.append(dict(kind="shape", n=n, shape=shape, c=c))
        out.append(dict(kind="analytic"))
        out.append(dict(kind="camera"))
        return out

    def setup(self):
        import CHECLabPy.waveform_reducers  # noqa: F401

    def run(self, case, ctx):
        getattr(self, case["kind"])(case, ctx)
        ctx.outcome(repr(case))

    def verify(self, w, t, size, shift, ctx, what, **k):
        n_pixels, n = w.shape
        d = reducer("Timing")(n_pixels, n, **k).process(w.copy())
        expect(int(d["t_event"]) == t, lambda: "%s: t_event %s, expected %d"
               % (what, d["t_event"], t))
        cols = [np.asarray(d[c], dtype=float) for c in (
            "t_pulse", "t_pulse_amp", "fwhm", "t_rise")]
        start, end = t - shift, t - shift + size
        for p in range(n_pixels):
            wf = w[p]
            if risky(wf, start, end):
                continue
            want = timing(wf, start, end)
            got = [c[p] for c in cols]
            want = (0, 0, 0, 0) if want is None else want
            scale = max(1.0, float(np.abs(wf).max()))
            ok = all((math.isnan(x) and math.isnan(y))
                     or abs(x - y) <= 1e-3 * max(1, abs(y)) * s
                     for x, y, s in zip(got, want, (1, scale, 1, 1)))
            expect(ok, lambda: "%s, pixel %d: (t_pulse, t_pulse_amp, fwhm, "
                   "t_rise) is %s, expected %s for %s" % (
                       what, p, got, want, list(wf)))
            ctx.ev()

    def make(self, n, shape, c, n_pixels=24):
        out = []
        s = np.arange(n, dtype=float)
        for p in range(n_pixels):
            q = c + p % 3 * 0.3
            a = 5 + 3 * p
            if shape == "gauss":
                y = pulse(n, q, 1.5 + p % 4 * 0.7, a)
            elif shape == "triangle":
                y = np.maximum(0, a * (1 - np.abs(s - q) / (2.2 + p % 5)))
            elif shape == "skew":
                y = np.where(s < q, pulse(n, q, 1.2, a),
                             pulse(n, q, 3 + p % 4, a))
            elif shape == "slow":
                y = np.where(s < q, pulse(n, q, 1.5, a),
                             a / (1 + (s - q) / (30. + 20 * (p % 4))))
            elif shape == "slowrise":
                y = np.where(s < q, a / (1 + (q - s) / (20. + p % 9)),
                             pulse(n, q, 2.5, a))
            elif shape == "double":
                y = pulse(n, q, 1.6, a) + pulse(
                    n, q + 5 + p % 6, 2.0, a * 0.6)
            else:
                y = noise(n, 7 * p + c + 1, -20, 20) / 4 + pulse(
                    n, q, 2.0, a)
            out.append(y + (p % 4) * 1.5 - 2)
        return np.array(out)

    def shape(self, case, ctx):
        w = self.make(case["n"], case["shape"], case["c"])
        for dt in (np.float64, np.float32):
            x = w.astype(dt)
            self.verify(x, clipped_peak(x), 8, 4, ctx,
                        "%s at %d of %d" % (case["shape"], case["c"],
                                            case["n"]))

    def extract(self, case, ctx):
        n, t = case["n"], case["t"]
        for shape in ("gauss", "double"):
            w = self.make(n, shape, n // 2)
            for size, shift in ((8, 4), (3, 1), (12, 6)):
                self.verify(w, t, size, shift, ctx, "t_extract %d" % t,
                            t_extract=t, window_size=size,
                            window_shift=shift)

    def window(self, case, ctx):
        n, size = case["n"], case["size"]
        for shift in range(7):
            for c in (9, 12, 15, n - 9):
                w = self.make(n, "gauss", c)
                self.verify(w, clipped_peak(w), size, shift, ctx,
                            "window %d, shift %d" % (size, shift),
                            window_size=size, window_shift=shift)

    def levels(self, case, ctx):
        """every shape over 4 levels about the peak, one per pixel"""
        at, k = case["at"], case["k"]
        n = 24
        vals = (0.0, 1.0, 2.5, 4.0)
        rows = []
        for rest in itertools.product(vals, repeat=k - 1):
            y = np.zeros(n)
            y[8] = 0.25
            for j, v in enumerate((vals[case["first"]],) + rest):
                if 0 <= at - 2 + j < n:
                    y[at - 2 + j] = v
            rows.append(y)
        w = np.array(rows)
        self.verify(w, 14, 8, 4, ctx, "levels", t_extract=14)
        self.verify(w.astype(np.float32), 20, 8, 7, ctx, "levels",
                    t_extract=20, window_shift=7)

    def analytic(self, case, ctx):
        """triangles and gaussians with known widths"""
        n = 60
        for half in (4, 6, 9):
            w = np.zeros((8, n))
            s = np.arange(n)
            for p in range(8):
                w[p] = np.maximum(0, (10 + p) * (1 - np.abs(s - 30) / half))
            d = reducer("Timing")(8, n).process(w)
            expect_close(d["t_pulse"], np.full(8, 30.), "t_pulse")
            expect_close(d["t_pulse_amp"], 10. + np.arange(8), "t_pulse_amp")
            expect_close(d["fwhm"], np.full(8, float(half)), "fwhm")
            expect_close(d["t_rise"], np.full(8, 0.8 * half), "t_rise")
            ctx.ev(4)
        for sigma in (3.0, 5.0):
            w = np.array([pulse(n, 30, sigma, 20 + p) for p in range(8)])
            w += 7
            d = reducer("Timing")(8, n).process(w)
            expect_close(d["t_pulse_amp"], 20. + np.arange(8), "t_pulse_amp",
                         1e-3)
            expect_close(d["fwhm"], np.full(8, 2.3548 * sigma), "fwhm", 0.02)
            expect_close(d["t_rise"], np.full(8, 1.6869 * sigma), "t_rise",
                         0.05)
            ctx.ev(3)

    def camera(self, case, ctx):
        w = self.make(128, "skew", 55, 2048).astype(np.float32)
        self.verify(w, clipped_peak(w), 8, 4, ctx, "camera")


CHECK = C13()
