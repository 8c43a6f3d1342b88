"""Time correction of waveforms."""
import os
import numpy as np
import pandas as pd
from mc.engine import Check
from mc.util import expect, expect_close, same_values
from mc.checks.c15 import waveforms


def interpolated(wf, cor):
    """wf(t - cor), linear between the samples, linear beyond the ends"""
    wf = np.asarray(wf, dtype=float)
    out = np.empty_like(wf)
    n = wf.shape[1]
    t = np.arange(n)
    for p in range(wf.shape[0]):
        x = t - cor[p]
        out[p] = np.interp(x, t, wf[p])
        lo, hi = x < 0, x > n - 1
        out[p, lo] = wf[p, 0] + (wf[p, 1] - wf[p, 0]) * x[lo]
        out[p, hi] = wf[p, -1] + (wf[p, -1] - wf[p, -2]) * (x[hi] - (n - 1))
    return out


class C17(Check):
    id = "C17"
    level = "exploration"
    rule = "distinct (number of samples, correction, waveform shape)"
    assumptions = ("waveforms have at least two samples",)
    bounds = {
        "quick": "2..6, 16, 17 and 128 samples; every correction from -n-2 "
                 "to n+2 in steps of 1/8 plus values next to integers; unit "
                 "pulses at every sample, straight lines, fixed noise; "
                 "float32 and float64; all pairs of 9 corrections in "
                 "neighbouring pixels; the 2048 corrections of the camera",
        "thorough": "2..20, 32, 64, 96, 127, 128 samples in steps of 1/16"}

    def setup(self):
        import CHECLabPy.calib.time_calibrator  # noqa: F401

    def cases(self, tier):
        t = tier == "thorough"
        ns = (list(range(2, 21)) + [32, 64, 96, 127, 128]) if t else \
            [2, 3, 4, 5, 6, 16, 17, 128]
        out = [dict(kind="grid", n=n, step=16 if t else 8) for n in ns]
        out += [dict(kind="pulse", n=n, step=8 if t else 4)
                for n in ns if n <= 17]
        out += [dict(kind="pixels", n=n) for n in (2, 5, 16)]
        out.append(dict(kind="camera", n=20))
        out.append(dict(kind="camera", n=128))
        return out

    def run(self, case, ctx):
        getattr(self, case["kind"])(case, ctx)
        ctx.trace()

    def corrections(self, n, step):
        lim = n + 2 if n < 100 else 12
        c = [k / step for k in range(-lim * step, lim * step + 1)]
        for k in range(-min(lim, 6), min(lim, 6) + 1):
            c += [k + 1e-9, k - 1e-9, k + 1e-4, k - 1e-4]
        if n >= 100:
            c += [-130.0, -128.0, -127.0, -126.5, 126.5, 127.0, 128.0, 130.0]
        return np.array(sorted(c))

    def compare(self, wf, cor, what, ctx):
        from CHECLabPy.calib.time_calibrator import apply_t_cor
        scale = np.abs(np.asarray(wf, dtype=float)).max() + 1
        for dtype, tol in ((np.float64, 1e-9), (np.float32, 3e-5)):
            w = np.ascontiguousarray(wf, dtype=dtype)
            keep, ckeep = w.copy(), cor.copy()
            got = apply_t_cor(w, cor)
            expect(got.dtype == dtype, "%s: dtype %s" % (what, got.dtype))
            expect(same_values(w, keep) and same_values(cor, ckeep),
                   "%s: input changed" % what)
            far = np.maximum(1, np.abs(cor).max())
            expect_close(got, interpolated(w, cor), what, 1e-5,
                         tol * scale * far)
            ctx.ev(len(cor))
        return got

    def grid(self, case, ctx):
        n = case["n"]
        cor = self.corrections(n, case["step"])
        m = len(cor)
        wf = waveforms(1, m, n, 3)[0]
        self.compare(wf, cor, "noise", ctx)
        line = np.arange(n)[None] * np.linspace(-3, 3, m)[:, None] + 2
        got = self.compare(line, cor, "straight lines", ctx)
        want = (np.arange(n)[None] - cor[:, None]) \
            * np.linspace(-3, 3, m)[:, None] + 2
        expect_close(got, want, "a straight line is shifted in time", 1e-4,
                     1e-4 * np.abs(want).max())
        flat = np.full((m, n), 7.25)
        expect_close(self.compare(flat, cor, "flat", ctx), flat, "flat",
                     1e-5, 1e-4)
        for c in cor:
            ctx.outcome((n, float(c)))

    def pulse(self, case, ctx):
        n = case["n"]
        cor = self.corrections(n, case["step"])
        for pos in range(n):
            wf = np.zeros((len(cor), n))
            wf[:, pos] = 8
            got = self.compare(wf, cor, "pulse at %d" % pos, ctx)
            for i, c in enumerate(cor):
                if c == int(c) and 0 <= pos + c < n and abs(c) < n:
                    expect(abs(got[i, int(pos + c)] - 8) < 1e-4, lambda:
                           "pulse at %d moved by %s: %s" % (pos, c, got[i]))
                ctx.outcome((n, pos, float(c)))

    def pixels(self, case, ctx):
        from CHECLabPy.calib.time_calibrator import apply_t_cor
        n = case["n"]
        some = np.array([-n, -1.5, -1, -0.25, 0, 0.25, 1, 1.5, n], float)
        wf = waveforms(1, 2, n, 8)[0]
        for a in some:
            alone = apply_t_cor(wf[:1].copy(), np.array([a]))
            for b in some:
                got = self.compare(wf, np.array([a, b]), "pixels %s %s" % (
                    a, b), ctx)
                got = apply_t_cor(wf, np.array([a, b]))
                expect(same_values(got[:1], alone), lambda: "the correction "
                       "%s of the other pixel matters to %s" % (b, a))
                ctx.outcome((n, a, b))

    def camera(self, case, ctx):
        from CHECLabPy.calib import TimeCalibrator, get_calib_data
        n = case["n"]
        df = pd.read_csv(get_calib_data("time_correction.dat"), sep="\t")
        cor = np.zeros(2048)
        cor[df["pixel"].values] = df["t_cor"].values
        tc = TimeCalibrator()
        for dtype in (np.float32, np.float64):
            wf = waveforms(1, 2048, n, 9)[0].astype(dtype)
            keep = wf.copy()
            got = tc(wf)
            expect_close(got, interpolated(wf, cor), "camera", 1e-5, 2e-3)
            expect(same_values(wf, keep), "input changed")
            again = tc(wf)
            expect(same_values(got, again), "second call")
            for m in (1, 2, 64, 128):
                # a camera of fewer modules
                expect_close(tc(wf[:m].copy()), interpolated(
                    wf[:m], cor[:m]), "first %d pixels" % m, 1e-5, 2e-3)
            ctx.ev(2048)
            ctx.outcome((n, str(dtype)))
        # one time for all pixels: a pulse at 10 - correction
        t = np.arange(n)[None]
        wf = np.exp(-0.5 * ((t - (10 - cor[:, None])) / 3.0) ** 2)
        peak = np.argmax(tc(wf), 1)
        expect((np.abs(peak - 10) <= 1).all(), "pulses are not aligned")
        assert os.path.exists(get_calib_data("time_correction.dat"))


CHECK = C17()
