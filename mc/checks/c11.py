import itertools
import numpy as np
from mc.engine import Check
from mc.red import (clipped_peak, mapping, needs, neighbour_mean, neighbours,
                    pulse, reducer)
from mc.util import expect, expect_close, noise

F4, F8 = np.float32, np.float64


def grid(n_samples, centre, n_pixels=64, spread=0, dtype=F4, seed=1,
         amp=20.0):
    """pulses on a 1/64 grid (exact sums in single precision)"""
    w = np.array([pulse(n_samples, centre + (p % (2 * spread + 1)) - spread,
                        2.5, amp + p % 11) for p in range(n_pixels)])
    w = np.round(w * 64) / 64 + noise(w.shape, seed, -3, 3) / 64
    return w.astype(dtype)


def window_sum(w, start, size):
    n = w.shape[1]
    out = np.zeros(w.shape[0])
    for p in range(w.shape[0]):
        s0 = int(start[p]) if np.ndim(start) else int(start)
        out[p] = sum(float(w[p, s]) for s in range(s0, s0 + size)
                     if 0 <= s < n)
    return out


def window_time(w, start, size):
    n = w.shape[1]
    out = np.zeros(w.shape[0])
    for p in range(w.shape[0]):
        s0 = int(start[p]) if np.ndim(start) else int(start)
        ss = [s for s in range(s0, s0 + size) if 0 <= s < n and w[p, s] > 0]
        den = sum(float(w[p, s]) for s in ss)
        out[p] = (sum(float(w[p, s]) * s for s in ss) / den if den
                  else float(s0))
    return out


def sliding(a, size):
    """sum of the `size` samples from each sample on"""
    pad = np.concatenate([a.astype(float), np.zeros(a.shape[:-1] + (size,))],
                         axis=-1)
    c = np.cumsum(pad, axis=-1)
    c = np.concatenate([np.zeros(a.shape[:-1] + (1,)), c], axis=-1)
    n = a.shape[-1]
    return c[..., size:size + n] - c[..., :n]


class C11(Check):
    id = "C11"
    level = "exploration"
    rule = "distinct (reducer, settings, pulse position, samples)"
    assumptions = ("waveforms have at least 20 samples; the integration of "
                   "ctapipe itself is a stand-in with the same contract",)
    bounds = {
        "quick": "pulses at every sample of waveforms of 20, 25, 40, 128 "
                 "samples, window sizes 1..10 x shifts 0..6, every extraction "
                 "time, float32 and float64, 64 pixels (2048 for the "
                 "flashers, 6^4 module amplitudes, and for realistic events)",
        "thorough": "window sizes 1..20, shifts 0..10, 20..48 samples"}

    def cases(self, tier):
        t = tier == "thorough"
        lens = (20, 25, 40, 128) if not t else tuple(range(20, 49)) + (128,)
        short = (10, 16, 19)
        out = []
        for n in lens:
            for c in range(-2, n + 2):
                out.append(dict(kind="position", n=n, c=c))
            out.append(dict(kind="extract", n=n))
            for size in range(1, 21 if t else 11):
                out.append(dict(kind="sliding_", n=n, size=size))
        for dt in ("f4", "f8"):
            for n in short + lens:
                out.append(dict(kind="common", n=n, dt=dt))
                out.append(dict(kind="superpixel", n=n, dt=dt))
        vals = [0.0, 29.75, 30.0, 31.0, 80.0, 200.0]
        for a, b in itertools.product(vals, repeat=2):
            out.append(dict(kind="flasher", ab=[a, b], vals=vals))
        out.append(dict(kind="camera"))
        return out

    def setup(self):
        import CHECLabPy.waveform_reducers  # noqa: F401

    def run(self, case, ctx):
        getattr(self, case["kind"])(case, ctx)

    def get(self, name, w, **k):
        n_pixels, n = w.shape
        red = reducer(name)(n_pixels, n, **needs(name, n_pixels), **k)
        return red.process(w)

    def common(self, case, ctx):
        n = case["n"]
        for i, base in enumerate((0.0, 3.0, -40.0, -2000.0)):
            w = (noise((64, n), 7 + i, -300, 300) / 8 + base).astype(
                case["dt"])
            d = self.get("Common", w)
            x = w.astype(float)
            want = dict(
                baseline_start_mean=x[:, :20].mean(1),
                baseline_end_mean=x[:, -20:].mean(1),
                waveform_mean=x.mean(1), waveform_max=x.max(1))
            for k, v in (("baseline_start_rms", x[:, :20]),
                         ("baseline_end_rms", x[:, -20:]),
                         ("waveform_rms", x)):
                m = v.mean(1, keepdims=True)
                want[k] = np.sqrt(((v - m) ** 2).sum(1) / v.shape[1])
            for k, v in want.items():
                expect_close(d[k], v, "%s, %d samples" % (k, n), 1e-4, 1e-4)
            ctx.ev(7)
            ctx.outcome((n, case["dt"], base))

    def superpixel(self, case, ctx):
        n = case["n"]
        for n_pixels in (64, 128):
            for c in range(3, n - 3, 3):
                w = grid(n, c, n_pixels, spread=2, dtype=case["dt"], seed=c)
                d = self.get("SPAmplitude", w)
                s = w.astype(float).reshape((n_pixels // 4, 4, n)).sum(1)
                expect_close(d["sp_max"], np.repeat(s.max(1), 4), "sp_max",
                             1e-5)
                g = np.asarray(d["sp_argmax"]).reshape((-1, 4))
                expect((g == g[:, :1]).all(), "sp_argmax of a superpixel")
                expect_close(s[np.arange(len(s)), g[:, 0]], s.max(1),
                             "samples at sp_argmax", 1e-5)
                ctx.ev(2)
            # several samples are the highest: the first of them
            for c, width in ((3, 2), (n // 2, 4), (n - 3, 3), (0, n)):
                w = np.zeros((n_pixels, n), dtype=case["dt"])
                w[:, c:c + width] = 12.5
                w[n_pixels // 2:] -= 700
                d = self.get("SPAmplitude", w)
                expect((np.asarray(d["sp_argmax"]) == c).all(), lambda:
                       "sp_argmax %s, samples %d to %d are the highest" % (
                           d["sp_argmax"], c, c + width - 1))
                expect_close(d["sp_max"], w.reshape((-1, 4, n)).sum(1).max(
                    1).repeat(4), "sp_max", 1e-5)
                ctx.ev(2)
            ctx.outcome((n, n_pixels, case["dt"]))

    def position(self, case, ctx):
        """windows about the average waveform follow the pulse"""
        n, c = case["n"], case["c"]
        for dt in (F4, F8):
            w = grid(n, c, 64, spread=1, dtype=dt, seed=n + c)
            t = clipped_peak(w)
            for size, shift in itertools.product(
                    range(1, 11 if ctx.tier == "quick" else 21),
                    range(0, 7 if ctx.tier == "quick" else 11)):
                d = self.get("AverageWF", w, window_size=size,
                             window_shift=shift)
                expect(int(d["t_averagewf"]) == t, lambda: "t_averagewf %s, "
                       "expected %d" % (d["t_averagewf"], t))
                expect_close(d["charge_averagewf"], w[
                    :, t - shift:t - shift + size].astype(float).sum(1),
                    "charge_averagewf, window %d, shift %d" % (size, shift),
                    1e-5, 1e-4)
                ctx.ev()
                if size == 1:
                    d = self.get("Saturation", w, window_shift=shift)
                    expect_close(d["saturation_sum"],
                                 w[:, t - shift:].astype(float).sum(1),
                                 "saturation_sum, shift %d" % shift, 1e-5,
                                 1e-4)
                    ctx.ev()
            d = self.get("AverageWF", w)
            expect_close(d["charge_averagewf"], w[:, t - 3:t + 3].astype(
                float).sum(1), "default charge_averagewf", 1e-5, 1e-4)
            for k in (4, 9, 15):
                # one of the two settings
                d = self.get("AverageWF", w, window_size=k)
                expect_close(d["charge_averagewf"], window_sum(w, t - 3, k),
                             "charge_averagewf, window %d" % k, 1e-5, 1e-4)
                d = self.get("AverageWF", w, window_shift=k)
                expect_close(d["charge_averagewf"], window_sum(w, t - k, 6),
                             "charge_averagewf, shift %d" % k, 1e-5, 1e-4)
            # far below zero
            low = w - 2000
            d = self.get("AverageWF", low)
            expect(int(d["t_averagewf"]) == t, "t_averagewf below zero")
            expect_close(d["charge_averagewf"], low[:, t - 3:t + 3].astype(
                float).sum(1), "charge_averagewf below zero", 1e-5, 1e-4)
            expect_close(self.get("Saturation", low)["saturation_sum"],
                         low[:, t - 4:].astype(float).sum(1),
                         "saturation_sum below zero", 1e-5, 1e-3)
            ctx.ev(9)
            d = self.get("Saturation", w)
            expect_close(d["saturation_sum"], w[:, t - 4:].astype(
                float).sum(1), "default saturation_sum", 1e-5, 1e-4)
            ctx.outcome((n, c, dt.__name__))

    def extract(self, case, ctx):
        n = case["n"]
        w = grid(n, n // 2, 64, spread=2)
        for t in range(0, n + 1):
            for size, shift in ((6, 3), (1, 0), (9, 5), (4, 6), (5, 25),
                                (30, 21)):
                d = self.get("AverageWF", w, t_extract=t, window_size=size,
                             window_shift=shift)
                expect(int(d["t_averagewf"]) == t, "t_extract")
                expect_close(d["charge_averagewf"], window_sum(
                    w, t - shift, size), "charge at t_extract %d, window %d, "
                    "shift %d" % (t, size, shift), 1e-5, 1e-4)
                d = self.get("Saturation", w, t_event=t, window_shift=shift)
                expect_close(d["saturation_sum"], window_sum(
                    w, t - shift, n + shift), "saturation_sum at t_event %d, "
                    "shift %d" % (t, shift), 1e-5, 1e-4)
                ctx.ev(2)
            ctx.outcome((n, t))


    def sliding_(self, case, ctx):
        n, size = case["n"], case["size"]
        for c in range(1, n, 1 if n <= 40 else 5):
            dt = F4 if c % 2 else F8
            w = grid(n, c, 64, spread=3, dtype=dt, seed=c)
            k = dict(window_size=size)
            # common window
            s = sliding(w.astype(float).mean(0), size)
            i = int(s.argmax())
            if (s > s.max() - 1e-4).sum() == 1:
                d = self.get("SlidingWindow", w, **k)
                expect_close(d["charge_sliding"], window_sum(w, i, size),
                             "charge_sliding, window %d, pulse at %d" % (
                                 size, c), 1e-5, 1e-4)
                expect_close(d["t_sliding"], window_time(w, i, size),
                             "t_sliding", 1e-5, 1e-4)
                ctx.ev(2)
            # one window per pixel, some with a dip larger than the pulse
            w[::3, (c + n // 2) % n] -= 4 * w[::3].max(1)
            s = sliding(w, size)
            i = s.argmax(1)
            one = (s > s.max(1)[:, None] - 1e-4).sum(1) == 1
            d = self.get("SlidingWindowLocal", w, **k)
            expect_close(d["charge_sliding_local"], s.max(1),
                         "charge_sliding_local, window %d, pulse at %d" % (
                             size, c), 1e-5, 1e-4)
            expect_close(np.asarray(d["t_sliding_local"])[one],
                         window_time(w, i, size)[one], "t_sliding_local",
                         1e-5, 1e-4)
            low = w - 4 * w.max() - 10
            s = sliding(low, size)
            d = self.get("SlidingWindowLocal", low, **k)
            expect_close(d["charge_sliding_local"], s.max(1),
                         "charge_sliding_local below zero, window %d, pulse "
                         "at %d" % (size, c), 1e-5, 1e-4)
            # window of the neighbours
            s = sliding(neighbour_mean(w.astype(float), 64), size)
            i = s.argmax(1)
            one = (s > s.max(1)[:, None] - 1e-4).sum(1) == 1
            d = self.get("SlidingWindowNeighbour", w, **k)
            expect_close(np.asarray(d["charge_sliding_nn"])[one],
                         window_sum(w, i, size)[one], "charge_sliding_nn, "
                         "window %d, pulse at %d" % (size, c), 1e-5, 1e-4)
            expect_close(np.asarray(d["t_sliding_nn"])[one],
                         window_time(w, i, size)[one], "t_sliding_nn", 1e-5,
                         1e-4)
            # ctapipe windows: position of the peak, size and shift
            local, near = w.astype(float), neighbour_mean(
                w.astype(float), 64)
            given = (size, (size + c) % 6)
            # and with the default window
            for name, a, suffix, (width, shift) in [
                    x + (y,) for x in (
                        ("CtapipeLocalPeakIntegrator", local, "local"),
                        ("CtapipeNeighbourPeakIntegrator", near, "nn"))
                    for y in ([given, (size, None)] if size > 1 else
                              [given, (None, None), (None, 1)])]:
                k = {a: b for a, b in (("window_size", width),
                                       ("window_shift", shift))
                     if b is not None}
                width = 6 if width is None else width
                shift = 3 if shift is None else shift
                i = a.argmax(1)
                one = (a > a.max(1)[:, None] - 1e-4).sum(1) == 1
                d = self.get(name, w, **k)
                expect_close(np.asarray(d["charge_" + suffix])[one],
                             window_sum(w, i - shift, width)[one],
                             "charge_%s, window %d, shift %d" % (
                                 suffix, width, shift), 1e-5, 1e-4)
                expect_close(np.asarray(d["t_" + suffix])[one], self._time(
                    w, i, width, shift)[one], "t_" + suffix, 1e-5, 1e-4)
            ctx.ev(8)
            ctx.outcome((n, size, c))

    def _time(self, w, i, size, shift):
        t = window_time(w, i - shift, size)
        n = w.shape[1]
        for p in range(len(w)):
            ss = [s for s in range(int(i[p]) - shift, int(i[p]) - shift
                                   + size) if 0 <= s < n and w[p, s] > 0]
            if not ss:
                t[p] = i[p]
        return t

    def flasher(self, case, ctx):
        n = 6
        vals = case["vals"]
        mods = (5, 23, 8, 26)
        base = np.repeat(40.0 + np.arange(32) * 9, 64)
        for c, e in itertools.product(vals, repeat=2):
            v = case["ab"] + [c, e]
            peaks = base.copy()
            # other peaks in the module, with the average x
            skew = vals.index(c) * 6 + vals.index(e)
            skew = np.where((np.arange(64) + 11 * skew) % 64 < 8, 7, -1) \
                if skew % 3 else np.arange(64) % 2 * 2 - 1
            for m, x in zip(mods, v):
                peaks[64 * m:64 * m + 64] = x + skew * min(x, 8)
            w = np.repeat(peaks[:, None], n, axis=1)
            w -= (np.arange(n)[None] != (np.arange(2048) % n)[:, None]) * 5
            got = self.get("FlagFlashers", w)["flasher_unit"]
            if min(v) < 30:
                want = [-1]
            else:
                want = [i for i in range(4) if v[i] == max(v)]
            expect(int(got) in want, lambda: "flasher_unit %r for module "
                   "averages %s" % (got, v))
            ctx.ev()
            ctx.outcome(tuple(v))

    def camera(self, case, ctx):
        """2048 pixels x 128 samples"""
        for c, dt in ((30, F4), (64, F8), (120, F4)):
            w = grid(128, c, 2048, spread=4, dtype=dt, seed=c)
            t = clipped_peak(w)
            d = self.get("AverageWF", w)
            expect(int(d["t_averagewf"]) == t, "t_averagewf")
            expect_close(d["charge_averagewf"], w[:, t - 3:t + 3].astype(
                float).sum(1), "charge_averagewf", 1e-5, 1e-4)
            d = self.get("Common", w)
            expect_close(d["waveform_mean"], w.astype(float).mean(1),
                         "waveform_mean", 1e-4, 1e-4)
            d = self.get("SlidingWindowLocal", w)
            expect_close(d["charge_sliding_local"], sliding(w, 8).max(1),
                         "charge_sliding_local", 1e-5, 1e-4)
            i = sliding(neighbour_mean(w.astype(float), 2048), 8)
            one = (i > i.max(1)[:, None] - 1e-4).sum(1) == 1
            d = self.get("SlidingWindowNeighbour", w)
            expect_close(d["charge_sliding_nn"][one], window_sum(
                w, i.argmax(1), 8)[one], "charge_sliding_nn", 1e-5, 1e-4)
            ctx.ev(5)
            ctx.outcome(("camera", c))


CHECK = C11()
