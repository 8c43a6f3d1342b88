"""Waveform shifts, average waveforms and dead pixels."""
import itertools
import numpy as np
from mc.engine import Check
from mc.util import expect, expect_close, same_values
from mc.wf import Tio
from mc.checks.c15 import Source, Window, waveforms


def shifted(arr, num, fill):
    out = np.full_like(arr, fill)
    n = arr.shape[1]
    for s in range(n):
        if 0 <= s - num < n:
            out[:, s] = arr[:, s - num]
    return out


class C16(Check):
    id = "C16"
    level = "exploration"
    rule = "distinct (array, shift, fill) and (source, position) outcomes"
    assumptions = ("ties of the highest sample are not compared",)
    bounds = {
        "quick": "1..7 samples, every shift from -n-2 to n+2, 4 fills, 4 "
                 "dtypes; every peak position and target in 8 samples; "
                 "sources of 1..4 events with every assignment of 3 peak "
                 "positions (18 samples); all 2^6 sets of dead pixels x thresholds x "
                 "limits",
        "thorough": "16 samples, sources of 5 events, all 2^8 sets"}

    def setup(self):
        import CHECLabPy.utils.waveform  # noqa: F401
        import CHECLabPy.core.io  # noqa: F401

    def cases(self, tier):
        t = tier == "thorough"
        out = []
        for n in list(range(1, 17 if t else 8)) + [128]:
            out.append(dict(kind="array", n=n))
        for n in (1, 2, 8) + ((16,) if t else ()):
            for peak in range(n):
                out.append(dict(kind="waveform", n=n, peak=peak))
                if n > 1:
                    for d in ("uint16", "int32", "float32"):
                        out.append(dict(kind="waveform", n=n, peak=peak,
                                        dtype=d))
        for peak in (0, 3, 64, 90, 127):
            out.append(dict(kind="waveform", n=128, peak=peak))
        for n in range(1, 6 if t else 5):
            for peaks in itertools.product((1, 5, 9), repeat=n):
                out.append(dict(kind="average", peaks=list(peaks)))
        out.append(dict(kind="average", peaks=[3, 8] * 30))
        out.append(dict(kind="average_file"))
        np_ = 8 if t else 6
        for k in range(0, 2 ** np_, 4):
            out.append(dict(kind="dead", sets=[k, k + 1, k + 2, k + 3],
                            n_pixels=np_))
        out.append(dict(kind="dead_file"))
        return out

    def run(self, case, ctx):
        getattr(self, case["kind"])(case, ctx)
        ctx.trace()

    def array(self, case, ctx):
        from CHECLabPy.utils.waveform import shift_array
        n = case["n"]
        shifts = range(-n - 2, n + 3) if n < 128 else (
            -200, -128, -127, -64, -1, 0, 1, 20, 127, 128, 129)
        for dtype in (np.float64, np.float32, np.int64, np.uint16):
            for n_pix in (1, 3):
                arr = waveforms(1, n_pix, n, 4, dtype)[0]
                for num in shifts:
                    for fill in (0, 7, None) + (
                            (np.nan,) if arr.dtype.kind == "f" else ()):
                        keep = arr.copy()
                        got = shift_array(arr, num) if fill is None else \
                            shift_array(arr, num, fill)
                        want = shifted(arr, num, fill or 0)
                        what = "shift %d, fill %s, %d samples" % (
                            num, fill, n)
                        expect(same_values(got, want), lambda: "%s of %s: %s"
                               % (what, arr, got))
                        expect(got.dtype == arr.dtype, "%s: dtype" % what)
                        expect(same_values(arr, keep)
                               and not np.shares_memory(got, arr),
                               "%s: input" % what)
                        ctx.ev()
                        ctx.outcome((n, num, fill))

    def peaked(self, n, peak, n_pixels=3, height=40.0, seed=1):
        """waveforms whose pixel average is highest at `peak`; the highest
        sample of the single pixels is elsewhere for two of them"""
        w = np.asarray(waveforms(1, n_pixels, n, seed)[0]) * 0.05
        w[:, peak] += height
        if n > 2 and n_pixels > 2:
            w[0, (peak + 1) % n] += height + 3
            w[1, (peak + 2) % n] += height + 4
        return w

    def waveform(self, case, ctx):
        from CHECLabPy.utils.waveform import shift_waveform
        n, peak = case["n"], case["peak"]
        w = self.peaked(n, peak)
        if case.get("dtype"):
            # as high as R0 waveforms go
            w = self.peaked(n, peak, 64, 20500, seed=3)
            w = (w - w.min() + 300).astype(case["dtype"])
        for target in range(-2, n + 3) if n < 100 else (
                -130, 0, 20, 63, 100, 127, 140, 300):
            for fill in (None, 0, -5 if w.dtype.kind == "f" else 5):
                keep = w.copy()
                got = shift_waveform(w, target) if fill is None else \
                    shift_waveform(w, target, fill)
                expect(same_values(got, shifted(w, target - peak, fill or 0)),
                       lambda: "peak %d to %d: %s" % (peak, target, got))
                expect(same_values(w, keep), "input changed")
                if 0 <= target < n and n > 2 and not fill:
                    expect(np.argmax(got.mean(0)) == target, "position of "
                           "the highest average")
                ctx.ev()
                ctx.outcome((n, peak, target, fill))

    def averages(self, src, evs, n_pixels, n, target, ctx, what, tol=1e-6):
        from CHECLabPy.utils.waveform import (get_average_wf,
                                              get_average_wf_per_pixel)
        model = Window(evs, 50, 16)
        total = np.zeros((n_pixels, n))
        for w in evs:
            s = model.subtract(w)
            total += shifted(s, target - int(np.argmax(s.mean(0))), 0)
        total /= len(evs)
        expect_close(get_average_wf(src, target), total.mean(0),
                     "%s: average" % what, tol, tol * 10)
        expect_close(get_average_wf_per_pixel(src, target), total,
                     "%s: average of the pixels" % what, tol, tol * 10)
        ctx.ev(2)

    def average(self, case, ctx):
        peaks = case["peaks"]
        n = 18
        evs = [self.peaked(n, p, 3, 30 + 5 * i, seed=i + 1)
               for i, p in enumerate(peaks)]
        for target in (0, 4, 6, 17):
            src = Source(evs)
            self.averages(src, evs, 3, n, target, ctx, "peaks %s to %d" % (
                peaks, target))
            expect(src.untouched(), "waveforms of the source changed")
            ctx.outcome((tuple(peaks), target))

    def average_file(self, case, ctx):
        from CHECLabPy.core.io import TIOReader
        for mx in (None, 1, 2, 4):
            evs = [self.peaked(32, 20 + i, 64, 30 + 5 * i, seed=i + 1)
                   .astype(np.float32) for i in range(7)]
            run = Tio(ctx.path("r1.tio"), 7, samples=np.stack(evs))
            k = {} if mx is None else dict(max_events=mx)
            use = evs[2:6][:mx]
            self.averages(TIOReader(run.path, **k), use, 64, 32, 22, ctx,
                          "file with max_events=%s" % mx, 1e-4)
            ctx.outcome(("file", mx))

    def dead_source(self, dead, n_pixels, n_events, frac):
        """peak heights: 40 for the living, 40*frac for the dead; in every
        event the peak of a dead pixel jitters so that single events exceed
        the threshold while the average waveform does not"""
        evs = []
        n = 10
        for e in range(n_events):
            w = np.zeros((n_pixels, n))
            w[:, 4] = 40 + np.arange(n_pixels) * 0.5
            w[:, 7] = -100
            for p in dead:
                w[p] = 0
                w[p, (2 + e) % n if n_events <= n else 2] = \
                    40 * frac * (n_events if n_events <= n else 1)
            evs.append(w)
        return evs

    def dead(self, case, ctx):
        from CHECLabPy.utils.waveform import obtain_dead_pixel_list_r1
        n_pixels = case["n_pixels"]
        for bits in case["sets"]:
            dead = [p for p in range(n_pixels) if bits >> p & 1]
            for n_events in (1, 3):
                for frac in (0.0, 0.05, 0.3):
                    evs = self.dead_source(dead, n_pixels, n_events, frac)
                    for thr in (None, 0.1, 0.4, 0.9):
                        for mx in (None, 1, 2, 3, 5):
                            use = evs[:mx]
                            h = np.mean(use, 0).max(1)
                            lim = h.mean() * (0.1 if thr is None else thr)
                            if np.any(np.abs(h - lim) < 1e-9):
                                continue
                            k = {}
                            if thr is not None:
                                k["threshold_percent"] = thr
                            if mx is not None:
                                k["max_events"] = mx
                            src = Source(evs)
                            got = obtain_dead_pixel_list_r1(src, **k)
                            want = [p for p in range(n_pixels) if h[p] < lim]
                            expect(list(got) == want, lambda: "dead pixels "
                                   "%s, expected %s (%s, heights %s)" % (
                                       list(got), want, k, h))
                            expect(src.untouched(), "waveforms changed")
                            ctx.ev()
                            ctx.outcome((bits, n_events, frac, thr, mx))

    def dead_file(self, case, ctx):
        from CHECLabPy.core.io import TIOReader
        from CHECLabPy.utils.waveform import obtain_dead_pixel_list_r1
        for total in (1, 4, 105):
            for mx in (None, 1, 3):
                dead = [0, 13, 63]
                evs = self.dead_source(dead, 64, total, 0.02)
                if total > 100:
                    # everything after the default limit is dead
                    evs[100:] = [w * 0 - 50 for w in evs[100:]]
                pad = [np.full((64, 10), 500.0)]
                run = Tio(ctx.path("r1.tio"), total + 3, samples=np.stack(
                    pad * 2 + evs + pad).astype(np.float32))
                k = {} if mx is None else dict(max_events=mx)
                got = obtain_dead_pixel_list_r1(TIOReader(run.path), **k)
                expect(list(got) == dead, lambda: "dead pixels %s" % got)
                if mx:
                    got = obtain_dead_pixel_list_r1(
                        TIOReader(run.path, max_events=mx))
                    expect(list(got) == dead, lambda: "dead pixels %s" % got)
                ctx.ev()
                ctx.outcome((total, mx))


CHECK = C16()
