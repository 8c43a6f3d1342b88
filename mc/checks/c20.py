"""Amplitude calibration, illumination profile, data sheet, R0 to R1."""
import itertools
import os
import numpy as np
import pandas as pd
from mc.engine import Check
from mc.util import expect, expect_close, lcg, raises, same_values
from mc.wf import Tio

KEYS = ("vover", "gain", "opct", "pde")


class C20(Check):
    id = "C20"
    level = "exploration"
    rule = "distinct (function, argument class) evaluations"
    assumptions = ("TargetCalib is a stand-in",)
    bounds = {
        "quick": "every selection with repetition of 3 out of 4 pixels and "
                 "scalars; every row and 3 positions between rows of the "
                 "data sheet for each characteristic, ends and outside; all "
                 "2^4 combinations of arguments; its plot; R0 to R1 for 64 and 2048 "
                 "pixels and every first cell id modulo 8",
        "thorough": "selections of 5 pixels; 31 positions between rows"}

    def setup(self):
        import CHECLabPy.calib  # noqa: F401
        import CHECLabPy.core.io  # noqa: F401

    def cases(self, tier):
        t = tier == "thorough"
        out = [dict(kind="amplitude", first=i, n=5 if t else 3)
               for i in range(4)]
        out += [dict(kind="amplitude_forms"), dict(kind="profile"),
                dict(kind="arguments"), dict(kind="sheet_plot")]
        for k in KEYS:
            out.append(dict(kind="sheet", key=k, parts=32 if t else 4))
            out.append(dict(kind="round_trip", key=k, parts=32 if t else 4))
        for n in (64, 2048):
            out.append(dict(kind="waveforms", n=n))
        out.append(dict(kind="from_reader"))
        return out

    def run(self, case, ctx):
        getattr(self, case["kind"])(case, ctx)
        ctx.trace()

    FF = np.array([1.0, 0.5, 2.0, 1.25])
    PED = np.array([0.0, -3.0, 10.5, 1.0])

    def amplitude(self, case, ctx):
        from CHECLabPy.calib import AmplitudeCalibrator
        ff, ped = self.FF.copy(), self.PED.copy()
        for conv in (1.0, 4.0, 0.37):
            cal = AmplitudeCalibrator(ff, ped, conv)
            for rest in itertools.product(range(4), repeat=case["n"] - 1):
                pix = np.array((case["first"],) + rest)
                val = np.array([5.0 * i - 7 + p for i, p in enumerate(pix)])
                keep = val.copy()
                got = cal(val, pix)
                want = [(v - self.PED[p]) * self.FF[p] / conv
                        for v, p in zip(keep, pix)]
                expect_close(got, want, "pixels %s" % pix, 1e-9, 1e-9)
                expect(same_values(val, keep), "values changed")
                ctx.ev()
                ctx.outcome((conv, tuple(pix)))
        expect(same_values(ff, self.FF) and same_values(ped, self.PED),
               "coefficients changed")

    def amplitude_forms(self, case, ctx):
        from CHECLabPy.calib import AmplitudeCalibrator
        cal = AmplitudeCalibrator(self.FF.copy(), self.PED.copy(), 4.0)
        for p in range(4):
            for v in (0, 10, -2.5):
                for pix in (p, np.int64(p)):
                    got = cal(v, pix)
                    expect(np.ndim(got) == 0, "scalar")
                    expect_close(got, (v - self.PED[p]) * self.FF[p] / 4,
                                 "value %s pixel %s" % (v, p))
                    ctx.ev()
        # two-dimensional, and the columns of a DL1 file
        pix = np.array([[0, 1, 2], [3, 2, 1]])
        val = np.arange(6.0).reshape((2, 3))
        expect_close(cal(val, pix), (val - self.PED[pix]) * self.FF[pix] / 4,
                     "2D")
        df = pd.DataFrame(dict(pixel=[3, 3, 0, 1], charge=[1., 2., 3., 4.]))
        expect_close(cal(df["charge"].values, df["pixel"].values),
                     (df.charge - self.PED[df.pixel]) * self.FF[df.pixel] / 4,
                     "columns")
        # the pedestal calibrates to nothing
        expect_close(cal(self.PED, np.arange(4)), np.zeros(4), "pedestal")
        ctx.outcome("forms")

    def profile(self, case, ctx):
        from CHECLabPy.calib import IlluminationProfile, get_calib_data
        shipped = get_calib_data("illumination_profile/mpik_190414.dat")
        own = ctx.path("profile.dat")
        pd.DataFrame(dict(pixel=np.arange(2048), correction=np.linspace(
            0.3, 2.1, 2048))).to_csv(own, sep="\t", index=False)
        other = ctx.path("profile2.dat")
        pd.DataFrame(dict(correction=np.linspace(0.9, 0.2, 2048),
                          pixel=np.arange(2048),
                          angle=np.linspace(0, 4, 2048))).to_csv(
                              other, sep="\t", index=False)
        for path in (shipped, own, other):
            corr = pd.read_csv(path, sep="\t")["correction"].values
            ip = IlluminationProfile(path)
            for image in (np.ones(2048), lcg(2048, 3) * 0.5, np.zeros(2048),
                          lcg(2048 * 3, 4).reshape((3, 2048)) * 1.0):
                keep = image.copy()
                un, fo = ip.unfold(image), ip.fold(image)
                expect_close(un, keep / corr, "unfold")
                expect_close(fo, keep * corr, "fold")
                expect_close(ip.fold(un), keep, "fold of unfold")
                expect_close(ip.unfold(fo), keep, "unfold of fold")
                expect(same_values(image, keep), "image changed")
                ctx.ev(4)
                ctx.outcome((os.path.basename(path), keep.shape))

    def table(self):
        from CHECLabPy.calib import get_calib_data
        return pd.read_csv(get_calib_data("sipm_data_sheet.csv"))

    def sheet(self, case, ctx):
        from CHECLabPy.calib import SiPMDataSheetConverter
        conv = SiPMDataSheetConverter()
        t = self.table()
        key = case["key"]
        t = t[~t[key].isna()].sort_values(key)
        x = t[key].values
        for i in range(len(t)):
            for part in range(case["parts"]):
                if part and i == len(t) - 1:
                    break
                f = part / case["parts"]
                v = x[i] if not part else x[i] + f * (x[i + 1] - x[i])
                got = conv(**{key: v})
                expect(set(got) == set(KEYS), "keys %s" % list(got))
                for c in KEYS:
                    y = t[c].values
                    if part:
                        want = y[i] + f * (y[i + 1] - y[i])
                    else:
                        want = y[i]
                        if np.isnan(want) or np.isnan(
                                y[max(i - 1, 0)] + y[min(i + 1,
                                                         len(t) - 1)]):
                            continue
                    g = float(got[c])
                    expect(np.isnan(want) == np.isnan(g) and (
                        np.isnan(g) or abs(g - want) <= 1e-9 * abs(want)
                        + 1e-12), lambda: "%s=%r: %s is %r, expected %r" % (
                            key, v, c, g, want))
                ctx.ev()
                ctx.outcome((key, i, part))
        # outside of the sheet nothing is invented
        for v in (x[0] - 0.1 * abs(x[0]), x[-1] * 1.1, -1.0, 1e9, 0.0, 0):
            if x[0] <= v <= x[-1]:
                continue
            try:
                got = conv(**{key: v})
            except ValueError:
                continue
            expect(all(np.isnan(float(g)) for g in got.values()), lambda:
                   "%s=%r is outside of the data sheet: %s" % (key, v, got))
            ctx.ev()

    def sheet_plot(self, case, ctx):
        """the curves of the data sheet are its values, told by the legend"""
        from matplotlib import pyplot as plt
        from CHECLabPy.calib import SiPMDataSheetConverter
        plt.close("all")
        conv = SiPMDataSheetConverter()
        conv.plot()
        t = self.table()
        fig = plt.gcf()
        lines = {li.get_label().lower(): li for ax in fig.axes
                 for li in ax.get_lines()}
        for key in ("gain", "pde", "opct"):
            li = lines.get(key)
            expect(li is not None, "no curve of %s in %s" % (key,
                                                            list(lines)))
            expect(same_values(np.asarray(li.get_xdata(), float),
                               t["vover"].values.astype(float))
                   and same_values(np.asarray(li.get_ydata(), float),
                                   t[key].values.astype(float)),
                   "the curve of %s" % key)
            lo, hi = sorted(li.axes.get_ylim())
            y = t[key].dropna().values
            expect(lo <= y.min() and y.max() <= hi, "%s is cut: %s of %s" % (
                key, (y.min(), y.max()), (lo, hi)))
            ctx.ev()
        leg = [q.get_legend() for q in fig.axes if q.get_legend()]
        expect(len(leg) == 1, "%d legends" % len(leg))
        got = {a.get_text().lower(): b.get_color() for a, b in zip(
            leg[0].get_texts(), leg[0].get_lines())}
        want = {k: lines[k].get_color() for k in ("gain", "pde", "opct")}
        expect(got == want, lambda: "legend %s, curves %s" % (got, want))
        plt.close("all")
        ctx.outcome("sheet_plot")

    def round_trip(self, case, ctx):
        from CHECLabPy.calib import SiPMDataSheetConverter
        conv = SiPMDataSheetConverter()
        t = self.table().dropna()
        key = case["key"]
        lo, hi = t[key].min(), t[key].max()
        n = 10 * case["parts"] + 1
        last = None
        for v in np.linspace(lo * 1.0001, hi * 0.9999, n):
            first = conv(**{key: v})
            for other in KEYS:
                back = conv(**{other: float(first[other])})
                for c in KEYS:
                    expect_close(back[c], first[c], "%s from %s=%r through "
                                 "%s" % (c, key, v, other), 1e-6, 1e-9)
                ctx.ev()
            now = [float(first[c]) for c in KEYS]
            expect(last is None or all(a < b for a, b in zip(last, now)),
                   "the characteristics rise together")
            last = now
        ctx.outcome((key, "round"))

    def arguments(self, case, ctx):
        from CHECLabPy.calib import SiPMDataSheetConverter
        conv = SiPMDataSheetConverter()
        ok = dict(vover=2.5, gain=1e6, opct=0.3, pde=0.3)
        for bits in range(16):
            k = {c: ok[c] for i, c in enumerate(KEYS) if bits >> i & 1}
            if len(k) == 1:
                conv(**k)
            else:
                raises(ValueError, lambda: conv(**k), "arguments %s" % k)
            none = {c: ok[c] if bits >> i & 1 else None
                    for i, c in enumerate(KEYS)}
            if len(k) == 1:
                a, b = conv(**k), conv(**none)
                expect(all(float(a[c]) == float(b[c]) for c in KEYS),
                       "None is like absent")
            else:
                raises(ValueError, lambda: conv(**none), "arguments")
            ctx.ev()
            ctx.outcome(bits)

    def check_r1(self, r0, fci, r1, what):
        n = r0.shape[0]
        ped = 100 + np.arange(n) % 7
        want = (np.asarray(r0, np.float32) - ped[:, None]
                - np.float32(0.25 * (fci % 4)))
        a = np.asarray(r1)
        expect(a.dtype == np.float32, "%s: dtype" % what)
        expect(same_values(a, want.astype(np.float32)), "%s: values" % what)
        expect(bool(r1.is_r1), "%s: is_r1" % what)

    def waveforms(self, case, ctx):
        from CHECLabPy.calib import WaveformCalibrator
        from CHECLabPy.core.io import TIOReader
        n = case["n"]
        for sn in (None, [3, 5]):
            cal = WaveformCalibrator("ped.tcal", n, 4, sn)
            raw = (lcg(11 * n * 4, 9, 0, 900).reshape((11, n, 4))
                   ).astype(np.uint16)
            raw[:, 0, 0], raw[:, -1, 2], raw[5:7, 3] = 0, 65535, 0
            run = Tio(ctx.path("r0.tio"), 11, n, 4, r1=False, samples=raw,
                      first_cell_id=[7 * i for i in range(8)]
                      + [4095, 16383, 8192])
            reader = TIOReader(run.path)
            kept = []
            for i, wf in enumerate(reader):
                fci = run.spec["first_cell_id"][i + 2]
                keep = np.array(wf)
                r1 = cal(wf, fci)
                what = "event %d of %d pixels" % (i, n)
                self.check_r1(keep, fci, r1, what)
                expect(same_values(np.asarray(wf), keep)
                       and not bool(wf.is_r1), "%s: R0 changed" % what)
                expect(r1.iev == i and r1.t_tack == wf.t_tack
                       and r1.first_cell_id == fci,
                       "%s: attributes" % what)
                kept.append((keep, fci, r1))
                ctx.ev()
                ctx.outcome((n, sn is None, i))
            for keep, fci, r1 in kept:
                self.check_r1(keep, fci, r1, "afterwards")

    def from_reader(self, case, ctx):
        import target_calib
        import target_io
        from CHECLabPy.calib import WaveformCalibrator
        from CHECLabPy.core.io import TIOReader
        for n in (64, 128, 2048):
            run = Tio(ctx.path("r0.tio"), 5, n, 4, r1=False)
            reader = TIOReader(run.path)
            del target_calib.CALLS[:]
            cal = WaveformCalibrator.from_tio_reader("p.tcal", reader)
            sns = tuple(target_io.serial(i) for i in range(n // 64))
            expect(("CalibratorMultiFile", "p.tcal", sns) in
                   target_calib.CALLS, lambda: "serial numbers: %s" %
                   target_calib.CALLS)
            expect((cal.n_pixels, cal.n_samples) == (n, 4), "size")
            wf = reader[1]
            self.check_r1(np.array(wf), run.spec["first_cell_id"][3],
                          cal(wf, wf.first_cell_id), "from_tio_reader")
            ctx.ev()
            ctx.outcome(("reader", n))


CHECK = C20()
