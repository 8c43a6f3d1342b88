"""Models of the single photoelectron spectrum."""
import functools
import itertools
from math import comb, exp, lgamma, log
import numpy as np
from mc.engine import Check
from mc.util import expect, expect_close, same_values

GENTILE = ["eped", "eped_sigma", "spe", "spe_sigma", "opct", "lambda_"]
MAPM = ["eped", "eped_sigma", "spe", "spe_sigma", "lambda_"]


def normal(x, m, s):
    x = np.asarray(x, dtype=float)
    return np.exp(-0.5 * ((x - m) / s) ** 2) / (s * np.sqrt(2 * np.pi))


@functools.lru_cache(maxsize=None)
def weights(lam, opct=None, n=100):
    """probability of k fired cells, of up to n and while there are more"""
    def poisson(j):
        if lam == 0:
            return 1.0 if j == 0 else 0.0
        return exp(j * log(lam) - lam - lgamma(j + 1))
    out = [exp(-lam)]
    for k in range(1, 400):
        if k >= n and sum(out) > 1 - 1e-7:
            break
        if opct is None:
            out.append(poisson(k))
        else:
            out.append(sum(poisson(j) * (1 - opct) ** j * opct ** (k - j)
                           * comb(k - 1, j - 1) for j in range(1, k + 1)))
    return out


def spectrum(x, eped, eped_sigma, spe, spe_sigma, lam, opct=None):
    """(spectrum, bound of the contributions the code may neglect)"""
    w = weights(lam, opct)
    y = w[0] * normal(x, eped, eped_sigma)
    neglect = np.zeros_like(y)
    for k in range(1, len(w)):
        s = np.sqrt(k * spe_sigma ** 2 + eped_sigma ** 2)
        c = normal(x, eped + k * spe, s)
        y = y + w[k] * c
        # terms below 1e-4 may be neglected
        skipped = 0.0
        if opct is not None:
            for j in range(1, k + 1):
                pj = exp(j * log(lam) - lam - lgamma(j + 1)) if lam else 0.0
                if pj < 1.05e-4:
                    skipped += pj * (1 - opct) ** j * opct ** (k - j) \
                        * comb(k - 1, j - 1)
        if w[k] < 1.1e-4 + skipped and k > lam or k >= 100:
            skipped = w[k]
        neglect = neglect + skipped * c
    return y, neglect


class C23(Check):
    id = "C23"
    level = "exploration"
    rule = "distinct parameter sets"
    assumptions = (
        "contributions with a probability below 1e-4 may be neglected",
        "single precision charges", "widths of the pedestal above zero")
    bounds = {
        "quick": "grids of 3 pedestals x 2 widths x 3 gains x 2 spreads x 7 "
                 "crosstalk values x 12 illuminations, 160 charges",
        "thorough": "grids of 4 x 3 x 4 x 3 x 10 x 21, 400 charges"}

    def setup(self):
        import CHECLabPy.spectrum_fitters.gentile as g
        import CHECLabPy.spectrum_fitters.mapm  # noqa: F401
        g.sipm_gentile_spe(np.zeros(3, np.float32), 0., 1., 2., .5, .1, 1.)

    def grid(self, tier):
        if tier == "thorough":
            return ([-5., 0., 1.5, 10.], [0.3, 2., 9.], [1., 8., 25., 40.],
                    [0.05, 2., 6.],
                    [0., 0.01, 0.05, 0.1, 0.2, 0.3, 0.4, 0.6, 0.7, 0.8],
                    [0., 1e-4, 1e-3, .01, .05, .1, .3, .5, .7, 1., 1.5, 2.,
                     3., 4., 5., 6., 9., 11.5, 12.5, 16., 25.])
        return ([-5., 0., 1.5], [0.3, 9.], [1., 8., 25.], [0.05, 2.],
                [0., 0.01, 0.05, 0.2, 0.4, 0.6, 0.8],
                [0., 1e-3, .01, .05, .3, .7, 1., 2., 4., 6., 12., 20.])

    def cases(self, tier):
        out = []
        peds, sigmas, spes, ssig, opcts, lams = self.grid(tier)
        for e, o in itertools.product(peds, opcts):
            out.append(dict(kind="gentile", eped=e, opct=o))
        # numba runs this one with threads: few cases, each compiles
        for i in range(2):
            out.append(dict(kind="mapm", part=i))
        out += [dict(kind="lookup", fitter="gentile"),
                dict(kind="lookup", fitter="mapm"),
                dict(kind="moments"), dict(kind="curves"),
                dict(kind="likelihood", name="SiPMGentileFitter"),
                dict(kind="likelihood", name="MAPMFitter")]
        return out

    def run(self, case, ctx):
        getattr(self, case["kind"])(case, ctx)
        ctx.trace()

    def axis(self, ctx, eped, spe, sig, mean=0):
        n = 400 if ctx.tier == "thorough" else 160
        lo, hi = eped - 4 * sig, eped + (12 + 1.5 * mean) * spe + 4 * sig
        return np.linspace(lo, hi, n, dtype=np.float32)

    def compare(self, got, x, want, neglect, what, sigma):
        got = np.asarray(got, dtype=float)
        # float32 charges: position error relative to the narrowest peak
        dx = np.abs(np.asarray(x, float)).max() * 6e-8 * 2
        tol = want.max() * (1e-6 + dx / sigma)
        expect(got.shape == want.shape, "%s: shape" % what)
        over = got > want + tol
        under = got < want - neglect - tol
        bad = np.nonzero(over | under)[0]
        expect(len(bad) == 0, lambda: "%s: at charge %r the spectrum is %r, "
               "expected %r (may neglect %r)" % (
                   what, x[bad[0]], got[bad[0]], want[bad[0]],
                   neglect[bad[0]]))

    def gentile(self, case, ctx):
        from CHECLabPy.spectrum_fitters.gentile import sipm_gentile_spe
        peds, sigmas, spes, ssig, opcts, lams = self.grid(ctx.tier)
        e, o = case["eped"], case["opct"]
        for s, g, gs, lam in itertools.product(sigmas, spes, ssig, lams):
            x = self.axis(ctx, e, g, s, lam / (1 - o))
            keep = x.copy()
            got = sipm_gentile_spe(x, e, s, g, gs, o, lam)
            want, neg = spectrum(x, e, s, g, gs, lam, o)
            self.compare(got, x, want, neg, "eped=%s sigma=%s spe=%s spread="
                         "%s opct=%s lambda=%s" % (e, s, g, gs, o, lam), s)
            expect(same_values(x, keep), "charges changed")
            ctx.ev()
            ctx.outcome((e, s, g, gs, o, lam))

    def mapm(self, case, ctx):
        from CHECLabPy.spectrum_fitters.gentile import sipm_gentile_spe
        from CHECLabPy.spectrum_fitters.mapm import mapm_spe
        peds, sigmas, spes, ssig, _, lams = self.grid(ctx.tier)
        for i, (e, s, g, gs, lam) in enumerate(itertools.product(
                peds, sigmas, spes, ssig, lams)):
            if i % 2 != case["part"]:
                continue
            x = self.axis(ctx, e, g, s, lam)
            got = mapm_spe(x, e, s, g, gs, lam)
            want, neg = spectrum(x, e, s, g, gs, lam)
            what = "eped=%s sigma=%s spe=%s spread=%s lambda=%s" % (
                e, s, g, gs, lam)
            self.compare(got, x, want, neg, what, s)
            same = sipm_gentile_spe(x, e, s, g, gs, 0., lam)
            expect_close(got, same, "%s: without crosstalk the models agree"
                         % what, 1e-4, 2e-4 * want.max() + 2e-4 / s)
            ctx.ev()
            ctx.outcome((e, s, g, gs, lam))

    PAR = dict(eped=1.5, eped_sigma=3., spe=20., spe_sigma=2., opct=0.25,
               lambda_=0.8)

    def lookup(self, case, ctx):
        """parameters are found through the lookup, in any order"""
        import importlib
        from numba import types, typed
        m = importlib.import_module("CHECLabPy.spectrum_fitters."
                                    + case["fitter"])
        names = GENTILE if case["fitter"] == "gentile" else MAPM
        x = np.linspace(-20, 120, 141, dtype=np.float32)
        k = dict(self.PAR)
        if case["fitter"] == "mapm":
            k.pop("opct")
        want, neg = spectrum(x, k["eped"], k["eped_sigma"], k["spe"],
                             k["spe_sigma"], k["lambda_"], k.get("opct"))
        for perm in itertools.permutations(names):
            d = typed.Dict.empty(key_type=types.unicode_type,
                                 value_type=types.intp)
            for i, n in enumerate(perm):
                d[n] = i
            got = m.calculate_spectrum(x, d, *[k[n] for n in perm])
            self.compare(got, x, want, neg, "order %s" % (perm,), 3.)
            ctx.ev()
            ctx.outcome((case["fitter"], perm))

    def moments(self, case, ctx):
        """total, mean and variance of the charge"""
        from CHECLabPy.spectrum_fitters.gentile import sipm_gentile_spe
        for lam, o, g in itertools.product(
                (0.1, 0.5, 1.0, 2.0, 4.0, 14.0), (0., 0.1, 0.3, 0.5), (10., 25.)):
            x = np.linspace(-40, 2460, 25001, dtype=np.float32)
            y = np.asarray(sipm_gentile_spe(x, 2., 4., g, 2., o, lam))
            xx = x.astype(float)
            w = np.full(len(xx), xx[1] - xx[0])
            total = (y * w).sum()
            expect(abs(total - 1) < 4e-3, lambda: "total %r for lambda=%s "
                   "opct=%s" % (total, lam, o))
            mean = (y * xx * w).sum()
            ideal = 2 + g * lam / (1 - o)
            expect(abs(mean - ideal) < 0.012 * ideal + 0.02, lambda:
                   "mean charge %r, expected %r (lambda=%s opct=%s spe=%s)"
                   % (mean, ideal, lam, o, g))
            ctx.ev()
            ctx.outcome(("moments", lam, o, g))

    def curves(self, case, ctx):
        """the spectrum of each illumination of the fitter"""
        from CHECLabPy.core.factory import SpectrumFitterFactory as F
        x = np.linspace(-20, 120, 141, dtype=np.float32)
        for name, base in itertools.product(
                ("SiPMGentileFitter", "MAPMFitter"), (0.5, 0.01)):
            for n in (1, 2, 3):
                f = F.produce(name, n)
                vals = {}
                for nm in f.parameters.parameter_names:
                    vals[nm] = self.PAR.get(nm)
                    if nm.startswith("lambda_"):
                        vals[nm] = base + 0.4 * int(nm[len("lambda_"):])
                got = f._get_spectra(n, x, f.parameters.lookup_typed,
                                     *vals.values())
                expect(len(got) == n, "number of spectra")
                p = self.PAR
                for i in range(n):
                    want, neg = spectrum(
                        x, p["eped"], p["eped_sigma"], p["spe"],
                        p["spe_sigma"], base + 0.4 * i,
                        p["opct"] if "Gentile" in name else None)
                    self.compare(got[i], x, want, neg, "%s illumination %d "
                                 "of %d" % (name, i, n), 3.)
                ctx.ev()
                ctx.outcome((name, base, n))

    def likelihood(self, case, ctx):
        """-2 log of the Poisson probability of the counts, for the spectrum
        with the area of the histogram"""
        from scipy.special import gammaln
        from CHECLabPy.core.factory import SpectrumFitterFactory as F
        p = self.PAR
        sipm = "Gentile" in case["name"]
        for n in (1, 2, 3):
            f = F.produce(case["name"], n)
            # ranges that hold all, and only a part, of the spectrum
            for lo, hi, bins in ((-20, 120, 70), (-6, 30, 36), (5, 60, 22),
                                 (-40, 120, 80)):
                e = np.linspace(lo, hi, bins + 1)
                x = ((e[1:] + e[:-1]) / 2).astype(np.float32)
                shape = [spectrum(x, p["eped"], 4., p["spe"], p["spe_sigma"],
                                  0.7 + 0.3 * i,
                                  0.2 if sipm else None)[0]
                         for i in range(n)]
                for scale in (1., 500., 20000.):
                    y = np.array([np.floor(s * scale * (i + 1))
                                  for i, s in enumerate(shape)])
                    if y.sum(1).min() == 0:
                        y[:, bins // 2] += 1
                    if lo == -40:  # counts far from every peak
                        y[:, 0] += 1
                        y[-1, 2] += 3
                    vals = {}
                    for nm in f.parameters.parameter_names:
                        vals[nm] = p.get(nm)
                        if nm == "eped_sigma":
                            vals[nm] = 4.
                        if nm.startswith("lambda_"):
                            vals[nm] = 0.5 + 0.4 * int(nm[len("lambda_"):])
                    got = f._get_likelihood(
                        n, x, y.astype(np.float32),
                        f.parameters.lookup_typed, *vals.values())
                    want = 0
                    for i in range(n):
                        s, _ = spectrum(x, p["eped"], 4., p["spe"],
                                        p["spe_sigma"], 0.5 + 0.4 * i,
                                        p["opct"] if sipm else None)
                        mu = s * trapz(y[i], x) / trapz(s, x)
                        k = y[i]
                        want += -2 * (k * np.log(mu) - mu
                                      - gammaln(k + 1)).sum()
                    tol = 1e-3 * abs(want) + 1e-4 * y.sum() + 0.05
                    expect(abs(got - want) <= tol, lambda: "%s, %d "
                           "illuminations, range %s: likelihood %r, expected "
                           "%r" % (case["name"], n, (lo, hi), got, want))
                    ctx.ev()
                    ctx.outcome((case["name"], n, lo, scale))


def trapz(y, x):
    x = np.asarray(x, dtype=float)
    return ((y[1:] + y[:-1]) / 2 * np.diff(x)).sum()


CHECK = C23()
