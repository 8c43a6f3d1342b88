"""Fits of charge spectra: histogram, limits, fixed parameters, isolation."""
import itertools
import numpy as np
from mc.engine import Check
from mc.util import expect, expect_close, same_values

SEEN = []


def toy(n_ill, multi=("mean",), limits=None, fixed=(), initial=None,
        n_bins=40, range_=(-10, 10)):
    from CHECLabPy.core.spectrum_fitter import (
        SpectrumFitter, SpectrumParameter, SpectrumParameterCollection)
    lim = dict(mean=(-9, 9), std=(0.2, 5), amp=(0.1, 3))
    lim.update(limits or {})
    ini = dict(mean=0.5, std=1.5, amp=1.0)
    ini.update(initial or {})

    class Toy(SpectrumFitter):
        def __init__(self, n):
            super().__init__(n)
            self.parameters = SpectrumParameterCollection([
                SpectrumParameter(k, ini[k], lim[k], k in fixed, k in multi)
                for k in ("mean", "std", "amp")], n)
            self.n_bins = n_bins
            self.range = range_

        @staticmethod
        def _get_spectra(n, data_x, lookup, *v):
            out = []
            for i in range(n):
                m, s, a = [v[lookup[i][k]] for k in ("mean", "std", "amp")]
                x = np.asarray(data_x, dtype=float)
                out.append(a * np.exp(-0.5 * ((x - m) / s) ** 2) / s
                           / np.sqrt(2 * np.pi))
            return out

        @staticmethod
        def _get_likelihood(n, data_x, data_y, lookup, *v):
            ys = [np.array(data_y[i]) for i in range(n)]
            SEEN[:] = [np.array(data_x), ys]
            total = 0.0
            w = (data_x[1] - data_x[0]) if len(data_x) > 1 else 1.0
            for i, s in enumerate(Toy._get_spectra(n, data_x, lookup, *v)):
                y = ys[i]
                want = s * y.sum() * w
                total += np.sum((y - want) ** 2 / (y + 1))
            return total

    return Toy(n_ill)


def sample(mean, std, n=400):
    """quantiles of a normal distribution"""
    from scipy.stats import norm
    return norm.ppf((np.arange(n) + 0.5) / n) * std + mean


def counts(values, n, lo, hi):
    out = np.zeros(n)
    edges = np.linspace(lo, hi, n + 1)
    for v in values:
        if lo <= v <= hi:
            out[min(sum(e <= v for e in edges[1:]), n - 1)] += 1
    return out


SETS = {
    "A": [sample(-2, 0.8), sample(3, 0.8)],
    "B": [sample(4, 1.2), sample(-4, 1.2)],
    "C": [sample(0, 2.0, 150), sample(1, 2.0, 600)],
}


def values(f):
    return dict(f.fit_result_values)


class C22(Check):
    id = "C22"
    level = "model_checking"
    rule = "distinct (charges, bins) histograms and (history, fit) results"
    assumptions = ("charges are finite", "at least one charge inside the "
                   "range for fits")
    bounds = {
        "quick": "all sets of up to 3 charges on and between the bin edges, "
                 "1..4 bins, 3 ranges; every history of 4 fits over 3 data "
                 "sets; every combination of 3 limits and fixed for 3 "
                 "parameters; 1..3 illuminations in every order; the two "
                 "shipped fitters",
        "thorough": "histories of 6 fits, 4 charges, 6 bins"}

    def setup(self):
        import CHECLabPy.core.spectrum_fitter  # noqa: F401
        import CHECLabPy.core.factory  # noqa: F401
        f = toy(2)
        f.apply(*SETS["A"])

    def cases(self, tier):
        t = tier == "thorough"
        out = [dict(kind="shipped", name="MAPMFitter"),
               dict(kind="shipped", name="SiPMGentileFitter")]
        for n in range(1, 7 if t else 5):
            for r in ((0, 4), (-2, 2), (-1, 3)):
                out.append(dict(kind="histogram", n=n, range=list(r),
                                k=4 if t and n < 4 else 3))
        for first in itertools.product(sorted(SETS), repeat=2):
            out.append(dict(kind="history", first=list(first),
                            more=4 if t else 2))
        kinds = ("free", "low", "high", "fixed")
        for a, b in itertools.product(kinds, repeat=2):
            out.append(dict(kind="limits", a=a, b=b))
        for n in (1, 2, 3):
            for multi in ([], ["mean"], ["mean", "std"],
                          ["mean", "std", "amp"]):
                out.append(dict(kind="order", n=n, multi=multi))
        out.append(dict(kind="two"))
        out.append(dict(kind="number"))
        out += [dict(kind="undefined", k=k, side=s)
                for k in ("mean", "std", "amp") for s in (-1, 1)]
        return out

    def run(self, case, ctx):
        getattr(self, case["kind"])(case, ctx)
        ctx.trace()

    def check_histogram(self, f, charges, what):
        n, (lo, hi) = f.n_bins, f.range
        x, y, edges = f.charge_histogram
        e = lo + (hi - lo) * np.arange(n + 1) / n
        expect_close(edges, e, "%s: edges" % what, 1e-6, 1e-6)
        expect_close(x, (e[1:] + e[:-1]) / 2, "%s: centres" % what, 1e-6,
                     1e-6)
        expect(len(y) == len(charges), "%s: illuminations" % what)
        for i, c in enumerate(charges):
            expect_close(y[i], counts(c, n, lo, hi), "%s: histogram %d" % (
                what, i), 0, 0)
        return x, y

    def histogram(self, case, ctx):
        n, (lo, hi) = case["n"], case["range"]
        w = (hi - lo) / n
        pts = [lo - 1.0, lo, hi, hi + 0.5]
        pts += [lo + (i + 0.5) * w for i in range(n)]
        if w * 1024 == int(w * 1024):
            pts += [lo + i * w for i in range(1, n)]
            pts += [np.nextafter(lo + (n - 1) * w, -9), np.nextafter(lo, -9),
                    np.nextafter(hi, 9)]
        f = toy(2, n_bins=n, range_=(lo, hi), fixed=("mean", "std"),
                initial=dict(mean=(lo + hi) / 2, std=hi - lo))
        for k in range(1, case["k"] + 1):
            for c in itertools.combinations_with_replacement(pts, k):
                one = np.array(c)
                two = np.array(pts[:3])
                keep = one.copy()
                f.apply(one, two)
                x, y = self.check_histogram(f, [c, two], "charges %s" % (c,))
                expect(same_values(one, keep), "charges changed")
                if SEEN:
                    expect_close(SEEN[0], x, "likelihood: centres")
                    expect_close(SEEN[1][0], y[0], "likelihood: counts 0")
                    expect_close(SEEN[1][1], y[1], "likelihood: counts 1")
                ctx.ev()
                ctx.step()
                ctx.state((n, lo, c))
        ctx.outcome((n, lo))

    def fresh(self, name):
        f = toy(2)
        f.apply(*SETS[name])
        return f

    def same_fit(self, f, g, what):
        a, b = values(f), values(g)
        expect(list(a) == list(b), "%s: names" % what)
        for k in a:
            expect(abs(a[k] - b[k]) < 1e-9, lambda: "%s: %s is %r, a new "
                   "fitter gives %r" % (what, k, a[k], b[k]))
            expect(abs(f.fit_result_errors[k] - g.fit_result_errors[k])
                   < 1e-9, "%s: error of %s" % (what, k))
        for p, q in zip(f.fit_result_curve[1], g.fit_result_curve[1]):
            expect_close(p, q, "%s: curve" % what)

    def history(self, case, ctx):
        base = {k: self.fresh(k) for k in SETS}
        for k, (c0, c1) in SETS.items():
            v = values(base[k])
            for i, c in enumerate((c0, c1)):
                expect(abs(v["mean%d" % i] - c.mean()) < 0.05 * c.std(),
                       lambda: "fit of %s: %s" % (k, v))
        for rest in itertools.product(sorted(SETS), repeat=case["more"]):
            seq = case["first"] + list(rest)
            f = toy(2)
            kept = []
            for i, k in enumerate(seq):
                f.apply(*SETS[k])
                what = "fit %d of %s" % (i, seq)
                self.same_fit(f, base[k], what)
                kept.append((k, f.fit_result_values, f.charge_histogram[1]))
                ctx.step()
                ctx.ev()
                ctx.state(tuple(seq[:i + 1]))
            for k, v, y in kept:
                expect(dict(v) == values(base[k]), "an earlier result of %s "
                       "changed" % seq)
                expect_close(y[0], base[k].charge_histogram[1][0],
                             "an earlier histogram changed")
            ctx.outcome(tuple(seq))

    def limits(self, case, ctx):
        """data with mean 1, std 1.5"""
        data = [sample(1.0, 1.5, 800)]
        for c in ("free", "low", "high", "fixed"):
            limits, fixed, ini = {}, [], {}
            if case["a"] == case["b"] == c == "fixed":
                continue  # iminuit cannot fit nothing
            for k, kind, best, width in (("mean", case["a"], 1.0, 0.5),
                                         ("std", case["b"], 1.5, 0.3),
                                         ("amp", c, 1.0, 0.2)):
                if kind == "low":    # optimum below the limits
                    limits[k] = (best + width, best + 2 * width)
                    ini[k] = best + 1.5 * width
                elif kind == "high":
                    limits[k] = (best - 2 * width, best - width)
                    ini[k] = best - 1.5 * width
                elif kind == "fixed":
                    fixed.append(k)
                    ini[k] = best + 0.123
            f = toy(1, (), limits, fixed, ini)
            f.apply(*data)
            v = values(f)
            for k, lim in limits.items():
                expect(lim[0] - 1e-12 <= v[k] <= lim[1] + 1e-12, lambda:
                       "%s=%r outside of its limits %s" % (k, v[k], lim))
            for k in fixed:
                expect(v[k] == ini[k], lambda: "%s is fixed at %r, result %r"
                       % (k, ini[k], v[k]))
            if not limits and not fixed:
                for k, best in (("mean", 1), ("std", 1.5), ("amp", 1)):
                    expect(abs(v[k] - best) < 0.05, lambda: "fit %s" % v)
            self.curve(f, data, "limits")
            ctx.ev()
            ctx.step()
            ctx.state(repr((case, c)))
            ctx.outcome((case["a"], case["b"], c))

    def curve(self, f, data, what):
        x, y = f.fit_result_curve
        hx, hy, _ = f.charge_histogram
        expect(len(y) == len(data) and x[0] == f.range[0]
               and abs(x[-1] - f.range[1]) < 1e-5, "%s: range" % what)
        spec = f._get_spectra(f.n_illuminations, x, f.parameters.lookup_typed,
                              *values(f).values())
        for i in range(len(data)):
            # the area under the histogram
            area = np.trapezoid(hy[i], hx) if hasattr(np, "trapezoid") \
                else np.trapz(hy[i], hx)
            got = np.trapezoid(y[i], x) if hasattr(np, "trapezoid") \
                else np.trapz(y[i], x)
            expect(abs(got - area) <= 1e-3 * max(area, 1), lambda: "%s: area "
                   "%r, expected %r" % (what, got, area))
            expect_close(y[i] / max(y[i].max(), 1e-30),
                         spec[i] / max(spec[i].max(), 1e-30),
                         "%s: shape of curve %d" % (what, i), 1e-4, 1e-5)

    def order(self, case, ctx):
        n, multi = case["n"], case["multi"]
        base = [sample(-3, 0.9), sample(0.5, 1.1, 300), sample(4, 1.0, 500)]
        ref = None
        for perm in itertools.permutations(range(n)):
            f = toy(n, multi)
            data = [base[i] for i in perm]
            f.apply(*data)
            self.check_histogram(f, data, "order %s" % (perm,))
            self.curve(f, data, "order %s" % (perm,))
            v = values(f)
            want = [k + str(i) for k in ("mean", "std", "amp")
                    for i in (range(n) if k in multi else [""])]
            expect(sorted(v) == sorted(want), lambda: "results %s" % list(v))
            if ref is None:
                ref = v
            for k in ("mean", "std", "amp"):
                for pos, i in enumerate(perm):
                    g = v[k + str(pos)] if k in multi else v[k]
                    w = ref[k + str(i)] if k in multi else ref[k]
                    if "mean" in multi or n == 1:
                        expect(abs(g - w) < 0.03, lambda: "order %s: %s of "
                               "illumination %d is %r, expected %r" % (
                                   perm, k, i, g, w))
            ctx.ev()
            ctx.step()
            ctx.state((n, tuple(multi), perm))
            ctx.outcome((n, tuple(multi), perm))

    def two(self, case, ctx):
        for seq in itertools.product("AB", "AC", (0, 1), (0, 1)):
            fs = [toy(2), toy(2)]
            want = [None, None]
            for name, w in zip(seq[:2], seq[2:]):
                fs[w].apply(*SETS[name])
                want[w] = name
                for i in (0, 1):
                    if want[i]:
                        self.same_fit(fs[i], self.fresh(want[i]), "fitter %d "
                                      "of %s" % (i, seq))
                ctx.step()
            ctx.outcome(seq)

    def number(self, case, ctx):
        """one set of charges per illumination; any number of charges"""
        base = [sample(-3, 0.9, 300), sample(0.5, 1.1, 300),
                sample(4, 1.0, 500), sample(1, 2.0, 70000),
                np.full(20000, 1.25)]
        for n, k in itertools.product((1, 2, 3), range(6)):
            f = toy(n)
            if n == k:
                continue
            try:
                f.apply(*base[:k])
            except Exception:
                continue
            finally:
                ctx.ev()
                ctx.outcome((n, k))
            expect(False, "%d sets of charges were accepted for %d "
                   "illuminations" % (k, n))
        for pair in itertools.permutations(range(len(base)), 2):
            data = [base[i] for i in pair]
            f = toy(2, fixed=("mean", "std"))
            f.apply(*data)
            x, y = self.check_histogram(f, data, "charges %s" % (pair,))
            expect_close(SEEN[0], x, "likelihood: centres")
            for i in (0, 1):
                expect_close(SEEN[1][i], y[i], "likelihood: counts", 0, 0)
            ctx.ev()
            ctx.state(pair)
            ctx.outcome(pair)

    def undefined(self, case, ctx):
        """parameters for which the model cannot be evaluated"""
        data = [sample(1.0, 1.5, 800)]
        ref = toy(1, ())
        ref.apply(*data)
        k, side = case["k"], case["side"]
        best = dict(mean=1.0, std=1.5, amp=1.0)[k]
        for off in (0.05, 0.1, 0.2, 0.3, 0.5):
            f = toy(1, ())
            inner = f._get_likelihood

            def likelihood(n, x, y, lookup, *v):
                if side * (v[lookup[0][k]] - best) > off:
                    raise ZeroDivisionError
                return inner(n, x, y, lookup, *v)
            type(f)._get_likelihood = staticmethod(likelihood)
            try:
                f.apply(*data)
            except Exception:
                got = None    # no result is given
            else:
                got = values(f)
                for p, w in values(ref).items():
                    expect(abs(got[p] - w) < 0.05, lambda: "the model is "
                           "not defined for %s %s %s, result %s" % (
                               k, "<>"[side > 0], best + side * off, got))
            ctx.ev()
            ctx.state((k, side, off, got is None))
            ctx.outcome((k, side, off))

    def shipped(self, case, ctx):
        from CHECLabPy.core.factory import SpectrumFitterFactory as F
        from CHECLabPy.core.spectrum_fitter import SpectrumParameter as P
        name = case["name"]
        lam = [0.6, 1.4]
        data = []
        for k in lam:
            data.append(spectrum_sample(k, 0.2 if "Gentile" in name else 0))
        results = {}
        for perm in ((0, 1), (1, 0)):
            f = F.produce(name, n_illuminations=2)
            new = [P("eped", 0.2, (-5, 5)), P("eped_sigma", 2.5, (0.5, 8)),
                   P("spe", 18, (10, 30)), P("spe_sigma", 2.5, (0.5, 8)),
                   P("lambda_", 0.9, (0.01, 4), multi=True)]
            if "Gentile" in name:
                new.append(P("opct", 0.3, (0.01, 0.8)))
            f.parameters.update(new)
            f.range = (-20, 180)
            f.n_bins = 200
            for again in range(2):
                f.apply(*[data[i] for i in perm])
                v = values(f)
                # lambda and opct from the parameters are correlated with the
                # finite sample, the rest is well determined
                for k, w, tol in (("eped", 0.0, 0.2), ("eped_sigma", 2.0,
                                                       0.2),
                                  ("spe", 20.0, 0.3), ("spe_sigma", 2.0,
                                                       0.5)):
                    expect(abs(v[k] - w) < tol, lambda: "%s: %s" % (name, v))
                for pos, i in enumerate(perm):
                    expect(abs(v["lambda_%d" % pos] - lam[i]) < 0.05, lambda:
                           "%s: %s" % (name, v))
                if "opct" in v:
                    expect(abs(v["opct"] - 0.2) < 0.03, lambda: repr(v))
                self.curve(f, data, name)
                self.check_histogram(f, [data[i] for i in perm], name)
                if again:
                    expect(v == results[perm], "a second fit differs")
                results[perm] = v
                ctx.ev()
                ctx.step()
            # a parameter outside the limits or fixed
            f.parameters.update([P("spe", 15.0, (10, 16))])
            f.apply(*data)
            expect(10 <= values(f)["spe"] <= 16, "limits of spe")
            f.parameters.update([P("eped_sigma", 2.75, (0.5, 8), True)])
            f.apply(*data)
            expect(values(f)["eped_sigma"] == 2.75, "fixed eped_sigma")
            ctx.state((name, perm))
            ctx.outcome((name, perm))


def spectrum_sample(lam, opct, n=6000, spe=20.0, sig=2.0, ped=2.0):
    """quantiles of the compound spectrum"""
    from math import comb, exp, factorial
    from scipy.stats import norm
    x = np.linspace(-20, 300, 32001)
    pdf = exp(-lam) * norm.pdf(x, 0, ped)
    for k in range(1, 15):
        p = sum(exp(-lam) * lam ** j / factorial(j) * (1 - opct) ** j
                * opct ** (k - j) * comb(k - 1, j - 1)
                for j in range(1, k + 1))
        pdf += p * norm.pdf(x, k * spe, np.sqrt(k * sig ** 2 + ped ** 2))
    cdf = np.cumsum(pdf)
    cdf /= cdf[-1]
    return np.interp((np.arange(n) + 0.5) / n, cdf, x)


CHECK = C22()
