"""Running statistics and probability functions."""
import itertools
from fractions import Fraction
from math import comb, exp, factorial, lgamma, log, pi, sqrt
import numpy as np
from mc.engine import Check
from mc.util import expect, expect_close

ALPHABET = (-3.0, 0.0, 0.5, 2.0, 10.0)


class C26(Check):
    id = "C26"
    level = "model_checking"
    rule = "distinct sample histories and function arguments"
    assumptions = ("finite samples",)
    bounds = {
        "quick": "every history of 5 samples out of 5 values, with offsets "
                 "0, 1e6 and 1e9; 20000 samples; arrays of pixels; all "
                 "0 <= k <= n <= 60, and n up to 1000; 15 means x 68 counts up to "
                 "1000; normal on 6 x 4 "
                 "x 60 points",
        "thorough": "histories of 7 samples; n <= 170"}

    def setup(self):
        import CHECLabPy.stats  # noqa: F401
        import CHECLabPy.stats.pdf  # noqa: F401
        from CHECLabPy.stats import welfords_online_algorithm as w
        w(1.0, 0.0, 0, 0.0)

    def cases(self, tier):
        t = tier == "thorough"
        out = []
        for a, b in itertools.product(range(5), repeat=2):
            out.append(dict(kind="history", first=[a, b],
                            more=5 if t else 3))
        out += [dict(kind="long"), dict(kind="arrays")]
        for lo in range(0, 171 if t else 61, 20):
            out.append(dict(kind="binom", lo=lo, hi=min(lo + 20, 171)))
        out += [dict(kind="poisson"), dict(kind="normal"),
                dict(kind="log")]
        return out

    def run(self, case, ctx):
        getattr(self, case["kind"])(case, ctx)
        ctx.trace()

    def check(self, got, samples, what, offset=0.0):
        mean, count, m2 = got
        f = [Fraction(s) for s in samples]
        m = sum(f) / len(f)
        v = sum((x - m) ** 2 for x in f)
        expect(count == len(f), lambda: "%s: count %s" % (what, count))
        expect(abs(mean - float(m)) <= 1e-12 * (1 + abs(float(m))), lambda:
               "%s: mean %r, expected %r" % (what, mean, float(m)))
        tol = 1e-9 + 2e-7 * (abs(offset) * 1e-7)
        expect(abs(m2 - float(v)) <= tol + 1e-6 * float(v), lambda:
               "%s: sum of squares %r, expected %r" % (what, m2, float(v)))

    def history(self, case, ctx):
        from CHECLabPy.stats import welfords_online_algorithm as w
        for rest in itertools.product(range(5), repeat=case["more"]):
            seq = case["first"] + list(rest)
            for offset in (0.0, 1e6, 1e9):
                state = (0.0, 0, 0.0)
                done = []
                for i in seq:
                    x = ALPHABET[i] + offset
                    state = w(x, *state)
                    done.append(x)
                    ctx.step()
                self.check(state, done, "samples %s" % done, offset)
                ctx.ev()
            ctx.state(tuple(sorted(seq)))
            ctx.outcome(tuple(seq))

    def long(self, case, ctx):
        from CHECLabPy.stats import welfords_online_algorithm as w
        for offset in (0.0, 1e6):
            x = (np.arange(20000) * 7919 % 1000) * 0.125 + offset
            state = (0.0, 0, 0.0)
            for v in x:
                state = w(v, *state)
            expect(state[1] == len(x), "count")
            expect_close(state[0], x.mean(), "mean", 1e-10)
            expect_close(state[2] / len(x), (x - offset).var(), "variance",
                         1e-6)
            ctx.step(len(x))
            ctx.ev()
            ctx.outcome(("long", offset))

    def arrays(self, case, ctx):
        """one state per pixel, every history of 4 arrays out of 3"""
        from CHECLabPy.stats import welfords_online_algorithm as w
        some = [np.array([1.0, 2.0, -3.0]), np.array([4.5, 2.0, 0.0]),
                np.array([-1.0, 8.0, 0.5])]
        for seq in itertools.product(range(3), repeat=4):
            state = (np.zeros(3), 0, np.zeros(3))
            for i in seq:
                keep = some[i].copy()
                state = w(some[i], *state)
                expect((some[i] == keep).all(), "sample changed")
                ctx.step()
            for p in range(3):
                self.check((state[0][p], state[1], state[2][p]),
                           [some[i][p] for i in seq], "pixel %d of %s" % (
                               p, seq))
            ctx.ev()
            ctx.outcome(("arrays", seq))
            ctx.state(("arrays", seq))

    def binom(self, case, ctx):
        from CHECLabPy.stats.pdf import binom
        for n in (100, 170, 171, 300, 500, 1000) if case["lo"] == 0 else ():
            for k in (0, 1, 2, 3, 10, n // 3, n // 2, n - 2, n - 1, n):
                w = comb(n, k)
                g = binom(n, k)
                expect(abs(g - w) <= 1e-9 * w, lambda: "binom(%d, %d) is %r, "
                       "expected %r" % (n, k, g, float(w)))
                ctx.ev()
                ctx.outcome((n, k))
        for n in range(case["lo"], case["hi"]):
            got = binom(n, np.arange(n + 1))
            for k in range(n + 1):
                w = comb(n, k)
                expect(abs(got[k] - w) <= 1e-9 * w * (1 + n / 20), lambda:
                       "binom(%d, %d) is %r, expected %r" % (n, k, got[k], w))
                ctx.ev()
                ctx.outcome((n, k))
            expect_close(binom(n, n // 2), float(comb(n, n // 2)), "scalar",
                         1e-8)

    MEANS = (1e-6, 0.001, 0.05, 0.1, 0.5, 0.7, 1.0, 2.0, 3.5, 6.0, 10.0,
             25.0, 60.0, 150.0, 600.0)

    def poisson(self, case, ctx):
        from CHECLabPy.stats.pdf import poisson
        for mu in self.MEANS:
            for k in range(60):
                w = exp(-mu) * mu ** k / factorial(k) if mu < 100 else \
                    exp(k * log(mu) - mu - lgamma(k + 1))
                g = poisson(k, mu)
                expect(abs(g - w) <= 1e-9 * w + 1e-300, lambda: "poisson(%d, "
                       "%s) is %r, expected %r" % (k, mu, g, w))
                ctx.ev()
                ctx.outcome((mu, k))
            for k in (60, 100, 170, 171, 200, 300, 600, 1000):
                w = k * log(mu) - mu - lgamma(k + 1)
                g = poisson(k, mu)
                if w > -700:
                    expect(abs(g - exp(w)) <= 1e-9 * exp(w), lambda:
                           "poisson(%d, %s) is %r, expected %r" % (
                               k, mu, g, exp(w)))
                else:
                    expect(0 <= g < 1e-300, lambda: "poisson(%d, %s) is %r"
                           % (k, mu, g))
                ctx.ev()
                ctx.outcome((mu, k))
            n = int(mu + 12 * sqrt(mu) + 40)
            total = poisson(np.arange(n), mu).sum()
            expect(abs(total - 1) < 1e-6, "sum over k for %s: %r" % (
                mu, total))

    def normal(self, case, ctx):
        from CHECLabPy.stats.pdf import normal_pdf
        for mean in (-30.0, -1.5, 0.0, 0.25, 8.0, 100.0):
            for std in (0.125, 1.0, 2.5, 20.0):
                x = (np.arange(-30, 30) * 0.25 * std + mean).astype(
                    np.float32)
                xx = x.astype(float)
                w = np.exp(-0.5 * ((xx - mean) / std) ** 2) / sqrt(
                    2 * pi) / std
                expect_close(normal_pdf(x, mean, std), w, "normal_pdf", 1e-6,
                             1e-12)
                far = (mean + std * np.concatenate([
                    np.arange(-30, -7, 0.5), np.arange(7.5, 30, 0.5)])
                       ).astype(np.float32)
                u = (far.astype(float) - mean) / std
                w = np.exp(-0.5 * u ** 2) / sqrt(2 * pi) / std
                expect_close(normal_pdf(far, mean, std), w,
                             "normal_pdf far from the mean", 1e-9, 0)
                ctx.ev(len(x) + len(far))
                ctx.outcome((mean, std))
                fine = np.linspace(mean - 8 * std, mean + 8 * std,
                                   4001).astype(np.float32)
                y = normal_pdf(fine, mean, std)
                total = y.sum() * 16 * std / 4000
                expect(abs(total - 1) < 1e-4, "integral %r" % total)

    def log(self, case, ctx):
        from CHECLabPy.stats.pdf import poisson_logpmf, xlogy
        for mu in self.MEANS:
            for k in range(60):
                g = poisson_logpmf(np.float32(k), mu)
                w = k * log(mu) - lgamma(k + 1) - mu
                expect(abs(g - w) <= 1e-9 * (abs(w) + 1), lambda:
                       "poisson_logpmf(%d, %s) is %r, expected %r" % (
                           k, mu, g, w))
                g = xlogy(np.float32(k), mu)
                w = k * log(mu)
                expect(abs(g - w) <= 1e-9 * (abs(w) + 1), "xlogy")
                ctx.ev(2)
                ctx.outcome(("log", mu, k))
            for k in (0.25, 0.5, 1.5, 170.5, 1000.0):
                k = float(np.float32(k))
                expect_close(float(xlogy(np.float32(k), mu)), k * log(mu),
                             "xlogy(%s, %s)" % (k, mu), 1e-9, 1e-9)
                expect_close(float(poisson_logpmf(np.float32(k), mu)),
                             k * log(mu) - lgamma(k + 1) - mu,
                             "poisson_logpmf(%s, %s)" % (k, mu), 1e-9, 1e-9)
            # the likelihood of a count is highest at its own mean
            if mu > 0.5:
                k = np.float32(round(mu))
                best = poisson_logpmf(k, float(k))
                expect(all(poisson_logpmf(k, float(k) * s) < best
                           for s in (0.5, 0.9, 1.1, 2.0)), "highest at mean")
        expect(float(xlogy(np.float32(0), 0.0)) == 0, "0 log 0")
        expect(float(poisson_logpmf(np.float32(0), 0.0)) == 0,
               "no events expected, none seen")


CHECK = C26()
