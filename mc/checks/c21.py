"""Bookkeeping of the spectrum parameters: configuration, update, results."""
import contextlib
import io
import itertools
import warnings
import numpy as np
import yaml
from mc.engine import Check
from mc.util import expect, raises

DEFAULTS = {  # name: (initial, limits, fixed)
    "a": (1.0, (-10, 10), False),
    "b": (0.5, (0.1, 4), False),
    "lambda_": (2.0, (0, 6), False),
}


def make_fitter(multi, n_ill):
    from CHECLabPy.core.spectrum_fitter import (
        SpectrumFitter, SpectrumParameter, SpectrumParameterCollection)

    class Toy(SpectrumFitter):
        """a parabola around (1.5, 0.75, 2.5 + illumination): the fit result
        is known; `seen` records the calls"""
        def __init__(self, n):
            super().__init__(n)
            self.parameters = SpectrumParameterCollection([
                SpectrumParameter(k, *v, multi=k in multi)
                for k, v in DEFAULTS.items()], n)
            self.n_bins = 4
            self.range = (0, 8)

        @staticmethod
        def _get_spectra(n, data_x, lookup, *values):
            return [np.ones_like(data_x) for _ in range(n)]

        @staticmethod
        def _get_likelihood(n, data_x, data_y, lookup, *values):
            total = 0.0
            for i in range(n):
                for k, best in (("a", 1.5), ("b", 0.75), ("lambda_", 2.5)):
                    v = values[lookup[i][k]]
                    total += 1e4 * (v - best - (
                        i if lookup[i][k] != lookup[0][k] else 0)) ** 2
            return total

    return Toy(n_ill)


class Model:
    def __init__(self, multi, n_ill):
        self.multi, self.n_ill = set(multi), n_ill
        self.p = {k: list(v) for k, v in DEFAULTS.items()}
        self.n_bins, self.range = 4, (0, 8)
        self.result = None

    def copy_into(self, other):
        other.p = {k: list(v) for k, v in self.p.items()}
        other.n_bins, other.range = self.n_bins, self.range

    def names(self):
        out = []
        for k in self.p:
            out += [k + str(i) for i in range(self.n_ill)] \
                if k in self.multi else [k]
        return out

    def kwargs(self):
        out = {}
        for k, (ini, lim, fix) in self.p.items():
            for n in ([k + str(i) for i in range(self.n_ill)]
                      if k in self.multi else [k]):
                out[n] = ini
                out["limit_" + n] = tuple(lim)
                out["fix_" + n] = fix
        return out

    def lookup(self):
        names = self.names()
        return [{k: names.index(k + str(i) if k in self.multi else k)
                 for k in self.p} for i in range(self.n_ill)]

    def fit(self):
        """result of a fit: the optimum inside the limits"""
        out = {}
        best = dict(a=1.5, b=0.75, lambda_=2.5)
        for k, (ini, lim, fix) in self.p.items():
            for i in range(self.n_ill) if k in self.multi else [None]:
                n = k if i is None else k + str(i)
                v = best[k] + (i or 0)
                out[n] = ini if fix else min(max(v, lim[0]), lim[1])
        return out


CONFIGS = {
    "empty": {},
    "initial": dict(initial=dict(a=3.0)),
    "limits": dict(limits=dict(b=[0.2, 0.6], lambda_=[1, 3])),
    "fixed": dict(fixed=dict(a=True)),
    "bins": dict(n_bins=7, range=[-1.25, 5.5]),
    "all": dict(n_bins=5, range=[0, 9],
                initial=dict(a=-2.0, b=1.0, lambda_=4.0),
                limits=dict(a=[-3, 3], b=[0.5, 2], lambda_=[0, 5]),
                fixed=dict(a=False, b=True, lambda_=False)),
    "unknown": dict(initial=dict(zz=3, b=0.25), other=1,
                    fixed=dict(lambda_=True)),
    "misspelt": dict(limits=dict(a=[-4, 4], sigma=[0, 1]), fixd=dict(a=1)),
    "nofix": dict(fixed=dict(lamda=True)),
    "nolim": dict(limits=dict(eped=[-1, 1], lambda_=[0.5, 5.5])),
}
UNKNOWN = {"unknown": ("zz", "other"), "misspelt": ("sigma", "fixd"),
           "nofix": ("lamda",), "nolim": ("eped",)}
UPDATES = {
    "ua": [("a", 2.5, (0, 5), False)],
    "ub": [("b", 0.3, (0.2, 0.5), True), ("lambda_", 3.0, (1, 4), False)],
    "um": [("lambda_", 1.0, (0, 6), False)],  # switches multi
}


class C21(Check):
    id = "C21"
    level = "model_checking"
    rule = "distinct (history, parameter state)"
    assumptions = ("parameters are changed through update, load_config and "
                   "update_initial", "a fitter with a quadratic likelihood "
                   "of known optimum")
    bounds = {
        "quick": "every history of length 1..2 (3 with the caches read in "
                 "between) over 7 configuration files, 3 updates, fit, "
                 "update_initial and save + load into another fitter; every "
                 "set of multi parameters; 1..3 illuminations",
        "thorough": "histories of length 4"}

    OPS = [c for c in CONFIGS if c not in ("misspelt", "nofix", "nolim")] + list(UPDATES) + ["fit", "init0", "initlast", "copy"]

    def setup(self):
        import CHECLabPy.core.spectrum_fitter as m
        # compile the typed lookup once
        f = make_fitter(["lambda_"], 2)
        f.parameters.lookup_typed
        assert m

    def cases(self, tier):
        t = tier == "thorough"
        out = []
        multis = [list(c) for n in range(4) for c in
                  itertools.combinations(sorted(DEFAULTS), n)]
        for n_ill in (1, 2, 3):
            for multi in multis:
                for op in self.OPS:
                    out.append(dict(kind="history", n=n_ill, multi=multi,
                                    first=[op], more=1))
        for n_ill, multi in ((2, ["lambda_"]), (3, ["a", "lambda_"]),
                             (1, [])):
            for ops in itertools.product(self.OPS, repeat=2):
                out.append(dict(kind="history", n=n_ill, multi=multi,
                                first=list(ops), more=2 if t else 1))
        out.append(dict(kind="isolation"))
        out.append(dict(kind="shipped"))
        return out

    def run(self, case, ctx):
        getattr(self, case["kind"])(case, ctx)
        ctx.trace()

    def compare(self, f, m, what, ctx):
        p = f.parameters
        for k, (ini, lim, fix) in m.p.items():
            o = getattr(p, k)
            expect((o.initial, tuple(o.limits), o.fixed, o.multi) == (
                ini, tuple(lim), fix, k in m.multi), lambda:
                "%s: parameter %s is %s" % (what, k, (
                    o.initial, o.limits, o.fixed, o.multi)))
        expect([o.name for o in p] == list(m.p) and len(p) == len(m.p),
               "%s: order of the parameters" % what)
        expect(list(p.parameter_names) == m.names(), lambda: "%s: names %s" %
               (what, p.parameter_names))
        kw, want = dict(p.minuit_kwargs), m.kwargs()
        expect(set(kw) == set(want), lambda: "%s: kwargs %s" % (what, kw))
        for k, v in want.items():
            g = tuple(kw[k]) if isinstance(v, tuple) else kw[k]
            expect(g == v, lambda: "%s: %s handed to the fit is %s, expected "
                   "%s" % (what, k, g, v))
        expect([dict(d) for d in p.lookup] == m.lookup(), lambda:
               "%s: lookup %s" % (what, p.lookup))
        typed = [{k: int(v) for k, v in d.items()} for d in p.lookup_typed]
        expect(typed == m.lookup(), lambda: "%s: lookup of the likelihood %s,"
               " expected %s" % (what, typed, m.lookup()))
        expect((f.n_bins, tuple(f.range)) == (m.n_bins, m.range), lambda:
               "%s: bins %s %s" % (what, f.n_bins, f.range))
        ctx.ev()

    def fit(self, f, m, what):
        f.apply(*[np.arange(20.0) for _ in range(m.n_ill)])
        m.result = m.fit()
        got = dict(f.fit_result_values)
        expect(list(got) == m.names(), lambda: "%s: results %s" % (
            what, list(got)))
        inside = all(p[1][0] < p[0] < p[1][1] for p in m.p.values())
        for k, v in m.result.items() if inside else ():
            expect(abs(got[k] - v) < 2e-2, lambda: "%s: fit gives %s=%r, "
                   "expected %r" % (what, k, got[k], v))
        m.result = got

    def apply_op(self, op, f, m, what, ctx):
        """perform op on fitter f and model m; returns (f, m)"""
        from CHECLabPy.core.spectrum_fitter import SpectrumParameter
        if op in CONFIGS:
            d = CONFIGS[op]
            path = ctx.path("c.yml")
            with open(path, "w") as fh:
                yaml.safe_dump(d, fh)
            printed = io.StringIO()
            with contextlib.redirect_stdout(printed), \
                    contextlib.redirect_stderr(printed), \
                    warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter("always")
                f.load_config(path)
            said = printed.getvalue() + " ".join(
                str(w.message) for w in caught)
            for k in UNKNOWN.get(op, ()):
                expect(k in said, lambda: "%s: nothing is said about the "
                       "setting %s, which has no effect" % (what, k))
            m.n_bins = d.get("n_bins", m.n_bins)
            m.range = tuple(d.get("range", m.range))
            for k, p in m.p.items():
                p[0] = d.get("initial", {}).get(k, p[0])
                p[1] = tuple(d.get("limits", {}).get(k, p[1]))
                p[2] = d.get("fixed", {}).get(k, p[2])
        elif op == "nothing":
            for text in ("", "# only a comment\n", "{}\n", "initial: {}\n"):
                path = ctx.path("c.yml")
                with open(path, "w") as fh:
                    fh.write(text)
                f.load_config(path)
        elif op in UPDATES:
            new = []
            for k, ini, lim, fix in UPDATES[op]:
                mu = k in m.multi
                if op == "um":
                    mu = not mu
                    m.multi ^= {k}
                new.append(SpectrumParameter(k, ini, lim, fix, mu))
                m.p[k] = [ini, lim, fix]
            f.parameters.update(new)
            # the objects of the caller stay the caller's
            for p in new:
                p.initial, p.limits, p.fixed = -99, (0, 0), None
        elif op == "fit":
            self.fit(f, m, what)
        elif op in ("init0", "initlast"):
            i = 0 if op == "init0" else m.n_ill - 1
            if m.result is None:
                raises(ValueError, lambda: f.update_initial(i), what)
            elif any(("%s%d" % (k, i) if k in m.multi else k)
                     not in m.result for k in m.p):
                return f, m  # multi was switched after the fit
            else:
                f.update_initial(i)
                for k, p in m.p.items():
                    p[0] = m.result["%s%d" % (k, i) if k in m.multi else k]
        elif op == "copy":
            path = ctx.path("save.yml")
            f.save_config(path)
            self.compare(f, m, "%s: saved fitter" % what, ctx)
            g = make_fitter(sorted(m.multi), m.n_ill)
            g.load_config(path)
            m2 = Model(m.multi, m.n_ill)
            m.copy_into(m2)
            return g, m2
        return f, m

    def history(self, case, ctx):
        for rest in itertools.product(self.OPS, repeat=case["more"]):
            ops = tuple(case["first"]) + rest
            for peek in (True, False):
                f = make_fitter(case["multi"], case["n"])
                m = Model(case["multi"], case["n"])
                for i, op in enumerate(ops):
                    what = "after %s of %s (multi %s, n=%d)" % (
                        op, ops, case["multi"], case["n"])
                    f, m = self.apply_op(op, f, m, what, ctx)
                    if peek:
                        self.compare(f, m, what, ctx)
                    ctx.step()
                    ctx.state((case["n"], tuple(case["multi"]), repr(m.p),
                               m.n_bins, m.result is None))
                self.compare(f, m, "end of %s" % (ops,), ctx)
                ctx.clean()
            ctx.outcome((case["n"], tuple(case["multi"]), ops))

    def isolation(self, case, ctx):
        for op in list(CONFIGS) + list(UPDATES) + ["nothing"]:
            f, g = make_fitter(["lambda_"], 2), make_fitter(["lambda_"], 2)
            m, k = Model(["lambda_"], 2), Model(["lambda_"], 2)
            f, m = self.apply_op(op, f, m, op, ctx)
            self.compare(f, m, op, ctx)
            self.compare(g, k, "another fitter after %s" % op, ctx)
            g, k = self.apply_op("fit", g, k, op, ctx)
            self.compare(f, m, "another fitter was fitted", ctx)
            ctx.outcome(op)

    def shipped(self, case, ctx):
        """the configuration of the fitters of the package round trips"""
        from CHECLabPy.core.factory import SpectrumFitterFactory as F
        expect({"SiPMGentileFitter", "MAPMFitter"} <= set(F.subclass_names),
               lambda: "fitters %s" % F.subclass_names)
        raises(KeyError, lambda: F.produce("NoFitter", 1), "unknown fitter")
        for name in ("SiPMGentileFitter", "MAPMFitter"):
            for n in (1, 2, 3):
                f = F.produce(name, n_illuminations=n)
                expect(type(f).__name__ == name and f.n_illuminations == n,
                       "factory")
                g = F.produce(name, n)
                for i, p in enumerate(f.parameters):
                    p.initial = 0.5 + i
                    p.limits = (i, 10 + i)
                    p.fixed = i % 2 == 0
                f.n_bins, f.range = 33, (-5, 55)
                path = ctx.path("c.yml")
                f.save_config(path)
                g.load_config(path)
                expect((g.n_bins, tuple(g.range)) == (33, (-5, 55)), "bins")
                for i, p in enumerate(g.parameters):
                    expect((p.initial, tuple(p.limits), p.fixed) == (
                        0.5 + i, (i, 10 + i), i % 2 == 0), p.name)
                    q = p.name + "0" if p.multi else p.name
                    kw = g.parameters.minuit_kwargs
                    expect((kw[q], tuple(kw["limit_" + q]), kw["fix_" + q])
                           == (0.5 + i, (i, 10 + i), i % 2 == 0),
                           "values for the fit: " + q)
                ctx.ev()
                ctx.outcome((name, n))


CHECK = C21()
