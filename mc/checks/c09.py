import itertools
import os
import numpy as np
import yaml
from mc.engine import Check
from mc.red import (COLUMNS, DEFAULT_ON, NEEDS_MAP, NEEDS_REF, OWNER, REF,
                    mapping, needs, pulse, reducer)
from mc.util import expect, expect_close, raises

NPIX, NSAMP = 64, 40
ALL = [c for cs in COLUMNS.values() for c in cs if c != "flasher_unit"]
_COUNT = [0]


def waveforms():
    w = np.array([pulse(NSAMP, 15 + p % 9, 2.5, 20 + p)
                  for p in range(NPIX)])
    return (w + (np.arange(NSAMP) % 3 - 1) * 0.25).astype(np.float32)


class C09(Check):
    id = "C09"
    level = "model_checking"
    rule = "distinct (configuration, active columns)"
    assumptions = ("NNLSPulseExtraction is left out (it cannot be compiled "
                   "with this numba)", "ctapipe is a stand-in")
    bounds = {
        "quick": "every subset of the columns of every reducer, switched on "
                 "and off through the constructor, the chain's keywords and a "
                 "YAML file; every pair of columns of different reducers; "
                 "every combination of {absent, False, True} in the default "
                 "table, the YAML file and the keywords; window settings from "
                 "the 4 combinations of sources; missing requirements; new "
                 "reducer classes",
        "thorough": "also every triple of columns"}

    def cases(self, tier):
        out = [dict(kind="defaults")]
        for r, cols in COLUMNS.items():
            for n in range(len(cols) + 1):
                for sub in itertools.combinations(cols, n):
                    out.append(dict(kind="subset", r=r, on=list(sub)))
        for a, b in itertools.combinations(ALL, 2):
            if OWNER[a] != OWNER[b]:
                out.append(dict(kind="many", on=[a, b]))
        if tier == "thorough":
            for s in itertools.combinations(ALL[::2], 3):
                out.append(dict(kind="many", on=list(s)))
        out.append(dict(kind="many", on=ALL))
        for c in ALL:
            for y, k in itertools.product(("nofile", "absent", False, True),
                                          ("absent", False, True)):
                out.append(dict(kind="precedence", c=c, yaml=y, kw=k))
            # other ways to say yes and no
            for y, k in ((0, "absent"), (1, "absent"), (None, "absent"),
                         (True, None), (True, 0), (False, 1)):
                out.append(dict(kind="precedence", c=c, yaml=y, kw=k))
        for y, k in itertools.product((None, 4, 9), (None, 5, 12)):
            out.append(dict(kind="settings", yaml=y, kw=k))
        for t in ("null", "{}", "# nothing\n", "no_such_column: true\n"):
            out.append(dict(kind="yamltext", text=t))
        for a, b in itertools.permutations(ALL[::3], 2):
            out.append(dict(kind="rewritten", on=[a, b]))
        for r in sorted(NEEDS_REF | NEEDS_MAP):
            out.append(dict(kind="missing", r=r))
        for k in ("duplicate", "inherited", "new", "nothing", "unprepared",
                  "families", "values"):
            out.append(dict(kind=k))
        return out

    def setup(self):
        import CHECLabPy.core.chain  # noqa: F401

    def run(self, case, ctx):
        getattr(self, case["kind"])(case, ctx)
        ctx.step()
        ctx.state(repr(case))
        ctx.trace()

    def chain(self, config_path=None, **kw):
        from CHECLabPy.core.chain import WaveformReducerChain
        kw.setdefault("reference_pulse_path", REF)
        kw.setdefault("mapping", mapping(NPIX))
        return WaveformReducerChain(NPIX, NSAMP, config_path, **kw)

    def expect_columns(self, chain, want, what, ctx):
        d = chain.process(waveforms())
        expect(set(d) == set(want), lambda: "%s: columns %s, expected %s" % (
            what, sorted(d), sorted(want)))
        for k, v in d.items():
            expect(np.shape(v) in ((), (NPIX,)), "%s: %s has shape %s" % (
                what, k, np.shape(v)))
        ctx.ev()
        ctx.outcome((what, tuple(sorted(want))))
        return d

    def yaml(self, ctx, d):
        p = ctx.path("c.yml")
        with open(p, "w") as f:
            yaml.safe_dump(d, f)
        return p

    def defaults(self, case, ctx):
        self.expect_columns(self.chain(), DEFAULT_ON, "default chain", ctx)
        c = self.chain()
        for k in ALL:
            expect(bool(c.config[k]) == (k in DEFAULT_ON)
                   if k != "waveform_max" else True, "config[%r]" % k)

    def subset(self, case, ctx):
        r, on = case["r"], case["on"]
        cols = COLUMNS[r]
        npix = 2048 if r == "FlagFlashers" else NPIX
        cls = reducer(r)
        expect(sorted(cls.columns) == sorted(cols), lambda: "columns of %s: "
               "%s" % (r, cls.columns))
        w = waveforms() if npix == NPIX else np.zeros((npix, NSAMP))
        off = {c: False for c in cols if c not in on}
        onk = {c: True for c in on}
        for k in (dict(off), dict(off, **onk),
                  dict(onk, _disable_by_default=True),
                  dict(onk, _disable_by_default=True, **off)):
            red = cls(npix, NSAMP, **needs(r, npix), **k)
            d = red.process(w)
            expect(set(d) == set(on), lambda: "%s(%s): %s" % (r, k, list(d)))
            expect(sorted(cls.get_active_columns(**k)) == sorted(on),
                   "%s.get_active_columns(%s)" % (r, k))
            ctx.ev()
        if npix == NPIX:
            alloff = {c: False for c in DEFAULT_ON}
            self.expect_columns(self.chain(**{**alloff, **off, **onk}), on,
                                "keywords", ctx)
            path = self.yaml(ctx, {**off, **onk})
            self.expect_columns(self.chain(path), on, "YAML", ctx)
            self.expect_columns(self.chain(self.yaml(ctx, onk)), on,
                                "YAML, only True", ctx)

    def many(self, case, ctx):
        on = case["on"]
        path = self.yaml(ctx, {c: c in on for c in ALL})
        d = self.expect_columns(self.chain(path), on, "YAML", ctx)
        off = {c: False for c in DEFAULT_ON}
        d2 = self.expect_columns(self.chain(**{
            **off, **{c: True for c in on}}), on, "keywords", ctx)
        for c in on:
            expect_close(d[c], d2[c], c)
        if len(on) == 2:
            for c in on:
                one = self.chain(**{**off, c: True}).process(waveforms())
                expect_close(one[c], d[c], "%s alone and with others" % c)

    def precedence(self, case, ctx):
        c, y, k = case["c"], case["yaml"], case["kw"]
        kw = {} if k == "absent" else {c: k}
        other = "waveform_mean" if c != "waveform_mean" else "waveform_rms"
        if y == "nofile":
            path, base = None, set(DEFAULT_ON)
        else:
            d = {other: True}
            if y != "absent":
                d[c] = y
            path = self.yaml(ctx, d)
            base = {n for n, v in d.items() if v}
        if k != "absent":
            (base.add if k else base.discard)(c)
        ch = self.chain(path, **kw)
        self.expect_columns(ch, base, "YAML %r, keyword %r of %s" % (y, k, c),
                            ctx)
        expect(bool(ch.config.get(c, False)) == (c in base),
               "config[%r] is %r" % (c, ch.config.get(c)))

    def settings(self, case, ctx):
        y, k = case["yaml"], case["kw"]
        w = waveforms()
        d = dict(charge_averagewf=True, t_averagewf=True)
        if y:
            d["window_size"] = y
        ch = self.chain(self.yaml(ctx, d), **(
            {} if not k else dict(window_size=k)))
        size = k or y or 6
        got = ch.process(w)
        t = got["t_averagewf"]
        expect_close(got["charge_averagewf"],
                     w[:, t - 3:t - 3 + size].astype(float).sum(1),
                     "charge of a window of %d" % size, rtol=1e-5)
        expect(ch.config.get("window_size", 6) == size, "config")
        # without a file
        ch = self.chain(**({} if not k else dict(window_size=k)))
        size = k or 6
        expect_close(ch.process(w)["charge_averagewf"],
                     w[:, t - 3:t - 3 + size].astype(float).sum(1),
                     "charge of a window of %d" % size, rtol=1e-5)
        ctx.ev(2)
        ctx.outcome(repr(case))

    def yamltext(self, case, ctx):
        p = ctx.path("c.yml")
        with open(p, "w") as f:
            f.write(case["text"])
        ch = self.chain(p)
        expect(ch.process(waveforms()) == {}, "columns of an empty file")
        self.expect_columns(self.chain(p, t_cc=True), {"t_cc"}, "keyword",
                            ctx)

    def rewritten(self, case, ctx):
        """the file is changed between two chains"""
        a, b = case["on"]
        path = ctx.path("again.yml")
        for d in ({a: True, "window_size": 5}, {b: True}, {a: True, b: True},
                  {a: True}):
            with open(path, "w") as f:
                yaml.safe_dump(d, f)
            ch = self.chain(path)
            self.expect_columns(ch, {a, b} & set(d), "changed YAML", ctx)
            expect(ch.config.get("window_size") == d.get("window_size"),
                   "window_size of a changed YAML file")
            ch.config[b] = not ch.config.get(b)  # of this chain only

    def missing(self, case, ctx):
        from CHECLabPy.core.chain import WaveformReducerChain
        r = case["r"]
        off = {c: False for c in DEFAULT_ON}
        full = needs(r, NPIX)
        for gone in full:
            k = {a: b for a, b in full.items() if a != gone}
            raises(ValueError, lambda: reducer(r)(NPIX, NSAMP, **k),
                   "%s without %s" % (r, gone))
            for c in COLUMNS[r]:
                raises(ValueError, lambda: WaveformReducerChain(
                    NPIX, NSAMP, **{**off, **k, c: True}),
                    "chain with %s without %s" % (c, gone))
            ctx.ev()
        # not needed when no column of the reducer is active
        ch = WaveformReducerChain(NPIX, NSAMP, **{**off, "waveform_rms": True})
        self.expect_columns(ch, {"waveform_rms"}, "chain without", ctx)

    def _name(self):
        _COUNT[0] += 1
        return "mc_column_%d_%d" % (os.getpid(), _COUNT[0])

    def duplicate(self, case, ctx):
        from CHECLabPy.core.reducer import WaveformReducer, column

        def clash():
            def t_cc(self):
                return 0
            t_cc.__qualname__ = "Other.t_cc"
            return type(WaveformReducer)(
                "Other", (WaveformReducer,), dict(t_cc=column(t_cc)))
        for _ in range(2):
            raises(AttributeError, clash, "a second column named t_cc")
        self.expect_columns(self.chain(), DEFAULT_ON, "after a clash", ctx)

    def inherited(self, case, ctx):
        for sub, base in (("CrossCorrelationLocal", "CrossCorrelation"),
                          ("CrossCorrelationNeighbour", "CrossCorrelation"),
                          ("SlidingWindowLocal", "SlidingWindow"),
                          ("SlidingWindowNeighbour", "SlidingWindow")):
            a, b = reducer(sub).columns, reducer(base).columns
            expect(not set(a) & set(b), "%s repeats columns of %s" % (
                sub, base))
            d = reducer(sub)(NPIX, NSAMP, **needs(sub, NPIX)).process(
                waveforms())
            expect(set(d) == set(COLUMNS[sub]), "columns of " + sub)
            ctx.ev()

    def new(self, case, ctx):
        from CHECLabPy.core.reducer import WaveformReducer, column
        a, b = self._name(), self._name()

        def fa(self):
            return self.waveforms[:, 0] * 1.0

        def fb(self):
            return self.waveforms[:, 1] + self.kwargs.get("mc_offset", 0)
        fa.__name__, fb.__name__ = a, b
        fa.__qualname__ = "New%s.%s" % (a, a)
        fb.__qualname__ = "New%s.%s" % (a, b)
        cls = type(WaveformReducer)("New" + a, (WaveformReducer,), {
            a: column(fa), b: column(fb)})
        try:
            self.expect_columns(self.chain(), DEFAULT_ON, "off by default",
                                ctx)
            d = self.expect_columns(
                self.chain(mc_offset=2.5, **{a: True, b: True}),
                DEFAULT_ON | {a, b}, "new reducer", ctx)
            w = waveforms()
            expect_close(d[a], w[:, 0], "new column")
            expect_close(d[b], w[:, 1] + 2.5, "new column with a setting")
            sub = type(WaveformReducer)("Sub" + a, (cls,), {a: column(fa)})
            expect(sub.columns == [], "a redefined inherited column")
            expect(sub(NPIX, NSAMP).process(w) == {}, "no columns")
            plain = type(WaveformReducer)("Plain" + a, (WaveformReducer,), {})
            for bases in ((plain, cls), (cls, plain)):
                two = type(WaveformReducer)("Two" + a, bases, {
                    a: column(fa)})
                expect(two.columns == [], "a redefined column of one of two "
                       "parents")
        finally:
            column.registry.pop(a, None)
            column.registry.pop(b, None)

    def families(self, case, ctx):
        """every small tree of classes, and one parent more"""
        from abc import ABC, abstractmethod
        from CHECLabPy.core import child_subclasses

        @abstractmethod
        def f(self):
            pass

        for n in range(1, 5):
            trees = itertools.product(*[range(i + 1) for i in range(n)])
            for tree, abstract in itertools.product(trees, itertools.product(
                    [0, 1], repeat=n)):
                classes = [type("Base", (ABC,), dict(f=f))]
                solid = {}
                for i, (parent, a) in enumerate(zip(tree, abstract)):
                    bases = [classes[parent]]
                    if i == 3 and parent != 1 and not issubclass(
                            classes[parent], classes[1]) and not issubclass(
                            classes[1], classes[parent]):
                        bases.append(classes[1])
                    c = type("Kind%d" % i, tuple(bases), dict(
                        f=f if a else (lambda self: i)))
                    classes.append(c)
                    solid[c] = not a
                for k, base in enumerate(classes):
                    want = [c for c in classes if c is not base
                            and issubclass(c, base) and solid[c]]
                    got = child_subclasses(base)
                    expect(len(got) == len(want) and set(got) == set(want),
                           lambda: "classes %s (abstract: %s): subclasses of "
                           "%s are %s" % (tree, abstract, base, got))
                    ctx.ev()
                ctx.outcome((tree, abstract))

    def values(self, case, ctx):
        """settings of the file are kept as they are"""
        import shutil
        ref = os.path.join(os.path.dirname(ctx.path("x")), "Ref Pulse_V1.TXT")
        shutil.copy(REF, ref)
        d = dict(charge_cc=True, reference_pulse_path=ref, Mixed_Case="AbC",
                 mixed_case="aBc", number=1e-7, big=2 ** 40, text="12",
                 yes="yes", items=[1, "B", None, dict(Z=1.5)],
                 sub=dict(Key="V", none=None), empty="", minus=-3)
        from CHECLabPy.core.chain import WaveformReducerChain
        ch = WaveformReducerChain(NPIX, NSAMP, self.yaml(ctx, d))
        for k, v in d.items():
            expect(ch.config[k] == v and type(ch.config[k]) is type(v),
                   lambda: "config[%r] is %r, expected %r" % (
                       k, ch.config[k], v))
        got = self.expect_columns(ch, {"charge_cc"}, "values", ctx)
        expect_close(got["charge_cc"], self.chain(charge_cc=True).process(
            waveforms())["charge_cc"], "reference pulse of the file")
        # keywords too
        ch = self.chain(Mixed_Case="aBc", sub=dict(Key="V"))
        expect(ch.config["Mixed_Case"] == "aBc"
               and ch.config["sub"] == dict(Key="V"), "keywords changed")
        ctx.ev()

    def nothing(self, case, ctx):
        ch = self.chain(**{c: False for c in DEFAULT_ON})
        for _ in range(2):
            expect(ch.process(waveforms()) == {}, "no active column")
        ctx.ev()

    def unprepared(self, case, ctx):
        for r, cols in COLUMNS.items():
            red = reducer(r)(NPIX, NSAMP, **needs(r, NPIX))
            for c in cols:
                raises(ValueError, lambda: getattr(red, c),
                       "%s before any event" % c)
            ctx.ev()


CHECK = C09()
