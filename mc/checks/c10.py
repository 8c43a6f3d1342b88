import itertools
import numpy as np
from mc.engine import Check
from mc.red import COLUMNS, NEEDS_MAP, REF, mapping, needs, pulse, reducer
from mc.util import expect, expect_close, noise

NS = 40


def events(n_pixels, n_samples=NS):
    p = np.arange(n_pixels)
    s = np.arange(n_samples)
    out = {}
    out["a"] = np.array([pulse(n_samples, 12 + i % 7, 2.5, 30 + i % 13)
                         for i in p]).astype(np.float32)
    out["b"] = np.array([pulse(n_samples, 26 - i % 5, 3.5, 5 + i % 17)
                         for i in p]).astype(np.float32) - 2
    out["n"] = (noise((n_pixels, n_samples), 5) * 0.25).astype(np.float32)
    out["z"] = np.zeros((n_pixels, n_samples), dtype=np.float32)
    out["i"] = np.round(out["a"] * 3).astype(np.int32)
    out["d"] = (np.cos(0.3 * s)[None] * (1 + p % 3)[:, None] * 4
                ).astype(np.float64)
    return out


def permuted(perm):
    """the mapping of a module whose pixel i is pixel perm[i]"""
    import warnings
    m = mapping(64)
    new = m.iloc[perm].reset_index(drop=True)
    new["pixel"] = np.arange(64)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        new.metadata = dict(m.metadata)
    return new


def as_event(wf, k, iev):
    from CHECLabPy.core.io.waveform import Waveform
    wf = wf.copy()
    if k == 0:
        return wf
    if k == 1:
        return Waveform(wf, iev=iev, is_r1=True, t_cpu_container=(1, 2))
    wf = np.asfortranarray(wf)
    return wf


class C10(Check):
    id = "C10"
    level = "model_checking"
    rule = "distinct (reducers, history of events, result)"
    assumptions = ("NNLSPulseExtraction is left out",)
    bounds = {
        "quick": "every reducer and the chain with all columns: all histories "
                 "of 3 of 6 events of 3 sample types on one instance; all interleavings of two "
                 "instances with 2 events each; results and inputs kept and "
                 "compared at the end; events of one number or in one array; "
                 "results overwritten by the caller; instances with other "
                 "settings and other mappings at the same time; "
                 "every single column alone; 64 and 2048 pixels",
        "thorough": "histories of 4, interleavings of 3 + 3 events"}

    def cases(self, tier):
        t = tier == "thorough"
        names = [r for r in COLUMNS if r != "FlagFlashers"] + ["chain"]
        out = []
        for r in names:
            # the timing is only made for floating point samples
            for first in "abnzd" + "i" * (r not in ("Timing", "chain")):
                out.append(dict(r=r, kind="history", first=first,
                                depth=4 if t else 3))
            out.append(dict(r=r, kind="two", n=3 if t else 2))
            out.append(dict(r=r, kind="columns"))
            out.append(dict(r=r, kind="number"))
            out.append(dict(r=r, kind="settings"))
            if r in NEEDS_MAP:
                out.append(dict(r=r, kind="mappings"))
        out.append(dict(r="FlagFlashers", kind="number"))
        out.append(dict(r="FlagFlashers", kind="columns"))
        for first in "abn":
            out.append(dict(r="FlagFlashers", kind="history", first=first,
                            depth=2))
        out.append(dict(r="full", kind="history", first="a", depth=2))
        out.append(dict(r="full", kind="history", first="n", depth=2))
        return out

    def setup(self):
        import CHECLabPy.core.chain  # noqa: F401

    def make(self, r, only=None, **settings):
        npix = 2048 if r in ("FlagFlashers", "full") else 64
        if r in ("chain", "full"):
            from CHECLabPy.core.chain import WaveformReducerChain
            k = {c: only is None or c == only
                 for n, cs in COLUMNS.items() for c in cs
                 if n != "FlagFlashers" or r == "full"}
            if r == "full":
                for c in COLUMNS["CrossCorrelationNeighbour"] + COLUMNS[
                        "CtapipeNeighbourPeakIntegrator"] + COLUMNS[
                        "SlidingWindowNeighbour"]:
                    k[c] = False
            k.update(settings)
            k.setdefault("mapping", mapping(npix))
            return WaveformReducerChain(npix, NS, reference_pulse_path=REF,
                                        **k)
        k = {} if only is None else {c: c == only for c in COLUMNS[r]}
        return reducer(r)(npix, NS, **{**needs(r, npix), **k, **settings})

    def npix(self, r):
        return 2048 if r in ("FlagFlashers", "full") else 64

    _fresh = {}

    def fresh(self, r, name, ev):
        """result of a new instance that sees only this event"""
        k = (r, name)
        if k not in self._fresh:
            wf = ev[name].copy()
            d = self.make(r).process(wf)
            expect(np.array_equal(wf, ev[name]), "%s changed its input" % r)
            self._fresh[k] = {c: np.array(v) for c, v in d.items()}
        return self._fresh[k]

    def same(self, got, want, what):
        expect(set(got) == set(want), "%s: columns %s" % (what, sorted(got)))
        for c in want:
            expect_close(got[c], want[c], "%s: %s" % (what, c), 1e-5, 1e-5)

    def run(self, case, ctx):
        r = case["r"]
        ev = events(self.npix(r))
        getattr(self, case["kind"])(case, ctx, r, ev)
        ctx.trace()

    def history(self, case, ctx, r, ev):
        names = "abnzd" if self.npix(r) == 64 else "abz"
        for rest in itertools.product(names, repeat=case["depth"] - 1):
            hist = (case["first"],) + rest
            red = self.make(r)
            kept = []
            for i, name in enumerate(hist):
                inp = as_event(ev[name], (i + len(kept)) % 3, i)
                d = red.process(inp)
                what = "%s, event %d of %s" % (r, i, hist)
                self.same(d, self.fresh(r, name, ev), what)
                expect(np.array_equal(np.asarray(inp), ev[name]),
                       "%s: the input was changed" % what)
                kept.append((d, name, inp))
                ctx.step()
                ctx.state((r, hist[:i + 1]))
                ctx.ev()
            for i, (d, name, inp) in enumerate(kept):
                self.same(d, self.fresh(r, name, ev), "%s, event %d of %s, "
                          "after the later events" % (r, i, hist))
                expect(np.array_equal(np.asarray(inp), ev[name]),
                       "input of event %d of %s changed later" % (i, hist))
            # results belong to the caller
            for d, name, inp in kept:
                for v in d.values():
                    if isinstance(v, np.ndarray) and v.ndim \
                            and v.flags.writeable:
                        v[...] = -77
                expect(np.array_equal(np.asarray(inp), ev[name]),
                       "%s: writing to the results changed the input" % r)
            self.same(red.process(ev[hist[0]].copy()), self.fresh(
                r, hist[0], ev), "%s after writing to old results" % r)
            ctx.outcome((r, hist))

    def number(self, case, ctx, r, ev):
        """the samples decide, not the number of the event or its array"""
        names = "abnzd" if self.npix(r) == 64 else "abn"
        for a, b in itertools.product(names, repeat=2):
            red = self.make(r)
            for name in (a, b, a):
                self.same(red.process(as_event(ev[name], 1, 4)), self.fresh(
                    r, name, ev), "%s, events %s of one number" % (r, a + b))
            # the next event in the same memory
            buf = np.empty(ev["a"].shape, dtype=ev["a"].dtype)
            red = self.make(r)
            for name in (a, b, a):
                if ev[name].dtype == buf.dtype:
                    buf[...] = ev[name]
                    self.same(red.process(buf), self.fresh(r, name, ev),
                              "%s, events %s in one array" % (r, a + b))
            ctx.ev(2)
            ctx.outcome((r, "number", a, b))

    def two(self, case, ctx, r, ev):
        """two instances, every interleaving of their events"""
        n = case["n"]
        ha, hb = "abn"[:n], "bdz"[:n]
        for pos in itertools.combinations(range(2 * n), n):
            red = [self.make(r), self.make(r)]
            idx = [0, 0]
            kept = []
            for s in range(2 * n):
                w = 0 if s in pos else 1
                name = (ha, hb)[w][idx[w]]
                idx[w] += 1
                d = red[w].process(ev[name].copy())
                kept.append((d, name))
                ctx.step()
                ctx.state((r, "two", pos, s))
                for d, name in kept:
                    self.same(d, self.fresh(r, name, ev), "%s, instances "
                              "interleaved as %s" % (r, pos))
            ctx.ev()

    def settings(self, case, ctx, r, ev):
        """instances with different settings in use at the same time"""
        sets = [dict(window_size=4, window_shift=1), {},
                dict(window_size=9, window_shift=5),
                dict(window_size=4, window_shift=5)]
        want = [{n: {c: np.array(v) for c, v in self.make(r, **k).process(
            ev[n].copy()).items()} for n in "ab"} for k in sets]
        for order in itertools.permutations(range(4)):
            reds = {i: self.make(r, **sets[i]) for i in order}
            for i in sorted(order) + list(order):
                for n in "ab":
                    self.same(reds[i].process(ev[n].copy()), want[i][n],
                              "%s with %s, instances made in the order %s" % (
                                  r, sets[i], order))
                ctx.step()
            ctx.ev()
            ctx.state((r, "settings", order))

    def mappings(self, case, ctx, r, ev):
        """cameras of the same size with the pixels in another order"""
        perms = [np.arange(64), np.arange(64)[::-1],
                 (np.arange(64) * 5 + 3) % 64, (np.arange(64) * 27) % 64]
        # exact sums of neighbours, in any order
        ev = {n: np.round(ev[n] * 4) / 4 for n in "an"}
        want = {n: {c: np.array(v) for c, v in self.make(r).process(
            ev[n].copy()).items()} for n in ev}
        for order in itertools.permutations(range(4)):
            for together in (True, False):
                reds = {i: self.make(r, mapping=permuted(perms[i]))
                        for i in order} if together else {}
                for i in order:
                    red = reds[i] if together else self.make(
                        r, mapping=permuted(perms[i]))
                    for n in ev:
                        self.same(red.process(ev[n][perms[i]]), {
                            c: v[perms[i]] for c, v in want[n].items()},
                            "%s, pixels in another order" % r)
                    ctx.step()
                ctx.ev()
                ctx.state((r, "mappings", order, together))

    def columns(self, case, ctx, r, ev):
        """a column does not depend on which others are active"""
        cols = COLUMNS[r] if r in COLUMNS else [
            c for n, cs in COLUMNS.items() for c in cs if n != "FlagFlashers"]
        for name in ("a", "n"):
            full = self.fresh(r, name, ev)
            for c in cols:
                d = self.make(r, only=c).process(ev[name].copy())
                self.same(d, {c: full[c]}, "%s alone" % c)
                ctx.ev()
                ctx.outcome((r, name, c))


CHECK = C10()
