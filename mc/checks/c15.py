"""Rolling baseline subtraction."""
import itertools
import numpy as np
from mc.engine import Check
from mc.util import expect, expect_close, lcg, same_values
from mc.wf import Tio


class Event(np.ndarray):
    @staticmethod
    def new(data, iev):
        e = np.array(data).view(Event)
        e.iev = iev
        return e


class Source:
    def __init__(self, events):
        self.events = events
        self.n_events = len(events)
        self.n_pixels, self.n_samples = events[0].shape
        self.given = []

    def __iter__(self):
        for i, w in enumerate(self.events):
            e = Event.new(w, i)
            self.given.append((e, w.copy()))
            yield e

    def untouched(self):
        return all(same_values(np.asarray(e), w) for e, w in self.given)


def waveforms(n, n_pixels, n_samples, seed, dtype=np.float64):
    v = lcg(n * n_pixels * n_samples, seed, 0, 63)
    v = v.reshape((n, n_pixels, n_samples))
    if np.dtype(dtype).kind == "f":
        return list((v * 0.25 - 4).astype(dtype))
    return list((v + 200).astype(dtype))


class Window:
    """The n_base slots; event i replaces the slot i modulo the number"""

    def __init__(self, source, n_base, n):
        self.n = n
        self.slots = [np.asarray(w, dtype=float)[:, :n]
                      for w in source[:n_base]]
        self.i = 0

    def subtract(self, w):
        w = np.asarray(w, dtype=float)
        self.slots[self.i % len(self.slots)] = w[:, :self.n]
        self.i += 1
        return w - self.baseline()[:, None]

    def baseline(self):
        return np.mean(np.stack(self.slots), axis=(0, 2))


class C15(Check):
    id = "C15"
    level = "model_checking"
    rule = "distinct (events in the source, window, samples, history)"
    assumptions = ("sources yield at least one event, in order",)
    bounds = {
        "quick": "sources of 1..7 events, windows of 1..6 events and 1, 3 or "
                 "all 8 samples, float and integer waveforms, histories of "
                 "every sequence of 3 different events up to length 4 and "
                 "rotating histories up to 2 windows + 2; two instances in "
                 "every interleaving of 3+3 calls; the default window of 50 "
                 "events with sources of 30, 50, 60; file readers with "
                 "event limits",
        "thorough": "sources up to 12, windows up to 10, histories of "
                    "length 6"}

    def setup(self):
        import CHECLabPy.utils.waveform  # noqa: F401
        import CHECLabPy.core.io  # noqa: F401

    def cases(self, tier):
        t = tier == "thorough"
        out = []
        for n_src in range(1, 13 if t else 8):
            for n_base in range(1, 11 if t else 7):
                out.append(dict(kind="ring", n_src=n_src, n_base=n_base))
        for n_src in (1, 2, 3, 4):
            for n_base in (1, 2, 3):
                out.append(dict(kind="histories", n_src=n_src, n_base=n_base,
                                depth=6 if t else 4))
        for sel in itertools.combinations(range(6), 3):
            out.append(dict(kind="two", first=list(sel)))
        for n_src in (30, 49, 50, 51, 60):
            out.append(dict(kind="default", n_src=n_src))
        for mx in (None, 1, 2, 3, 4, 5):
            for r1 in (True, False):
                out.append(dict(kind="reader", max=mx, r1=r1))
        return out

    def run(self, case, ctx):
        getattr(self, case["kind"])(case, ctx)
        ctx.trace()
        ctx.outcome(repr(case))

    def pair(self, events, n_base, n, **k):
        from CHECLabPy.utils.waveform import BaselineSubtractor
        src = Source(events)
        sub = BaselineSubtractor(src, **k) if k.pop("default", None) else \
            BaselineSubtractor(src, n_base=n_base, n_base_samples=n)
        expect(src.untouched(), "the waveforms of the source were changed")
        model = Window(events, n_base, n)
        expect_close(sub.baseline, model.baseline(), "initial baseline")
        return sub, model

    def call(self, sub, model, wf, what, ctx):
        given = wf.copy()
        before = sub.baseline
        kept = np.array(before)
        got = sub.subtract(given)
        want = model.subtract(wf)
        expect(same_values(given, wf), "%s: the input was changed" % what)
        expect(not np.shares_memory(got, given),
               "%s: the result is the input" % what)
        expect_close(got, want, "%s: waveforms" % what)
        expect_close(sub.baseline, model.baseline(), "%s: baseline" % what)
        expect(same_values(before, kept), "%s: the baseline obtained before "
               "was changed" % what)
        # the event may be reused by the reader afterwards
        given[:] = 0
        ctx.step()
        ctx.ev()

    def ring(self, case, ctx):
        n_src, n_base = case["n_src"], case["n_base"]
        for n_pixels, n_samples, n, dtype in (
                (3, 8, 1, float), (3, 8, 3, np.float32), (2, 8, 8, np.uint16),
                (1, 5, 3, np.float32), (3, 20, 16, float)):
            evs = waveforms(n_src, n_pixels, n_samples, 5, dtype)
            more = waveforms(2 * n_base + 2, n_pixels, n_samples, 9, dtype)
            sub, model = self.pair(evs, n_base, n)
            for i, w in enumerate(more):
                self.call(sub, model, w, "call %d" % i, ctx)
                ctx.state((n_src, n_base, n, n_pixels, i))
            # the file itself again, as every script does
            sub, model = self.pair(evs, n_base, n)
            for i, w in enumerate(evs):
                self.call(sub, model, w, "event %d" % i, ctx)

    def histories(self, case, ctx):
        n_src, n_base = case["n_src"], case["n_base"]
        evs = waveforms(n_src, 2, 6, 3)
        some = waveforms(3, 2, 6, 21)
        for seq in itertools.product(range(3), repeat=case["depth"]):
            sub, model = self.pair(evs, n_base, 4)
            for i, k in enumerate(seq):
                self.call(sub, model, some[k], "history %s call %d" % (
                    seq, i), ctx)
                ctx.state((n_src, n_base, seq[:i + 1]))

    def two(self, case, ctx):
        evs = [waveforms(3, 2, 6, 3), waveforms(2, 2, 6, 4)]
        pairs = [self.pair(evs[0], 3, 4), self.pair(evs[1], 2, 2)]
        some = waveforms(6, 2, 6, 22)
        for i in range(6):
            w = 0 if i in case["first"] else 1
            self.call(*pairs[w], some[i], "call %d on %d" % (i, w), ctx)
            expect_close(pairs[1 - w][0].baseline, pairs[1 - w][1].baseline(),
                         "baseline of the other one")
            ctx.state((tuple(case["first"]), i))

    def default(self, case, ctx):
        n_src = case["n_src"]
        evs = waveforms(n_src, 4, 32, 3, np.float32)
        sub, model = self.pair(evs, 50, 16, default=True)
        for i, w in enumerate(waveforms(120, 4, 32, 6, np.float32)):
            self.call(sub, model, w, "call %d" % i, ctx)
            ctx.state((n_src, i))

    def reader(self, case, ctx):
        from CHECLabPy.core.io import TIOReader
        from CHECLabPy.utils.waveform import BaselineSubtractor
        run = Tio(ctx.path("r1.tio"), 8, n_samples=20, r1=case["r1"])
        with_limit = {} if case["max"] is None else \
            dict(max_events=case["max"])
        reader = TIOReader(run.path, **with_limit)
        evs = list(run.samples[2:7][:case["max"]])
        sub = BaselineSubtractor(reader, n_base=4)
        model = Window(evs, 4, 16)
        expect_close(sub.baseline, model.baseline(), "initial baseline")
        for i, wf in enumerate(reader):
            got = sub.subtract(wf)
            expect_close(np.asarray(got), model.subtract(evs[i]),
                         "event %d" % i, 1e-5, 1e-5)
            expect(same_values(np.asarray(wf), evs[i]),
                   "event %d: the input was changed" % i)
            expect(got.iev == i and got.t_tack == wf.t_tack,
                   "event %d: attributes of the subtracted waveforms" % i)
            ctx.step()
            ctx.ev()
            ctx.state((case["max"], case["r1"], i))
        expect(i == len(evs) - 1, "events")


CHECK = C15()
