"""Amplitude matching: the search for the DAC of every superpixel."""
import itertools
import numpy as np
from mc.engine import Check
from mc.util import expect, expect_close, same_values
from mc.wf import Tio

N_SP = 512
AIM = 50.0


class Calibrator:
    """R1 = (R0 - 4000 - fci % 5) / 64"""
    n_pixels, n_samples = 2048, 2

    def __init__(self):
        self.seen = []

    def __call__(self, r0, fci):
        a = np.asarray(r0)
        assert a.dtype == np.uint16 and a.shape == (2048, 2)
        self.seen.append(int(np.asarray(fci).ravel()[0]))
        return (a.astype(np.float32) - 4000 - int(fci) % 5) / 64


class Profile:
    factor = np.where(np.arange(2048) % 3 == 0, 0.5, 2.0)

    def unfold(self, image):
        assert image.shape == (2048,)
        return image / self.factor


def make_file(ctx, amp, events=2, profile=False, beyond=0):
    """A file whose average amplitude of superpixel s is amp[s] (multiples of
    1/64); pixels, events and samples scatter around it"""
    total = events + 3 + beyond
    per = np.repeat(np.asarray(amp, dtype=float), 4) * 64
    off = np.tile([96, -96, 32, -32], N_SP)
    data = np.zeros((total, 2048, 2))
    fci = [(13 * i + 3) % 4096 for i in range(total)]
    for i in range(total):
        for n, far in ((4, 3), (3, 2), (2, 1), (1, 0)):
            if events % n == 0:  # the mean is not the median
                break
        a = per + off + 64 * (far if (i - 2) % n == 0 else -(far > 0))
        if i < 2 or i >= events + 2:
            a = per * 0 + 29000
        if profile:
            a = a * Profile.factor
        data[i, :, i % 2] = a
        data[i, :, 1 - i % 2] = -3900
        data[i] += 4000 + fci[i] % 5
    assert data.min() >= 0 and data.max() < 65536
    r = np.rint(data)
    run = Tio(ctx.path("r0.tio"), total, 2048, 2, r1=False,
              samples=r.astype(np.uint16), first_cell_id=fci)
    return run


class Superpixel:
    """The search of one superpixel, as documented"""
    STEPS = (10, 5, 1)

    def __init__(self, dac, masked):
        self.dac = self.prev = dac
        self.masked = masked
        self.stage = 0
        self.first = True
        self.best = None

    def second_pass(self):
        self.first = True
        self.stage = 2

    def update(self, average):
        distance = ((average - AIM) / AIM) ** 2
        dac = self.dac
        new = dac
        if self.stage < 3:
            if self.masked:
                new, self.stage = 255, 3
            elif distance == 0:
                self.stage = 3
            elif not self.first and self.best < distance:
                new = self.prev
                self.stage += 1
            else:
                sign = 1 if average > AIM else -1
                if not self.first and self.best == distance and \
                        (dac - self.prev) * sign < 0:
                    self.stage += 1  # as far on the other side
                if self.stage < 3:
                    new = dac + sign * self.STEPS[self.stage]
                    if new > 255 or new < 10:
                        new, self.stage = 255, 3
        self.best = distance
        self.first = False
        self.prev = dac
        self.dac = new
        return new

    def key(self):
        return (self.dac, self.prev, self.stage, self.best, self.masked)


class Model:
    def __init__(self, dacs, masked):
        self.sp = [Superpixel(int(d), bool(m)) for d, m in zip(dacs, masked)]
        self.phase = 0

    def dacs(self):
        return np.array([s.dac for s in self.sp])

    def process(self, averages):
        if self.phase == 1:
            for s in self.sp:
                s.second_pass()
            self.phase = 2
        if self.phase == 3:
            return self.dacs(), True
        for s, a in zip(self.sp, averages):
            s.update(a)
        if all(s.stage == 3 for s in self.sp):
            self.phase += 1
        return self.dacs(), False


def response(kind, dac, k):
    """amplitude in multiples of 1/16, strictly falling with the DAC"""
    d = np.arange(256)
    if kind == "steep":
        a = AIM + (k - d) * 0.625
    elif kind == "flat":
        a = AIM + (k - d) * 0.1875
    else:
        a = AIM * np.exp((k - d) / 90.0)
    return np.maximum(a, -20)[dac]


class C18(Check):
    id = "C18"
    level = "model_checking"
    rule = "distinct states of one superpixel (DAC, last DAC, stage, ...)"
    assumptions = (
        "stand-in TargetIO files; the calibrator is a recording stand-in",
)
    bounds = {
        "quick": "one superpixel: every sequence of 5 responses out of 5 "
                 "amplitudes (3125 histories, 512 in parallel); falling "
                 "responses: every optimum from 5 to 260 from 4 starting "
                 "DACs, 3 shapes, to the end of the second pass; every sequence of 4 amplitudes "
                 "within 1/4 of the aim; all superpixels "
                 "finished at once; masks in camera shape, by "
                 "superpixel and by pixel, illumination profile, 101 and 1 "
                 "events per file",
        "thorough": "every sequence of 7 responses; 24 starting DACs"}

    def setup(self):
        import CHECLabPy.calib  # noqa: F401
        import CHECLabPy.core.io  # noqa: F401
        import CHECLabPy.waveform_reducers.average_wf  # noqa: F401

    def cases(self, tier):
        t = tier == "thorough"
        out = []
        depth = 7 if t else 5
        for i in range(0, 5 ** depth, N_SP):
            for start in ((100, 250, 12) if not t else (100,)):
                out.append(dict(kind="histories", first=i, depth=depth,
                                start=start))
        starts = [10, 100, 177, 255] if not t else \
            [10, 11, 14, 15, 19, 20, 24, 25, 50, 75, 99, 100, 101, 120, 133,
             150, 177, 200, 230, 245, 246, 250, 254, 255]
        for i in range(0, len(starts), 2):
            for shape in ("steep", "flat", "exp"):
                out.append(dict(kind="search", starts=starts[i:i + 2],
                                shape=shape))
        out.append(dict(kind="masks", by="superpixel"))
        out.append(dict(kind="masks", by="pixel"))
        out.append(dict(kind="masks", by="partial"))
        out.append(dict(kind="masks", by="grid"))
        out += [dict(kind="at_once", left=i) for i in range(3)]
        out.append(dict(kind="near"))
        out.append(dict(kind="profile"))
        out.append(dict(kind="events", n=1))
        out.append(dict(kind="events", n=3))
        out.append(dict(kind="events", n=4))
        out.append(dict(kind="events", n=100))
        out.append(dict(kind="two"))
        out.append(dict(kind="tie"))
        return out

    def run(self, case, ctx):
        getattr(self, case["kind"])(case, ctx)
        ctx.trace()

    def matcher(self, **k):
        from CHECLabPy.calib import AmplitudeMatcher
        return AmplitudeMatcher(Calibrator(), AIM, **k)

    def step(self, m, model, amp, what, ctx, events=2, profile=False,
             beyond=0):
        run = make_file(ctx, amp, events, profile, beyond)
        m.calibrator.seen.clear()
        dac, per_pixel, finished = m.process(run.path)
        n = min(events, 100)
        fci = [run.spec["first_cell_id"][i + 2] for i in range(n)]
        expect(m.calibrator.seen == fci, lambda: "%s: first cell ids %s, "
               "expected %s" % (what, m.calibrator.seen, fci))
        want, end = model.process(np.asarray(amp))
        dac = np.asarray(dac)
        expect(dac.shape == (32, 16), lambda: "%s: shape %s" % (
            what, dac.shape))
        expect(bool(finished) == end, lambda: "%s: finished is %s" % (
            what, finished))
        got = dac.ravel()
        bad = np.nonzero(got != want)[0]
        expect(len(bad) == 0, lambda: "%s: superpixel %d gets DAC %s, expected"
               " %s (amplitude %s)" % (what, bad[0], got[bad[0]],
                                       want[bad[0]], amp[bad[0]]))
        off = np.tile([96, -96, 32, -32], N_SP) / 64
        expect_close(per_pixel, np.repeat(amp, 4) + off,
                     "%s: average amplitudes" % what, 1e-6, 1e-4)
        ctx.clean()
        ctx.step(N_SP)
        ctx.ev(N_SP)
        for s in model.sp:
            ctx.state(s.key())
        return got, finished

    def histories(self, case, ctx):
        depth, start = case["depth"], case["start"]
        levels = (AIM + 30, AIM + 3, AIM, AIM - 5, AIM - 20)
        seqs = [[(i // 5 ** j) % 5 for j in range(depth)]
                for i in range(case["first"], case["first"] + N_SP)]
        seqs = [s if i < 5 ** depth else [2] * depth for i, s in
                zip(range(case["first"], case["first"] + N_SP), seqs)]
        m = self.matcher(starting_dacs=np.full((32, 16), start))
        model = Model([start] * N_SP, [False] * N_SP)
        for j in range(depth):
            amp = [levels[s[j]] for s in seqs]
            self.step(m, model, amp, "history %s.. call %d" % (
                seqs[0][:j + 1], j), ctx)
        for s in seqs:
            ctx.outcome((start, tuple(s)))

    def near(self, case, ctx):
        """amplitudes only just off the aim"""
        levels = (AIM + 1 / 64, AIM - 1 / 64, AIM + 3 / 64, AIM - 2 / 64,
                  AIM + 0.25)
        for first in range(0, 5 ** 4, N_SP):
            seqs = [[(i // 5 ** j) % 5 for j in range(4)]
                    for i in range(first, first + N_SP)]
            m = self.matcher()
            model = Model([100] * N_SP, [False] * N_SP)
            for j in range(4):
                amp = [levels[s[j]] for s in seqs]
                self.step(m, model, amp, "near the aim, call %d" % j, ctx)
            for s in seqs:
                ctx.outcome(("near", tuple(s)))

    def best(self, table):
        if table[255] > AIM or table[10] < AIM:
            return None
        d = np.abs(table - AIM)
        d[:10] = np.inf
        return int(np.argmin(d))

    def search(self, case, ctx):
        shape = case["shape"]
        targets, starts = [], []
        for i in range(N_SP):
            # a quarter of a step away from the DAC: no ties
            targets.append(5 + i % 256 + (0, 0.2)[i % 2])
            starts.append(case["starts"][i // 256])
        d = np.arange(256)
        tables = [np.round(response(shape, d, k) * 16) / 16 for k in targets]
        m = self.matcher(starting_dacs=np.array(starts))
        model = Model(starts, [False] * N_SP)
        dac = np.array(starts)
        end = False
        n = 0
        while not end:
            amp = [t[x] for t, x in zip(tables, dac)]
            dac, end = self.step(m, model, amp, "call %d" % n, ctx)
            expect(dac.min() >= 10 and dac.max() <= 255, "DAC outside range")
            n += 1
            expect(n < 700, "the search does not end")
        for i in range(N_SP):
            want = self.best(tables[i])
            t = tables[i]
            if want is None:
                # cannot be matched: the limit is the lowest gain, except on
                # the edge itself
                ok = dac[i] == 255 or abs(t[dac[i]] - AIM) <= min(
                    abs(t[10] - AIM), abs(t[255] - AIM))
            else:
                ok = abs(t[dac[i]] - AIM) <= abs(t[want] - AIM) or (
                    dac[i] == 255 and want == 10)
            expect(ok, lambda: "superpixel %d ends at DAC %d (%.3f), DAC %s "
                   "is closer" % (i, dac[i], t[dac[i]], want))
            ctx.outcome((shape, starts[i], targets[i]))

    def masks(self, case, ctx):
        bad = np.zeros(N_SP, dtype=bool)
        bad[[0, 3, 17, 511]] = True
        given = bad.copy()
        if case["by"] == "pixel":
            given = np.repeat(bad, 4)
        if case["by"] == "grid":
            given = bad.reshape((32, 16))
        if case["by"] == "partial":
            # a superpixel with one or three bad pixels is not bad
            given = np.repeat(bad, 4)
            given[[8, 20, 21, 22]] = True
        m = self.matcher(bad_hv=given)
        model = Model([100] * N_SP, bad)
        d = np.arange(256)
        tables = [np.round(response("steep", d, 60 + i % 80 + 0.2) * 16) / 16
                  for i in range(N_SP)]
        dac = np.full(N_SP, 100)
        end, n = False, 0
        while not end:
            amp = [t[x] for t, x in zip(tables, dac)]
            dac, end = self.step(m, model, amp, "call %d" % n, ctx)
            expect((dac[bad] == 255).all(), "masked superpixels are not at "
                   "255")
            n += 1
            expect(n < 700, "the search does not end")
        ctx.outcome(case["by"])

    def at_once(self, case, ctx):
        """all superpixels are masked or matched from the start, but few"""
        left = case["left"]
        bad = np.arange(N_SP) % 2 == 0
        bad[:left] = False
        m = self.matcher(bad_hv=bad)
        model = Model([100] * N_SP, bad)
        end, n = False, 0
        dac = np.full(N_SP, 100)
        while not end:
            amp = [AIM] * N_SP
            for i in range(left):
                amp[i] = AIM + (101 + i - dac[i]) * 0.625
            dac, end = self.step(m, model, amp, "call %d" % n, ctx)
            n += 1
            expect(n < 50, "the search does not end")
        ctx.outcome(("at once", left))

    def profile(self, case, ctx):
        m = self.matcher(illumination_profile=Profile())
        model = Model([100] * N_SP, [False] * N_SP)
        d = np.arange(256)
        tables = [np.round(response("steep", d, 60 + i % 80 + 0.2)).clip(10)
                  for i in range(N_SP)]
        dac = np.full(N_SP, 100)
        end, n = False, 0
        while not end:
            amp = [t[x] for t, x in zip(tables, dac)]
            dac, end = self.step(m, model, amp, "call %d" % n, ctx,
                                 profile=True)
            n += 1
            expect(n < 700, "the search does not end")
        ctx.outcome("profile")

    def events(self, case, ctx):
        m = self.matcher()
        model = Model([100] * N_SP, [False] * N_SP)
        for n in range(3):
            amp = [AIM + (i % 9 - 4) * 0.5 + n for i in range(N_SP)]
            self.step(m, model, amp, "call %d" % n, ctx, events=case["n"])
        if case["n"] == 100:  # events after the first 100 are not used
            amp = [AIM + (i % 7 - 3) * 0.5 for i in range(N_SP)]
            self.step(m, model, amp, "more events", ctx, events=100,
                      beyond=4)
        ctx.outcome(case["n"])

    def two(self, case, ctx):
        """two matchers used in turns"""
        ms = [self.matcher(), self.matcher(starting_dacs=np.full(N_SP, 180))]
        models = [Model([100] * N_SP, [False] * N_SP),
                  Model([180] * N_SP, [False] * N_SP)]
        for n in range(8):
            w = (0, 1, 1, 0, 1, 0, 0, 1)[n]
            amp = [AIM + ((i * (n + 1)) % 13 - 6.5) * (1 + w)
                   for i in range(N_SP)]
            self.step(ms[w], models[w], amp, "call %d on %d" % (n, w), ctx)
        ctx.outcome("two")

    def tie(self, case, ctx):
        """the aim is exactly half way between two DACs"""
        starts = 40 + np.arange(N_SP) % 128
        m = self.matcher(starting_dacs=starts)
        model = Model(starts, [False] * N_SP)
        d = np.arange(256)
        table = np.round(response("steep", d, 104.5) * 16) / 16
        assert table[104] - AIM == AIM - table[105]
        dac, end, n = starts, False, 0
        while not end:
            dac, end = self.step(m, model, table[dac], "call %d" % n, ctx)
            n += 1
            expect(n < 200, "the search does not end when the aim is exactly "
                   "half way between two DACs")
        expect((np.isin(dac, (104, 105))).all(), lambda: "DACs %s, expected "
               "104 or 105" % np.unique(dac))
        ctx.outcome("tie")


CHECK = C18()
