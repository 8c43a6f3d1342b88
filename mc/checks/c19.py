"""Pixel masks: files, the latest one, merging and committing."""
import datetime
import glob
import itertools
import os
import shutil
import sys
import tempfile
import time
import traceback
import numpy as np
import pandas as pd
from mc.engine import REPO, Check
from mc.util import expect, lcg, same_values

N = 2048


class Masks:
    def __init__(self, dead=None, low=None, bad=None):
        self.dead = np.zeros(N, bool) if dead is None else dead
        self.low = np.zeros(N, bool) if low is None else low
        self.bad = np.zeros(512, bool) if bad is None else bad

    def copy(self):
        return Masks(self.dead.copy(), self.low.copy(), self.bad.copy())

    def merged(self, other):
        return Masks(self.dead | other.dead, self.low | other.low,
                     self.bad | other.bad)


def read(path):
    """independent reader of a mask file"""
    with open(path) as f:
        head = f.readline().split()
        rows = [dict(zip(head, line.split())) for line in f]
    m = Masks()
    for r in rows:
        p = int(r["pixel"])
        m.dead[p] = r["dead"] == "True"
        m.low[p] = r["low"] == "True"
        if r["bad_hv"] == "True":
            m.bad[p // 4] = True
    expect(len(rows) == N, "%s: %d rows" % (path, len(rows)))
    return m


def write(path, dead, low, bad_pixels, order=("pixel", "dead", "low",
                                              "bad_hv")):
    df = pd.DataFrame(dict(pixel=np.arange(N), dead=dead, low=low,
                           bad_hv=bad_pixels))
    df[list(order)].to_csv(path, sep="\t", index=False)


def some(seed, n, size=N):
    v = np.zeros(size, bool)
    v[lcg(n, seed, 0, size - 1)] = True
    return v


class Clock:
    """the time of the checked code"""
    now = 1556500000.0
    real = dict(datetime=datetime.datetime, date=datetime.date)
    real.update({k: getattr(time, k) for k in (
        "time", "localtime", "gmtime", "strftime", "time_ns", "ctime",
        "asctime")})

    @classmethod
    def set(cls, *t):
        cls.now = cls.real["datetime"](*t).timestamp()

    @classmethod
    def install(cls):
        real = cls.real

        class Datetime(real["datetime"]):
            @classmethod
            def now(self, tz=None):
                return real["datetime"].fromtimestamp(Clock.now, tz)

            @classmethod
            def utcnow(self):
                return real["datetime"].fromtimestamp(
                    Clock.now, datetime.timezone.utc).replace(tzinfo=None)

            @classmethod
            def today(self):
                return real["datetime"].fromtimestamp(Clock.now)

        class Date(real["date"]):
            @classmethod
            def today(self):
                return real["date"].fromtimestamp(Clock.now)
        datetime.datetime, datetime.date = Datetime, Date
        pd.Timestamp  # keeps its own clock
        time.localtime = lambda s=None: real["localtime"](
            Clock.now if s is None else s)
        time.gmtime = lambda s=None: real["gmtime"](
            Clock.now if s is None else s)
        time.strftime = lambda f, t=None: real["strftime"](
            f, time.localtime() if t is None else t)
        time.time = lambda: Clock.now
        time.time_ns = lambda: int(Clock.now * 10 ** 9)

    @classmethod
    def uninstall(cls):
        datetime.datetime, datetime.date = (cls.real["datetime"],
                                            cls.real["date"])
        for k in ("time", "time_ns", "localtime", "gmtime", "strftime"):
            setattr(time, k, cls.real[k])


# steps of the clock between two commits: seconds
STEPS = (0, 1, 59, 60, 61, 600, 3600, 11 * 3600, 12 * 3600, 13 * 3600,
         86400 - 60, 86400, 31 * 86400, 365 * 86400, 9 * 365 * 86400)
TIMES = ((2019, 4, 28, 21, 50, 30), (2019, 9, 30, 23, 59, 30),
         (2019, 12, 31, 11, 59, 59), (2020, 1, 9, 0, 0, 0),
         (2021, 10, 10, 9, 59, 1), (2026, 2, 28, 12, 0, 59))


FILES = {
    "A": (1, ("pixel", "dead", "low", "bad_hv")),
    "B": (2, ("bad_hv", "dead", "low", "pixel")),
}


class C19(Check):
    id = "C19"
    level = "model_checking"
    nproc = {"quick": 1, "thorough": 1}
    rule = "distinct (history, masks)"
    assumptions = (
        "runs on a scratch copy of the package, since committing writes into "
        "the package; the clock does not go backwards",)
    bounds = {
        "quick": "every history up to length 3 of {load A, load B, merge A, "
                 "merge B, change, commit, restart}; every pattern of bad "
                 "pixels in every superpixel; the files shipped; lists of "
                 "superpixels and modules; 23 commits within a minute; 3 commits "
                 "at 6 times with 15 x 3 steps of the clock; plots of 2 masks",
        "thorough": "histories up to length 5; plots of 6 masks"}

    def setup(self):
        self.root = tempfile.mkdtemp()
        shutil.copytree(os.path.join(REPO, "CHECLabPy"),
                        os.path.join(self.root, "CHECLabPy"),
                        ignore=shutil.ignore_patterns("__pycache__"))
        sys.path.insert(0, self.root)
        self.data = os.path.join(self.root, "CHECLabPy", "calib", "data",
                                 "pixel_masks")
        self.keep = sorted(os.listdir(self.data))
        import CHECLabPy.utils.files  # noqa: F401
        Clock.install()
        try:
            import CHECLabPy.calib.pixel_masks as m
        except Exception:
            expect(False, traceback.format_exc())
        finally:
            Clock.uninstall()
        assert os.path.realpath(m.__file__).startswith(
            os.path.realpath(self.root)), m.__file__

    def cases(self, tier):
        t = tier == "thorough"
        ops = ("lA", "lB", "mA", "mB", "change", "commit", "restart")
        out = [dict(kind="shipped"), dict(kind="superpixels"),
               dict(kind="lists"), dict(kind="instances"),
               dict(kind="many")]
        for seed in range(6 if t else 2):
            out.append(dict(kind="plot", seed=seed))
        for start in TIMES:
            for step in STEPS:
                out.append(dict(kind="clock", start=list(start), step=step,
                                steps=list(STEPS) if t else [0, 60, 43200]))
        for n in range(1, 6 if t else 4):
            for seq in itertools.product(ops, repeat=n):
                # something is committed and read again
                if n > 2 and not ("commit" in seq[:-1]):
                    continue
                out.append(dict(kind="history", ops=list(seq)))
        return out

    def run(self, case, ctx):
        Clock.set(2019, 5, 1, 12, 0, 0)
        Clock.install()
        try:
            getattr(self, case["kind"])(case, ctx)
            ctx.trace()
            ctx.outcome(repr(case))
        except Exception as e:
            from mc.engine import Violation
            tb = traceback.format_exc()
            if isinstance(e, Violation) or self.root not in tb:
                raise
            ctx.fail("the code raised: " + tb[-1500:])
        finally:
            Clock.uninstall()
            for n in os.listdir(self.data):
                if n not in self.keep:
                    os.remove(os.path.join(self.data, n))

    def compare(self, pm, m, what, ctx):
        for k, w in (("dead", m.dead), ("low", m.low), ("bad_hv", m.bad)):
            g = np.asarray(getattr(pm, k))
            expect(g.dtype == bool and same_values(g, w), lambda:
                   "%s: %s marks %s, expected %s" % (
                       what, k, np.nonzero(g)[0], np.nonzero(w)[0]))
        every = m.dead | m.low | np.repeat(m.bad, 4)
        expect(same_values(pm.all_mask, every), "%s: all_mask" % what)
        ctx.ev()

    def shipped(self, case, ctx):
        from CHECLabPy.calib import PixelMasks
        for n in self.keep:
            if n.endswith(".dat"):
                p = os.path.join(self.data, n)
                self.compare(PixelMasks(p), read(p), n, ctx)
        self.compare(PixelMasks(), read(os.path.join(
            self.data, "d190428T2149.dat")), "latest", ctx)
        # the latest file does not depend on the order of the directory
        for n in ("d190428T2150.dat", "d190501T0000.dat",
                  "d191001T0000.dat", "d200101T0000.dat"):
            p = os.path.join(self.data, n)
            write(p, some(5, 4), some(len(n), 3), some(8, 3))
            self.compare(PixelMasks(), read(p), "latest is " + n, ctx)
            ctx.state(n)
            ctx.step()

    def superpixels(self, case, ctx):
        from CHECLabPy.calib import PixelMasks
        for rot in range(16):
            bits = np.array([[(sp + rot) >> k & 1 for k in range(4)]
                             for sp in range(512)], bool)
            p = ctx.path("d.dat")
            write(p, some(rot, 5), some(rot + 20, 4), bits.ravel())
            m = read(p)
            expect(same_values(m.bad, ((np.arange(512) + rot) % 16) > 0),
                   "reader")
            pm = PixelMasks(path=p)
            self.compare(pm, m, "pattern %d" % rot, ctx)
            ctx.state(rot)
            ctx.step()

    def lists(self, case, ctx):
        from CHECLabPy.calib import PixelMasks
        lists = [[0], [511], [3, 1, 2], [5, 5], list(range(512)), [],
                 [31, 0, 17]]
        for li in lists:
            for conv in (list, np.array, tuple):
                got = PixelMasks.convert_superpixels_to_pixels(
                    np.array(conv(li), int) if conv is np.array else conv(li)
                    if li else np.array([], int))
                want = [s * 4 + k for s in li for k in range(4)]
                expect(same_values(got, np.array(want, int)), lambda:
                       "pixels of superpixels %s: %s" % (li, got))
                ml = [x % 32 for x in li]
                got = PixelMasks.convert_module_to_pixels(
                    np.array(conv(ml), int) if conv is np.array else conv(ml)
                    if li else np.array([], int))
                want = [s * 64 + k for s in ml for k in range(64)]
                expect(same_values(got, np.array(want, int)), lambda:
                       "pixels of modules %s: %s" % (ml, got))
                ctx.ev(2)

    def instances(self, case, ctx):
        from CHECLabPy.calib import PixelMasks
        a = PixelMasks()
        m = Masks(*[np.array(x) for x in (a.dead, a.low, a.bad_hv)])
        b = PixelMasks()
        b.dead[:] = True
        b.low[[1, 2]] = True
        b.bad_hv[:] = True
        self.compare(a, m, "another instance was changed", ctx)
        self.compare(PixelMasks(), m, "a new instance", ctx)

    def plot(self, case, ctx):
        """each kind of mark at its pixel, nothing elsewhere"""
        from matplotlib import pyplot as plt
        from CHECLabPy.calib import PixelMasks
        from target_calib import CameraConfiguration
        pos = CameraConfiguration("1.1.0").GetMapping(False).as_dataframe()
        x, y = pos["xpix"].values, pos["ypix"].values
        s = case["seed"]
        m = Masks(some(s, 9 + s), some(s + 10, 7), some(s + 20, 5, 512))
        p = ctx.path("d.dat")
        write(p, m.dead, m.low, np.repeat(m.bad, 4))
        plt.close("all")
        pm = PixelMasks(p)
        pm.plot()
        expect(len(plt.get_fignums()) == 1, "plot: %d figures" %
               len(plt.get_fignums()))
        ax = plt.gcf().axes[0]
        val = np.ma.filled(ax.collections[0].get_array().astype(float),
                           np.nan)
        corner = np.array([q.vertices[:4].mean(0) for q in
                           ax.collections[0].get_paths()])
        expect(corner.shape == (N, 2) and np.abs(
            corner - np.c_[x, y]).max() < 1e-3, "plot: pixels misplaced")
        kinds = dict(dead=m.dead, low=m.low, bad_hv=np.repeat(m.bad, 4))
        n = sum(k.astype(int) for k in kinds.values())
        expect(same_values(np.isfinite(val), n > 0), lambda: "plot: pixels "
               "shown %s, marked %s" % (np.nonzero(np.isfinite(val))[0],
                                        np.nonzero(n)[0]))
        seen = {}
        for k, mask in kinds.items():
            v = np.unique(val[mask & (n == 1)])
            expect(v.size == 1, lambda: "plot: values of %s: %s" % (k, v))
            seen[k] = v[0]
        expect(len(set(seen.values())) == 3, "plot: kinds of marks are not "
               "told apart: %s" % seen)
        for i in np.nonzero(n > 1)[0]:
            expect(any(val[i] == seen[k] for k in kinds if kinds[k][i]),
                   "plot: pixel %d is shown as %s" % (i, val[i]))
        text = {}
        for q in ax.texts:
            text.setdefault(q.get_text(), []).append(q.get_position())
        for i in range(N):
            expect(len(text.get(str(i), ())) == 1 and np.abs(
                np.array(text[str(i)][0]) - (x[i], y[i])).max() < 1e-3,
                "plot: label of pixel %d" % i)
        plt.close("all")
        self.compare(pm, m, "after plotting", ctx)
        ctx.ev(N)
        ctx.state(("plot", s))
        ctx.step()

    def commit(self, pm, what):
        """the file written; the ones that were there are unchanged"""
        before = {f: read(f) for f in glob.glob(os.path.join(
            self.data, "d*")) if os.path.basename(f) not in self.keep}
        names = set(os.listdir(self.data))
        pm.commit()
        new = sorted(set(os.listdir(self.data)) - names)
        for f, m in before.items():
            expect(os.path.exists(f), lambda: "%s: the mask %s is gone" % (
                what, f))
            g = read(f)
            expect(same_values(g.dead, m.dead) and same_values(g.low, m.low)
                   and same_values(g.bad, m.bad), lambda: "%s: the earlier "
                   "mask %s was overwritten" % (what, f))
        expect(len(new) == 1, lambda: "%s: files written %s" % (what, new))
        return read(os.path.join(self.data, new[0]))

    def many(self, case, ctx):
        """more commits within a minute than digits"""
        from CHECLabPy.calib import PixelMasks
        Clock.set(2019, 9, 30, 23, 59, 1)
        for i in range(23):
            Clock.now += i % 3
            pm = PixelMasks()
            m = Masks(some(i + 1, 5), some(i + 30, 4), some(i, 3, 512))
            pm.dead, pm.low, pm.bad_hv = (m.dead.copy(), m.low.copy(),
                                          m.bad.copy())
            self.commit(pm, "commit %d of one minute" % i)
            self.compare(PixelMasks(), m, "commit %d of one minute, "
                         "restarted" % i, ctx)
            ctx.step()
            ctx.state(("many", i))

    def clock(self, case, ctx):
        """commits at all distances in time"""
        from CHECLabPy.calib import PixelMasks
        for last in case["steps"]:
            Clock.set(*case["start"])
            done = []
            for i, step in enumerate((0, case["step"], last)):
                Clock.now += step
                pm = PixelMasks()
                m = Masks(some(i + 1, 5), some(i + 30, 4), some(i, 3, 512))
                pm.dead, pm.low, pm.bad_hv = (m.dead.copy(), m.low.copy(),
                                              m.bad.copy())
                what = "commit %d, steps %s s from %s" % (
                    i, (case["step"], last), case["start"])
                f = self.commit(pm, what)
                expect(same_values(f.dead, m.dead), what + ": the file")
                done.append(m)
                self.compare(PixelMasks(), m, what + ", restarted", ctx)
                ctx.step()
                ctx.state((tuple(case["start"]), case["step"], last, i))
            for n in os.listdir(self.data):
                if n not in self.keep:
                    os.remove(os.path.join(self.data, n))

    def history(self, case, ctx):
        from CHECLabPy.calib import PixelMasks
        pm = PixelMasks()
        model = read(os.path.join(self.data, "d190428T2149.dat"))
        latest = model.copy()
        paths, models = {}, {}
        for k, (seed, order) in FILES.items():
            paths[k] = ctx.path("d%s.dat" % k)
            dead, low, bad = (some(seed, 6), some(seed + 10, 5),
                              some(seed + 20, 4, 512))
            # marks of several kinds on one pixel, in one file or the other
            i, j = (8, 20) if k == "A" else (20, 8)
            dead[i:i + 4] = low[i + 1:i + 3] = low[j:j + 4] = True
            bad[[i // 4, 500]] = True
            write(paths[k], dead, low, np.repeat(bad, 4), order)
            models[k] = read(paths[k])
        n = 0
        for op in case["ops"]:
            what = "after %s of %s" % (op, case["ops"])
            if op[0] in "lm" and op[1:] in FILES:
                k = op[1]
                if op[0] == "l":
                    pm = PixelMasks(paths[k])
                    model = models[k].copy()
                else:
                    if not hasattr(pm, "_load_file"):
                        return
                    pm._load_file(path=paths[k], merge=True)
                    model = model.merged(models[k])
                expect(same_values(read(paths[k]).dead, models[k].dead),
                       "%s: file changed" % what)
            elif op == "change":
                n += 1
                for x, y in ((pm.dead, model.dead), (pm.low, model.low),
                             (pm.bad_hv, model.bad)):
                    i = (100 * n + 7) % x.size
                    x[i] = not x[i]
                    y[i] = not y[i]
                    n += 1
            elif op == "commit":
                Clock.now += 1  # several commits within a minute
                f = self.commit(pm, what)
                latest = model.copy()
                expect(same_values(f.dead, model.dead)
                       and same_values(f.low, model.low)
                       and same_values(f.bad, model.bad),
                       "%s: content of the file" % what)
            else:
                pm = PixelMasks()
                model = latest.copy()
            self.compare(pm, model, what, ctx)
            ctx.step()
            ctx.state((tuple(case["ops"]), model.dead.tobytes(),
                       model.low.tobytes(), model.bad.tobytes()))


CHECK = C19()
