import itertools
import numpy as np
import pandas as pd
from mc.engine import Check
from mc.red import REF
from mc.util import expect
from mc.wf import Simtel, Tio, check_event

FIELDS = ("iev", "is_r1", "first_cell_id", "stale", "missing_packets",
          "t_tack", "mc_true", "t_cpu")

# operations that give a Waveform again; every one has a plain numpy meaning
OPS = {
    "row": lambda w: w[:1],
    "last": lambda w: w[..., -3:],
    "rev": lambda w: w[::-1],
    "fancy": lambda w: w[[1, 0] if w.shape[0] > 1 else [0]],
    "neg": lambda w: -w,
    "add": lambda w: w + 2,
    "radd": lambda w: 2.5 + w,
    "mul": lambda w: w * np.float32(0.5),
    "selfsub": lambda w: w - w[:, :1],
    "plain": lambda w: w + np.ones(np.shape(w), dtype=np.float32),
    "T": lambda w: w.T,
    "reshape": lambda w: w.reshape((w.shape[1], w.shape[0])),
    "copy": lambda w: w.copy(),
    "astype": lambda w: w.astype(np.float64),
    "view": lambda w: w.view(),
    "abs": lambda w: np.abs(w),
    "where": lambda w: w[:, np.asarray(w).sum(0) > -1e9],
    "inplace": lambda w: _inplace(w),
    "clip": lambda w: w.clip(-3, 3),
    "cum": lambda w: w.cumsum(axis=1),
    "newaxis": lambda w: w[None][0],
}


def _inplace(w):
    w = w.copy()
    w *= 2
    w[0] += 1
    return w


class C08(Check):
    id = "C08"
    level = "exploration"
    rule = "distinct (operations, dtype, source) and (t_cpu) outcomes"
    bounds = {
        "quick": "every sequence of up to 3 of 21 array operations on R0, R1 "
                 "and simulation waveforms; 396 CPU times",
        "thorough": "every sequence of 4; 4000 CPU times"}

    def cases(self, tier):
        d = 4 if tier == "thorough" else 3
        out = []
        for kind in ("r0", "r1", "simtel"):
            out.append(dict(kind=kind, first=None, depth=0))
            for o in OPS:
                out.append(dict(kind=kind, first=o, depth=d))
        for total in range(1, 6 if tier == "thorough" else 4):
            for order in range(0, 6 if tier == "thorough" else 3):
                out.append(dict(read="simtel", total=total, order=order))
            for r1 in (0, 1):
                out.append(dict(read="tio", total=total, order=r1))
        n = 100 if tier == "thorough" else 36
        for i in range(11):
            out.append(dict(times=i, n=n))
        return out

    def setup(self):
        import CHECLabPy.core.io  # noqa: F401

    def source(self, kind):
        from CHECLabPy.core.io.waveform import Waveform
        from CHECLabPy.core.io.simtel import SimtelWaveform
        a = (np.arange(12).reshape((3, 4)) * 7 % 11)
        if kind == "r0":
            a = a.astype(np.uint16)
            w = Waveform(a, iev=6, is_r1=False, first_cell_id=4095, stale=True,
                         missing_packets=False, t_tack=2 ** 62 + 3,
                         t_cpu_container=(1500000001, 999999999))
            t = pd.Timestamp(1500000001 * 10 ** 9 + 999999999)
            d = dict(iev=6, is_r1=False, first_cell_id=4095, stale=True,
                     missing_packets=False, t_tack=2 ** 62 + 3, mc_true=None,
                     t_cpu=t)
        elif kind == "r1":
            a = a.astype(np.float32) - 3.5
            fci = np.arange(3, dtype=np.uint16)
            w = Waveform(a, iev=0, is_r1=True, first_cell_id=fci,
                         stale=False, missing_packets=True, t_tack=0,
                         t_cpu_container=(0, 5))
            d = dict(iev=0, is_r1=True, first_cell_id=fci, stale=False,
                     missing_packets=True, t_tack=0, mc_true=None,
                     t_cpu=pd.Timestamp(5))
        else:
            a = a.astype(np.float32)
            true = np.array([3, 0, 2])
            t = pd.Timestamp("2019-01-02 03:04:05.25")
            w = SimtelWaveform(a, iev=2, is_r1=True, mc_true=true,
                               t_cpu_container=t)
            d = dict(iev=2, is_r1=True, first_cell_id=0, stale=False,
                     missing_packets=False, t_tack=0, mc_true=true, t_cpu=t)
        return a.copy(), w, d

    def compare(self, w, a, d, what, cls):
        expect(type(w) is cls, lambda: "%s: a %s, not a %s" % (
            what, type(w).__name__, cls.__name__))
        expect(w.dtype == a.dtype and np.array_equal(np.asarray(w), a),
               lambda: "%s: samples %s, expected %s" % (what, w, a))
        for k in FIELDS:
            g = getattr(w, k)
            same = (np.array_equal(g, d[k]) if isinstance(d[k], np.ndarray)
                    else (g is None if d[k] is None else g == d[k]))
            expect(same, lambda: "%s: %s is %r, expected %r" % (
                what, k, g, d[k]))

    def run(self, case, ctx):
        if "times" in case:
            return self.times(case, ctx)
        if "read" in case:
            return self.read(case, ctx)
        a0, w0, d = self.source(case["kind"])
        cls = type(w0)
        if case["first"] is None:
            self.compare(w0, a0, d, "new", cls)
            other = self.source("r1" if case["kind"] == "r0" else "r0")
            x = np.asarray(w0) - np.asarray(other[1])
            if type(w0) is type(other[1]):
                self.compare(w0 - other[1], x, d, "w - other", cls)
            self.compare(other[1], *other[::2], what="other", cls=type(
                other[1]))
            # a Waveform of a plain array shares no metadata with others
            from CHECLabPy.core.io.waveform import Waveform
            w = Waveform(np.zeros((2, 2)), iev=1)
            dd = dict(iev=1, is_r1=False, first_cell_id=0, stale=False,
                      missing_packets=False, t_tack=0, mc_true=None)
            for k, v in dd.items():
                expect(getattr(w, k) == v or getattr(w, k) is v,
                       "default of " + k)
            w1 = np.zeros((2, 2)).view(Waveform)
            expect(w1.iev is None and w1.is_r1 is None, "metadata of a view")
            ctx.ev(3)
            return
        names = list(OPS)
        for n in range(case["depth"]):
            for rest in itertools.product(names, repeat=n):
                seq = (case["first"],) + rest
                w, a = w0, a0
                for o in seq:
                    w, a = OPS[o](w), OPS[o](a)
                    ctx.step()
                self.compare(w, a, d, "after %s" % (seq,), cls)
                # a change of the metadata of the result stays there
                w.iev, w.is_r1 = -5, None
                ctx.ev()
                ctx.outcome((case["kind"], seq))
            self.compare(w0, a0, d, "source after %s" % (seq,), cls)

    def read(self, case, ctx):
        """waveforms of files, each kept while the others are read"""
        from CHECLabPy.core.io import SimtelReader, TIOReader
        n = case["total"]
        if case["read"] == "simtel":
            f = Simtel(ctx.path("run.simtel"), n, n_samples=3,
                       order=case["order"])
            r, first = SimtelReader(f.path), 0
        else:
            f = Tio(ctx.path("run_r%d.tio" % case["order"]), n + 3,
                    n_pixels=64, n_samples=4, r1=bool(case["order"]))
            r, first = TIOReader(f.path), 2
        want = [f.expect(first + i, i) for i in range(n)]
        for seq in itertools.product(range(n), repeat=2):
            kept = []
            for i in seq:
                w = r[i]
                if case["read"] == "simtel":
                    self.truth(r, i, want[i], "accesses %s" % (seq,))
                kept += [(w, i, slice(None)), (w[10:20], i, slice(10, 20)),
                         (w * 1, i, slice(None)), (w[::-1].copy(), i,
                                                   slice(None, None, -1))]
                for w, j, s in kept:
                    d = dict(want[j], samples=want[j]["samples"][s])
                    # only the samples are selected
                    check_event(w, d, "event %d, accesses %s" % (j, seq))
                    ctx.ev()
                ctx.step()
            for w, i, s in kept[:1]:
                w[...] = 0
                w.iev = None
                check_event(r[i], want[i], "event read again")
            ctx.outcome((repr(case), seq))

    def truth(self, r, i, want, what):
        """what the reader says about the simulation of the event read"""
        same = dict(iev=i, t_cpu=want["t_cpu"])
        expect(r.mc == dict(
            same, energy=10. + i, alt=20. + i, az=30. + i, core_x=40. + i,
            core_y=50. + i, h_first_int=60. + i, x_max=70. + i,
            shower_primary_id=i % 3), lambda: "%s: mc %s" % (what, r.mc))
        expect(r.pointing == dict(
            same, azimuth_raw=1. + i, altitude_raw=2. + i, azimuth_cor=3. + i,
            altitude_cor=4. + i), lambda: "%s: pointing %s" % (
                what, r.pointing))
        h = r.seeker[i].mcheader
        h = {k: getattr(v, "value", v) for k, v in vars(h).items()}
        expect(r.mcheader == dict(h, obs_id=77), lambda: "%s: mcheader %s" % (
            what, r.mcheader))
        expect((r.run_id, r.n_modules, r.camera_version, r.n_pixels,
                r.n_samples, r.is_mc, r.n_cells, r.n_superpixels_per_module)
               == (77, 32, "1.1.0", 2048, 3, True, 0, 0),
               lambda: what + ": properties of the reader")
        expect(r.reference_pulse_path == REF, "reference pulse")

    def times(self, case, ctx):
        from CHECLabPy.core.io.waveform import Waveform
        base = [0, 1, 2 ** 31 - 1, 2 ** 31, 1500000000, 1234567890,
                1599999999, 999999999, 2 ** 32, 1700000003, 4000000007]
        s0 = base[case["times"]]
        ns = [0, 1, 2, 255, 256, 257, 999999999, 999999872, 500000000,
              123456789, 999, 1000]
        for i in range(case["n"] // 12 + 1):
            for v in ns:
                s = s0 + i * 977
                for conv in (int, np.int64, np.uint32 if s < 2 ** 32
                             else np.int64):
                    w = Waveform(np.zeros((1, 1)), iev=0,
                                 t_cpu_container=(conv(s), conv(v)))
                    want = pd.Timestamp(s * 10 ** 9 + v)
                    expect(w.t_cpu == want, lambda: "t_cpu of (%d s, %d ns) "
                           "is %r, expected %r" % (s, v, w.t_cpu, want))
                    expect(w[:, :1].t_cpu == want, "t_cpu of a view")
                    ctx.ev()
                ctx.outcome((s, v))


CHECK = C08()
