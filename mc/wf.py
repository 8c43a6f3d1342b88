"""Waveform files for the readers: content, registration, expected events."""
import gzip
import struct
import numpy as np
import pandas as pd
from mc.util import lcg


def fits_header(path, r1=True, version=True, gz=False, others=()):
    from astropy.io import fits
    hdu = fits.PrimaryHDU()
    hdu.header["HIERARCH EVENT_COUNT_TOTAL"] = 5  # any FITS file may have it
    if version:
        hdu.header["HIERARCH EVENT_HEADER_VERSION"] = 1
    for i, k in enumerate(others):
        hdu.header[k] = "V%d" % i
    if not gz:
        hdu.writeto(path, overwrite=True)
        return
    tmp = path + ".tmp"
    hdu.writeto(tmp, overwrite=True)
    with open(tmp, "rb") as f, gzip.open(path, "wb") as g:
        g.write(f.read())


def simtel_header(path, marker=3558836791, gz=False):
    data = struct.pack("I", marker) + b"\x00" * 60
    with (gzip.open(path, "wb") if gz else open(path, "wb")) as f:
        f.write(data)


class Tio:
    """A TargetIO file with `total` raw events; skip/skip_end are unused"""

    def __init__(self, path, total, n_pixels=64, n_samples=4, r1=True, seed=1,
                 fits=True, **spec):
        import target_io
        self.path, self.r1 = path, r1
        shape = (total, n_pixels, n_samples)
        base = lcg(n_pixels * n_samples, seed, 0, 60).reshape(shape[1:])
        ev = (np.arange(total) * 100)[:, None, None]
        samples = base[None] + ev
        samples = (samples * 0.25 - 3).astype(np.float32) if r1 else \
            (samples + 300).astype(np.uint16)
        if "samples" in spec:
            samples = spec.pop("samples")
        self.samples = samples
        self.spec = dict(
            is_r1=r1, samples=samples,
            first_cell_id=[(5003 * i + 7) % 16384 for i in range(total)],
            stale=[i // 2 % 2 == 1 for i in range(total)],
            missing=[i % 2 == 1 for i in range(total)],
            t_tack=[15 * 10 ** 17 + 2 ** 33 * i + 1 for i in range(total)],
            t_cpu_s=[1500000001 + 7 * (i ^ 1) for i in range(total)],
            t_cpu_ns=[(999999999 - 12345 * i) for i in range(total)],
        )
        self.spec.update(spec)
        if fits:
            fits_header(path)
        else:
            open(path, "w").close()
        target_io.register(path, self.spec)

    def expect(self, raw, iev):
        """metadata of the event iev of a reader, raw event number raw"""
        s = self.spec
        return dict(
            iev=iev, is_r1=self.r1, first_cell_id=s["first_cell_id"][raw],
            stale=s["stale"][raw], missing_packets=s["missing"][raw],
            t_tack=s["t_tack"][raw],
            t_cpu=pd.Timestamp(s["t_cpu_s"][raw] * 10 ** 9
                               + s["t_cpu_ns"][raw]),
            samples=self.samples[raw])


_MAPPING = {}


def clp_mapping():
    if "m" not in _MAPPING:
        from CHECLabPy.utils.mapping import get_clp_mapping_from_tc_mapping
        from target_calib import CameraConfiguration
        tc = CameraConfiguration("1.1.0").GetMapping(False)
        _MAPPING["m"] = get_clp_mapping_from_tc_mapping(tc)
    return _MAPPING["m"]


class Simtel:
    """A sim_telarray file; the pixels are stored in another order"""

    def __init__(self, path, total, n_samples=4, seed=3, tel=1, order=0,
                 gps0=1500000000.25, samples=None, gz=False):
        import ctapipe.io
        self.path, self.total = path, total
        self.n_pixels = 2048
        m = clp_mapping()
        # not its own inverse, so that order and inverse order differ
        self.perm = (np.arange(2048) * (4 * order + 1) + 97 * order) % 2048
        inv = np.argsort(self.perm)
        self.r1 = True
        if samples is None:
            base = lcg(2048 * n_samples, seed).reshape((2048, n_samples))
            samples = (base[None] * 0.5
                       + np.arange(total)[:, None, None] * 10)
        self.samples = np.asarray(samples, dtype=np.float32)
        true = (np.arange(2048)[None] * 7 % 1999 + np.arange(total)[:, None])
        if total > 1:
            true[-2] = 0  # an event without any light
        self.true = true
        self.gps = [gps0 + 2 * i for i in range(total)]
        self.obs_id = 77
        simtel_header(path, gz=gz)
        ctapipe.io.register(path, dict(
            samples=self.samples[:, self.perm],
            true=true[:, self.perm], gps=self.gps, tel=tel, obs_id=77,
            pix_x=m["xpix"].values[self.perm],
            pix_y=m["ypix"].values[self.perm]))
        assert (inv[self.perm] == np.arange(2048)).all()

    def expect(self, raw, iev):
        return dict(
            iev=iev, is_r1=True, mc_true=self.true[raw],
            t_cpu=pd.to_datetime(self.gps[raw], unit="s"),
            samples=self.samples[raw])


def check_event(wf, want, what):
    from mc.util import expect
    a = np.asarray(wf)
    w = want["samples"]
    expect(a.dtype == w.dtype, lambda: "%s: dtype %s, expected %s" % (
        what, a.dtype, w.dtype))
    expect(a.shape == w.shape and np.array_equal(a, w), lambda:
           "%s: other samples" % what)
    for k, v in want.items():
        if k == "samples":
            continue
        g = getattr(wf, k)
        if isinstance(v, np.ndarray):
            expect(np.array_equal(g, v), lambda: "%s: %s" % (what, k))
        else:
            expect(g == v, lambda: "%s: %s is %r, expected %r" % (
                what, k, g, v))
