import gzip
import itertools
import os
import struct
import numpy as np
from mc.engine import Check
from mc.util import expect, raises
from mc.wf import Simtel, Tio, check_event, fits_header, simtel_header

MAGIC = 3558836791, 931798996
FITS = ["tio", "tio_gz"]
SIMTEL = ["simtel1", "simtel2", "simtel1_gz", "simtel2_gz"]
OTHER = ["fits", "fits_gz", "text", "text_gz", "fits_word", "fits_word_gz",
         "hdf5", "bytes", "almost_simtel", "marker_later", "zeros",
         "gz_zeros", "fits_keys", "fits_keys_gz"] + [
             "near_%d_%d_%d" % (m, i, b) for m in range(2) for i in range(4)
             for b in (1, 128, 255)]
KEYS = ("TELESCOP", "INSTRUME", "ORIGIN", "OBSERVER", "DATE-OBS", "EXTNAME",
        "EVENT", "VERSION", "HEADER")


def build(kind, path):
    gz = kind.endswith("_gz")
    k = kind[:-3] if gz else kind
    if k == "tio":
        fits_header(path, version=True, gz=gz)
    elif k == "fits":
        fits_header(path, version=False, gz=gz)
    elif k == "fits_keys":
        fits_header(path, version=False, gz=gz, others=KEYS)
    elif k.startswith("near"):
        m, i, b = [int(x) for x in k.split("_")[1:]]
        data = bytearray(struct.pack("I", MAGIC[m]))
        data[i] ^= b
        with open(path, "wb") as f:
            f.write(bytes(data) + b"\x00" * 40)
    elif k == "simtel1":
        simtel_header(path, 3558836791, gz)
    elif k == "simtel2":
        simtel_header(path, 931798996, gz)
    else:
        data = dict(
            text=b"run attenuation\n1 2\n" * 20,
            fits_word=b"This is a note on the FITS format. " * 40,
            hdf5=b"\x89HDF\r\n\x1a\n" + b"\x00" * 200,
            bytes=bytes(range(256)),
            almost_simtel=struct.pack("I", 3558836790) + b"\x00" * 40,
            marker_later=b"\x00" * 4 + struct.pack("I", 3558836791) * 20,
            zeros=b"\x00" * 64, gz_zeros=b"\x1f\x00" * 20)[k]
        with (gzip.open(path, "wb") if gz else open(path, "wb")) as f:
            f.write(data)


class C07(Check):
    id = "C07"
    level = "exploration"
    rule = "distinct (file content, name, class) combinations"
    assumptions = ("files have at least 4 bytes", "the stand-in readers open "
                   "the registered content whatever the header says")
    bounds = {"quick": "44 kinds of file content (each byte of the "
                       "markers changed) x 5 file names x 4 reader "
                       "classes x max_events None/1/2; both data levels",
              "thorough": "the same"}

    def cases(self, tier):
        out = []
        for kind in FITS + SIMTEL + OTHER:
            for name in ("Run00017_r0.tio", "Run00017_r1.tio", "x.simtel.gz",
                         "noext", "d/e.fits.gz"):
                out.append(dict(kind=kind, name=name))
        for r1, cls, mx in itertools.product(
                (True, False), ("TIOReader", "ReaderR0", "ReaderR1"),
                (None, 1, 2, 50)):
            out.append(dict(level=r1, cls=cls, max=mx))
        return out

    def setup(self):
        import CHECLabPy.core.io  # noqa: F401

    def run(self, case, ctx):
        from CHECLabPy.core import io
        from CHECLabPy.core.io.waveform import WaveformReader
        if "level" in case:
            return self.level_case(case, ctx, io)
        kind = case["kind"]
        path = ctx.path(os.path.basename(case["name"]))
        is_tio, is_sim = kind in FITS, kind in SIMTEL
        for cls, want in (("TIOReader", is_tio), ("ReaderR0", is_tio),
                          ("ReaderR1", is_tio), ("SimtelReader", is_sim)):
            build(kind, path)
            got = getattr(io, cls).is_compatible(path)
            expect(bool(got) == want, lambda: "%s.is_compatible of a %s file "
                   "is %r" % (cls, kind, got))
            ctx.ev()
            ctx.outcome((kind, case["name"], cls))
        for mx in (None, 1, 2):
            for r1 in (True, False):
                if is_sim:
                    f = Simtel(path, 3, n_samples=2)
                else:
                    f = Tio(path, 6, n_pixels=2, n_samples=2, r1=r1)
                build(kind, path)  # the header decides
                try:
                    r = WaveformReader.from_path(path, *(
                        () if mx is None else (mx,)))
                except (IOError, ValueError, TypeError):
                    # refusing it is as good as finding no reader
                    if is_tio or is_sim:
                        raise
                    r = None
                if not (is_tio or is_sim):
                    expect(r is None, lambda: "from_path of a %s file gave %r"
                           % (kind, r))
                    continue
                expect(isinstance(r, io.TIOReader if is_tio
                                  else io.SimtelReader), lambda:
                       "from_path of a %s file gave %r" % (kind, type(r)))
                n = min(3, mx or 3)
                expect(len(r) == n, lambda: "from_path(max_events=%r): %d "
                       "events" % (mx, len(r)))
                for i in range(n):
                    check_event(r[i], f.expect(i + (2 if is_tio else 0), i),
                                "event of %s" % kind)
                ctx.ev()

    def level_case(self, case, ctx, io):
        f = Tio(ctx.path("f.tio"), 8, n_pixels=64, n_samples=3,
                r1=case["level"])
        cls = getattr(io, case["cls"])
        k = {} if case["max"] is None else dict(max_events=case["max"])
        if case["cls"] == ("ReaderR0" if case["level"] else "ReaderR1"):
            raises(IOError, lambda: cls(f.path, **k), "%s on a file of the "
                   "other level" % case["cls"])
        else:
            r = cls(f.path, **k)
            n = min(5, case["max"] or 5)
            expect(len(r) == n, "%d events, expected %d" % (len(r), n))
            expect(bool(r.is_r1) == case["level"], "is_r1")
            for i in range(n):
                wf = r[i]
                check_event(wf, f.expect(i + 2, i), "event %d" % i)
                expect(wf.dtype == (np.float32 if case["level"]
                                    else np.uint16), "dtype")
            expect(r.camera_version == "1.1.0"
                   and r.reference_pulse_path.endswith("reference_pulse.txt"),
                   "camera configuration")
            expect(len(r.mapping) == 64
                   and r.mapping.metadata["is_single_module"], "mapping")
        ctx.ev()
        ctx.outcome(repr(case))


CHECK = C07()
