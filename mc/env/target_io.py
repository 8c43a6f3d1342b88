"""Environment model of the TargetIO library (not installable offline).

A file is registered with `register(path, spec)`; spec is a dict with
  is_r1, samples (n_total, n_pixels, n_samples), and optionally per-event
  lists first_cell_id, stale, missing, t_tack, t_cpu_s, t_cpu_ns.
"""
import os
import numpy as np

FILES = {}
READS = []  # (path, event number in the file) for each event read


def register(path, spec):
    FILES[os.path.abspath(path)] = spec


def serial(tm):
    """serial numbers do not rise with the slot"""
    return 300 + 41 * (5 * tm % 32)


class WaveformArrayReader:
    def __init__(self, path, skip_events=2, skip_end_events=1):
        spec = FILES[os.path.abspath(path)]
        self.path = os.path.abspath(path)
        self.spec = spec
        self.fR1 = bool(spec["is_r1"])
        total, n_pixels, n_samples = spec["samples"].shape
        self.skip = skip_events
        self.fNEvents = max(0, total - skip_events - skip_end_events)
        self.fRunID = spec.get("run_id", 1234)
        self.fNPixels = n_pixels
        self.fNModules = max(1, n_pixels // 64)
        self.fNSuperpixelsPerModule = spec.get("n_sp", 16)
        self.fNSamples = n_samples
        self.fCameraVersion = spec.get("camera_version", "1.1.0")

    def _get(self, iev, samples, dtype):
        if not 0 <= iev < self.fNEvents:
            raise RuntimeError("event %r outside file" % (iev,))
        if samples.dtype != dtype:
            raise TypeError("wrong sample dtype")
        i = int(iev) + self.skip
        READS.append((self.path, i))
        s = self.spec
        samples[...] = s["samples"][i]

        def opt(name, default):
            v = s.get(name)
            return default(i) if v is None else v[i]
        return (
            opt("first_cell_id", lambda i: (37 * i) % 4096),
            opt("stale", lambda i: False),
            opt("missing", lambda i: False),
            opt("t_tack", lambda i: 1000000 + 17 * i),
            opt("t_cpu_s", lambda i: 1500000000 + i),
            opt("t_cpu_ns", lambda i: 123456789 + i),
        )

    def GetR1Event(self, iev, samples):
        if not self.fR1:
            raise RuntimeError("not an R1 file")
        return self._get(iev, samples, np.float32)

    def GetR0Event(self, iev, samples):
        if self.fR1:
            raise RuntimeError("not an R0 file")
        return self._get(iev, samples, np.uint16)

    def GetSN(self, tm):
        return serial(tm)

    def GetSiPMTemp(self, tm):
        return 20.5 + tm

    def GetPrimaryTemp(self, tm):
        return 30.25 + tm

    def GetSPDAC(self, tm, sp):
        return 50 + 16 * tm + sp

    def GetSPHVON(self, tm, sp):
        return (tm + sp) % 2
