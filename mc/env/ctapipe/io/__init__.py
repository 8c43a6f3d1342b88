"""Environment model of ctapipe's sim_telarray event source.

`register(path, spec)`: spec has samples (n_events, n_pixels, n_samples),
true (n_events, n_pixels), gps (n_events) seconds, tel id, pix_x/pix_y in the
simulation's own pixel order and optionally `n_count0`.
"""
import os
from types import SimpleNamespace as NS
from astropy import units as u
import numpy as np
from ctapipe.instrument import CameraGeometry

FILES = {}


def register(path, spec):
    FILES[os.path.abspath(path)] = spec


class SimTelEventSource:
    def __init__(self, input_url, max_events=None, back_seekable=False):
        if not back_seekable:
            raise ValueError("the reader seeks backwards")
        self.spec = FILES[os.path.abspath(str(input_url))]
        n = len(self.spec["samples"])
        if max_events:
            n = min(n, max_events)
        self.n = n

    def event(self, i):
        s = self.spec
        tel = s["tel"]
        v = lambda x: NS(value=x)  # noqa
        camera = CameraGeometry(
            "CHEC", np.arange(len(s["pix_x"])), s["pix_x"] * u.m,
            s["pix_y"] * u.m, None, "rectangular")
        mcheader = NS(**{k: v(0.5 + j) for j, k in enumerate([
            "energy_range_min", "energy_range_max", "prod_site_B_total",
            "prod_site_B_declination", "prod_site_B_inclination",
            "prod_site_alt", "max_alt", "min_alt", "max_az", "min_az",
            "max_viewcone_radius", "min_viewcone_radius",
            "max_scatter_range", "min_scatter_range", "injection_height",
            "corsika_wlen_min", "corsika_wlen_max"])},
            **{k: 10 + j for j, k in enumerate([
                "corsika_version", "simtel_version", "spectral_index",
                "shower_prog_start", "shower_prog_id", "detector_prog_start",
                "detector_prog_id", "num_showers", "shower_reuse", "diffuse",
                "core_pos_mode", "atmosphere", "corsika_iact_options",
                "corsika_low_E_model", "corsika_high_E_model",
                "corsika_bunchsize", "corsika_low_E_detail",
                "corsika_high_E_detail"])})
        tel_mc = NS(
            photo_electron_image=np.array(s["true"][i]),
            azimuth_raw=1.0 + i, altitude_raw=2.0 + i,
            azimuth_cor=3.0 + i, altitude_cor=4.0 + i)
        mc = NS(energy=v(10. + i), alt=v(20. + i), az=v(30. + i),
                core_x=v(40. + i), core_y=v(50. + i),
                h_first_int=v(60. + i), x_max=v(70. + i),
                shower_primary_id=i % 3, tel={tel: tel_mc})
        wf = np.array(s["samples"][i], dtype=np.float32)
        return NS(
            count=i,
            r0=NS(tels_with_data={tel}, obs_id=s.get("obs_id", 77),
                  tel={tel: NS(waveform=wf[None])}),
            r1=NS(tel={tel: NS(waveform=wf)}),
            mc=mc, mcheader=mcheader,
            trig=NS(gps_time=v(s["gps"][i])),
            inst=NS(subarray=NS(tel={tel: NS(camera=camera)})),
        )


class EventSeeker:
    def __init__(self, reader):
        self.reader = reader
        self.current = None  # the event at hand is kept

    def __len__(self):
        return self.reader.n

    def __getitem__(self, i):
        if isinstance(i, (int, np.integer)):
            if not 0 <= i < self.reader.n:
                raise IndexError(i)
            if self.current is None or self.current.count != i:
                self.current = self.reader.event(int(i))
            return self.current
        raise TypeError("one event at a time")

    def __iter__(self):
        for i in range(self.reader.n):
            self.current = self.reader.event(i)
            yield self.current
