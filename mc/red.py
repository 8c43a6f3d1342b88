"""Reducers under test and an independent meaning of their columns."""
import os
import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
REF = os.path.join(HERE, "env", "reference_pulse.txt")

# every column of the chain, by reducer, with its documented default
COLUMNS = {
    "Common": ["baseline_start_mean", "baseline_start_rms",
               "baseline_end_mean", "baseline_end_rms", "waveform_mean",
               "waveform_rms", "waveform_max"],
    "Timing": ["t_event", "t_pulse", "t_pulse_amp", "t_rise", "fwhm"],
    "Saturation": ["saturation_sum"],
    "AverageWF": ["t_averagewf", "charge_averagewf"],
    "CrossCorrelation": ["t_cc", "charge_cc", "height_cc"],
    "CrossCorrelationLocal": ["t_cc_local", "charge_cc_local",
                              "height_cc_local"],
    "CrossCorrelationNeighbour": ["t_cc_nn", "charge_cc_nn", "height_cc_nn"],
    "CtapipeLocalPeakIntegrator": ["t_local", "charge_local"],
    "CtapipeNeighbourPeakIntegrator": ["t_nn", "charge_nn"],
    "SlidingWindow": ["t_sliding", "charge_sliding"],
    "SlidingWindowLocal": ["t_sliding_local", "charge_sliding_local"],
    "SlidingWindowNeighbour": ["t_sliding_nn", "charge_sliding_nn"],
    "SPAmplitude": ["sp_argmax", "sp_max"],
    "FlagFlashers": ["flasher_unit"],
}
DEFAULT_ON = {
    "baseline_end_mean", "baseline_end_rms", "baseline_start_mean",
    "baseline_start_rms", "waveform_mean", "waveform_rms", "saturation_sum",
    "t_averagewf", "charge_averagewf", "t_cc", "charge_cc", "height_cc"}
NEEDS_REF = {"CrossCorrelation", "CrossCorrelationLocal",
             "CrossCorrelationNeighbour"}
NEEDS_MAP = {"CrossCorrelationNeighbour", "CtapipeNeighbourPeakIntegrator",
             "SlidingWindowNeighbour"}
OWNER = {c: r for r, cs in COLUMNS.items() for c in cs}


def reducer(name):
    """the class, as the chain finds it"""
    import CHECLabPy.waveform_reducers as w
    return getattr(w, name)


_M = {}


def mapping(n_pixels):
    if n_pixels not in _M:
        from CHECLabPy.utils.mapping import get_clp_mapping_from_version
        _M[n_pixels] = get_clp_mapping_from_version("1.1.0", n_pixels == 64)
    return _M[n_pixels]


def needs(name, n_pixels):
    k = {}
    if name in NEEDS_REF:
        k["reference_pulse_path"] = REF
    if name in NEEDS_MAP:
        k["mapping"] = mapping(n_pixels)
    return k


_N = {}


def neighbours(n_pixels):
    """pairs of adjacent pixels, by brute force"""
    if n_pixels not in _N:
        m = mapping(n_pixels)
        x, y = m["xpix"].values, m["ypix"].values
        d2 = (x[:, None] - x) ** 2 + (y[:, None] - y) ** 2
        np.fill_diagonal(d2, 1e9)
        _N[n_pixels] = [list(np.flatnonzero(r <= 1.96 * d2.min()))
                        for r in d2]
    return _N[n_pixels]


def neighbour_mean(a, n_pixels):
    return np.array([a[n].sum(0) / max(len(n), 1)
                     for n in neighbours(n_pixels)])


def pulse(n_samples, centre, width=3.0, height=1.0):
    s = np.arange(n_samples)
    return height * np.exp(-0.5 * ((s - centre) / width) ** 2)


def clipped_peak(wf):
    """peak of the average waveform, kept 10 samples away from the ends"""
    n = wf.shape[1]
    return int(min(max(int(np.argmax(wf.astype(float).mean(0))), 10),
                   n - 10))


_R = {}


def reference(path=REF):
    """(normalised pulse, unit-area pulse) at 1 ns from the reference file"""
    if path not in _R:
        from scipy.interpolate import interp1d
        d = np.loadtxt(path)
        n = int(d[-1, 0] / 1e-9)
        y = interp1d(d[:, 0], d[:, 1], kind=3)(
            np.linspace(0, n * 1e-9, n + 1))
        unit = y / ((y[1:] + y[:-1]) / 2).sum()
        p = int(y.argmax())
        best = max(_corr(unit, y, p))
        if path != REF:
            return y / best, unit, p
        _R[path] = (y / best, unit, p)
    return _R[path]


def _corr(wf, y, p):
    """sum over the pulse whose maximum is at each sample"""
    n = wf.shape[-1]
    out = np.zeros(wf.shape, dtype=float)
    for i in range(n):
        lo, hi = max(0, i - p), min(n, i - p + len(y))
        out[..., i] = (wf[..., lo:hi].astype(float)
                       * y[lo - i + p:hi - i + p]).sum(-1)
    return out


def cross_correlation(wf, ref=None):
    y, unit, p = ref or reference()
    return _corr(wf, y, p)
