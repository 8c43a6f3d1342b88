"""Environment model of the ctapipe 0.7 image extractors."""
import numpy as np


def _rows(waveforms, peak_index):
    waveforms = np.asarray(waveforms)
    n_pixels = waveforms.shape[0]
    peaks = np.broadcast_to(np.asarray(peak_index), (n_pixels,))
    return waveforms, peaks


def sum_samples_around_peak(waveforms, peak_index, width, shift):
    waveforms, peaks = _rows(waveforms, peak_index)
    n_samples = waveforms.shape[1]
    out = np.zeros(waveforms.shape[0], dtype=waveforms.dtype)
    for p, peak in enumerate(peaks):
        start = int(peak) - int(shift)
        for s in range(start, start + int(width)):
            if 0 <= s < n_samples:
                out[p] += waveforms[p, s]
    return out


def extract_pulse_time_around_peak(waveforms, peak_index, width, shift):
    waveforms, peaks = _rows(waveforms, peak_index)
    n_samples = waveforms.shape[1]
    out = np.zeros(waveforms.shape[0], dtype=np.float64)
    for p, peak in enumerate(peaks):
        start = int(peak) - int(shift)
        num = den = 0.0
        for s in range(start, start + int(width)):
            if 0 <= s < n_samples and waveforms[p, s] > 0:
                num += float(waveforms[p, s]) * s
                den += float(waveforms[p, s])
        out[p] = num / den if den else float(peak)
    return out


def neighbor_average_waveform(waveforms, neighbors, lwt):
    waveforms = np.asarray(waveforms)
    total = waveforms * lwt
    n = np.full(waveforms.shape[0], lwt, dtype=np.int64)
    for pixel, neighbor in neighbors:
        total[pixel] += waveforms[neighbor]
        n[pixel] += 1
    return total / np.maximum(n, 1)[:, None]


class LocalPeakWindowSum:
    def __init__(self, window_shift=3, window_width=7):
        self.window_shift = window_shift
        self.window_width = window_width

    def __call__(self, waveforms):
        peak = np.asarray(waveforms).argmax(1)
        return (
            sum_samples_around_peak(
                waveforms, peak, self.window_width, self.window_shift),
            extract_pulse_time_around_peak(
                waveforms, peak, self.window_width, self.window_shift),
        )


class NeighborPeakWindowSum:
    def __init__(self, window_shift=3, window_width=7, lwt=0):
        self.window_shift = window_shift
        self.window_width = window_width
        self.lwt = lwt
        self.neighbors = None

    def __call__(self, waveforms):
        peak = neighbor_average_waveform(
            waveforms, self.neighbors, self.lwt).argmax(1)
        return (
            sum_samples_around_peak(
                waveforms, peak, self.window_width, self.window_shift),
            extract_pulse_time_around_peak(
                waveforms, peak, self.window_width, self.window_shift),
        )
