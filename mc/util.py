"""Helpers shared by the checks: exact comparisons and deterministic data."""
import itertools
import os
import numpy as np
import pandas as pd
from mc.engine import Violation


def expect(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def raises(exc, func, what):
    """func must raise exc (a class or tuple)"""
    try:
        func()
    except exc:
        return
    raise Violation("%s: expected %s, nothing was raised" % (what, exc))


def same_frame(got, want, what, dtypes=True):
    """columns (in order), number of rows, dtypes and values; not the index"""
    expect(isinstance(got, pd.DataFrame), lambda: "%s: not a DataFrame: %r" % (
        what, type(got)))
    expect(list(got.columns) == list(want.columns), lambda:
           "%s: columns %s, expected %s" % (
               what, list(got.columns), list(want.columns)))
    expect(len(got) == len(want), lambda: "%s: %d rows, expected %d" % (
        what, len(got), len(want)))
    for c in want.columns:
        g, w = got[c].values, want[c].values
        if dtypes:
            expect(g.dtype == w.dtype, lambda: "%s: column %s has dtype %s, "
                   "expected %s" % (what, c, g.dtype, w.dtype))
        expect(same_values(g, w), lambda: "%s: column %s is %s, expected %s"
               % (what, c, g, w))


def same_values(g, w):
    g, w = np.asarray(g), np.asarray(w)
    if g.shape != w.shape:
        return False
    if g.dtype.kind in "fc" or w.dtype.kind in "fc":
        return bool(np.array_equal(g, w, equal_nan=True))
    return bool(np.array_equal(g, w))


def close(g, w, rtol=1e-6, atol=1e-9):
    g = np.asarray(g, dtype=float)
    w = np.asarray(w, dtype=float)
    return g.shape == w.shape and bool(
        np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True))


def expect_close(g, w, what, rtol=1e-6, atol=1e-9):
    if not close(g, w, rtol, atol):
        g_, w_ = np.asarray(g, dtype=float), np.asarray(w, dtype=float)
        detail = ""
        if g_.shape == w_.shape and g_.ndim:
            bad = np.argwhere(~np.isclose(g_, w_, rtol=rtol, atol=atol,
                                          equal_nan=True))
            if len(bad):
                i = tuple(bad[0])
                detail = " first at %s: %r, expected %r" % (i, g_[i], w_[i])
        raise Violation("%s: got %s, expected %s%s" % (
            what, np.array2string(g_, threshold=20),
            np.array2string(w_, threshold=20), detail))


def lcg(n, seed=1, lo=-8, hi=8):
    """n small integers from a fixed linear congruential sequence"""
    x = (seed * 2654435761 + 12345) & 0x7fffffff
    out = np.empty(n, dtype=np.int64)
    for i in range(n):
        x = (1103515245 * x + 12345) & 0x7fffffff
        out[i] = lo + (x >> 12) % (hi - lo + 1)
    return out


def noise(shape, seed=1, lo=-8, hi=8):
    n = int(np.prod(shape))
    return lcg(n, seed, lo, hi).reshape(shape).astype(np.float64)


def sequences(alphabet, depth, min_depth=0):
    for d in range(min_depth, depth + 1):
        yield from itertools.product(alphabet, repeat=d)


class Env:
    """patch attributes for the duration of a with block"""
    def __init__(self, *patches):
        self.patches = patches

    def __enter__(self):
        self.saved = [(o, n, getattr(o, n)) for o, n, _ in self.patches]
        for o, n, v in self.patches:
            setattr(o, n, v)
        return self

    def __exit__(self, *exc):
        for o, n, v in reversed(self.saved):
            setattr(o, n, v)


class Spill:
    """Decide which DataFrames look too big to stay in a memory buffer.

    The sizes of frames are an input of the environment: a frame marked heavy
    reports `size` bytes from DataFrame.memory_usage, others the truth.
    A copy of a heavy frame is heavy; other frames the code builds itself
    always report the truth.
    """
    def __init__(self, size=6e9):
        self.size = size
        self.heavy = {}
        self.flushes = 0
        self.moved = {}  # key -> rows given to the file
        self.fail_at = ()

    def mark(self, df, size=None):
        self.heavy[id(df)] = df, size or self.size
        return df

    def __enter__(self):
        real = pd.DataFrame.memory_usage
        real_append = pd.HDFStore.append
        real_copy = pd.DataFrame.copy
        spill = self

        def copy(df, *args, **kwargs):
            new = real_copy(df, *args, **kwargs)
            if id(df) in spill.heavy:
                spill.mark(new, spill.heavy[id(df)][1])
            return new

        def memory_usage(df, *args, **kwargs):
            value = real(df, *args, **kwargs)
            if id(df) in spill.heavy:
                value = value.copy()
                value.iloc[-1] = spill.heavy[id(df)][1]
            return value

        def append(store, key, value, *args, **kwargs):
            spill.flushes += 1
            if spill.flushes in spill.fail_at:
                raise OSError("no space left on device (injected)")
            out = real_append(store, key, value, *args, **kwargs)
            spill.moved[key] = spill.moved.get(key, 0) + len(value)
            return out

        self.env = Env((pd.DataFrame, "memory_usage", memory_usage),
                       (pd.DataFrame, "copy", copy),
                       (pd.HDFStore, "append", append))
        self.env.__enter__()
        return self

    def __exit__(self, *exc):
        self.env.__exit__()


def mkdir(path):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    return path
