"""Strategies shared by the facets.  All produce plain JSON data."""
import numpy as np
from hypothesis import strategies as st


def fl(lo, hi):
    """Floats in ``[lo, hi]``: Hypothesis floats mixed with an even grid."""
    lo, hi = float(lo), float(hi)
    return st.one_of(
        st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False),
        st.integers(0, 4096).map(lambda i: lo + (hi - lo)*i/4096),
    ).map(lambda x: 0.0 if abs(x) < 1e-12 else x)


def logfl(lo, hi):
    """Positive floats, evenly distributed in the logarithm."""
    a, b = np.log(lo), np.log(hi)
    return st.one_of(
        st.integers(0, 4096).map(lambda i: float(np.exp(a + (b - a)*i/4096))),
        st.sampled_from([x for x in (0.5, 1.0, 2.0, 4.0, 10.0) if lo <= x <= hi] or [float(np.sqrt(lo*hi))]),
    )


def logint(lo, hi):
    """Integers in ``[lo, hi]``, evenly distributed in the logarithm."""
    return st.integers(0, 4096).map(lambda i: int(round(float(np.exp(np.log(lo) + np.log(hi/lo)*i/4096)))))


def sign():
    return st.sampled_from([1, -1])


def bandwidth(lo=0.05, hi=50.):
    """Half-bandwidths; the defaults 1 and others."""
    return st.one_of(logfl(lo, hi), st.sampled_from([1.0, 2.0, 0.7, 2.25]))


def arr(elements, min_size, max_size=None):
    return st.lists(elements, min_size=min_size, max_size=max_size if max_size is not None else min_size)


def cplx(re, im):
    """Complex number as ``[re, im]``."""
    return st.tuples(re, im).map(list)


def toc(x):
    """``[[re, im], ...]`` to complex array (any leading nesting)."""
    x = np.asarray(x, dtype=float)
    return x[..., 0] + 1j*x[..., 1]


def seeds():
    return st.integers(0, 2**32 - 1)


def rng(seed):
    return np.random.default_rng(seed)
