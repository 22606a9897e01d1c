"""Hypothesis strategies shared by the checks. Every generated number is exactly representable in float32."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

# Hypothesis draws wide integer ranges with a strong bias to small magnitudes; ranges of at most 128 values are uniform.
_7 = st.integers(0, 127)
N = (1 << 14) - 1


def raw():
    """uniform integer in 0..N, shrinks to 0"""
    return st.tuples(_7, _7).map(lambda t: t[0] * 128 + t[1])


def _zigzag(k):
    return k // 2 if k % 2 == 0 else -(k + 1) // 2


def f32(x) -> float:
    return float(np.float32(x))


def num(lo, hi, special=(), p_special=8):
    """number in [lo, hi]; shrinks to 0 (or the bound nearest to 0); now and then one of the special values"""
    if lo < 0 < hi and abs(lo + hi) < 1e-12:
        base = raw().map(lambda k: f32(hi * _zigzag(k) / ((N + 1) // 2)))
    elif hi <= 0:
        base = raw().map(lambda k: f32(hi - (hi - lo) * k / N))
    else:
        base = raw().map(lambda k: f32(lo + (hi - lo) * k / N))
    if special:
        vals = [f32(s) for s in special]
        return st.integers(0, p_special).flatmap(lambda i: st.sampled_from(vals) if i == p_special else base)
    return base


def vec(n, lo, hi, special=(), p_special=8):
    s = num(lo, hi, special, p_special)
    return st.lists(s, min_size=n, max_size=n)


def logmag(lo, hi):
    """log-uniform positive number"""
    a, b = np.log(lo), np.log(hi)
    return raw().map(lambda k: f32(np.exp(a + (b - a) * k / N)))


def signed_log(lo, hi):
    return st.tuples(st.booleans(), logmag(lo, hi)).map(lambda t: t[1] if t[0] else -t[1])


def near_unit(n):
    """vector of dimension n that is not close to zero"""
    return vec(n, -1.0, 1.0, special=(0.0, 1.0, -1.0)).filter(lambda v: float(np.linalg.norm(v)) > 0.1)


def direction(n):
    """unit vector; axis aligned directions are over-represented"""

    def unit(v):
        a = np.array(v, float)
        return [f32(c) for c in a / np.linalg.norm(a)]

    axes = st.tuples(st.integers(0, n - 1), st.sampled_from([1.0, -1.0])).map(lambda t: [t[1] if i == t[0] else 0.0 for i in range(n)])
    rnd = near_unit(n).map(unit)
    return st.integers(0, 5).flatmap(lambda i: axes if i == 5 else rnd)
