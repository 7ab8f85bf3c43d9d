"""Rigorous tests of frequencies: Chernoff bounds, false-alarm probability below 1e-11."""
from __future__ import annotations

import math

LIMIT = math.log(2e11)


def kl(q, p):
    s = 0.0
    if q > 0:
        if p <= 0:
            return math.inf
        s += q * math.log(q / p)
    if q < 1:
        if p >= 1:
            return math.inf
        s += (1 - q) * math.log((1 - q) / (1 - p))
    return s


def unlikely(k, n, p):
    """k of n independent events of probability p: impossible by chance?"""
    return n > 0 and n * kl(k / n, p) > LIMIT


def detectable(n, p, q):
    """Would the typical count of events of probability q look unlikely for p?"""
    return n * kl(q, p) > LIMIT
