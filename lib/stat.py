"""plain statistics for the sampled states (no scipy here)"""
import math

import numpy as np


def z_count(k, n, p):
    """standardised deviation of a count"""
    v = n * p * (1 - p)
    if v < 1e-12:
        return 0.0 if abs(k - n * p) < 1e-6 else math.inf
    return (k - n * p) / math.sqrt(v + 2)  # the 2 keeps rare states from looking normal


def corr(x, y):
    """correlation times the root of the number of observations: about standard normal if independent"""
    x, y = np.asarray(x, float), np.asarray(y, float)
    x, y = x - x.mean(), y - y.mean()
    s = math.sqrt((x * x).sum() * (y * y).sum())
    return 0.0 if s == 0 else float((x * y).sum() / s * math.sqrt(x.size))
