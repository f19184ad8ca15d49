"""Reference definitions of the tabulated targets."""
import numpy as np


def lgt0(t0):
    return np.log10(t0)


def mean(x):
    return np.sum(x) / x.shape[0]


def std(x):
    mu = np.sum(x) / x.shape[0]
    return np.sqrt(np.sum((x - mu) ** 2) / x.shape[0])


def frac_peaked(t_peak, t):
    return np.sum(np.where(t_peak < t, 1, 0)) / t_peak.shape[0]
