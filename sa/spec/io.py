"""Reference definitions for the data loaders."""
import numpy as np


def running_max(m):
    return np.maximum.accumulate(m, axis=1)


def log_running_max(m):
    mah = np.maximum.accumulate(m, axis=1)
    return np.where(mah == 0, 0.0, np.log10(mah))


def tng_mass(logm):
    peak = np.maximum.accumulate(logm, axis=1)
    return np.where(peak == 0, 0.0, 10**peak) / 0.6774


def bpl_mass(m):
    return np.maximum(np.maximum.accumulate(m, axis=1), 1.0)


def per_h(m, h):
    return np.maximum.accumulate(m, axis=1) / h


def last_time(t):
    return np.max(t[:, -1])
