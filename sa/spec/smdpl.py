"""Reference definitions of the SMDPL target tabulation."""
import numpy as np
from jax import vmap

from .kernel import logm


def logm_pop(P, t, lgt0):
    def one(a, b, c, d, e):
        return logm(type(P)(a, b, c, d, e), t, lgt0)

    return one(*P)


def in_bin(P, t_obs, t0, lgm_obs, width):
    """halos whose mass at t_obs lies in the bin"""
    return np.abs(logm(P, t_obs, np.log10(t0)) - lgm_obs) < width


def nearest(t_obs, t_table):
    return np.argmin(np.abs(t_obs - t_table))


def rescaled(log_mah, lgm_obs):
    return log_mah + (lgm_obs - log_mah[-1])
