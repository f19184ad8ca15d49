"""Reference statement of the individual-halo fitter (analysed, never executed)."""

import numpy as np
from jax import numpy as jnp
from jax.example_libraries.optimizers import adam

from .kernel import bounded, logm


def clipped(mah, lgm_min):
    """masses at or below the resolution limit sit strictly below it"""
    lim = 10**lgm_min
    return np.log10(np.where(mah > lim, mah, 0.5 * lim if lim > 0 else 1e-7))


def keep(t, mah, lgm_min, dlogm_cut, t_fit_min):
    """resolved points within dlogm_cut of the final mass, from t_fit_min on"""
    lg = clipped(mah, lgm_min)
    return (mah > 10**lgm_min) & (lg > lg[-1] - dlogm_cut) & (t >= t_fit_min)


def npts(log_mah_target):
    """number of target points below the final one"""
    return jnp.sum(jnp.where(log_mah_target < log_mah_target[-1], 1, 0))


def t_peak(t, mah, lgm_min):
    """the first time at which the halo has its final mass"""
    lg = clipped(mah, lgm_min)
    return t[jnp.argmax(lg == lg[-1])]


def u_params(cls, u, u_t_peak):
    return cls(u[0], u[1], u[2], u[3], u_t_peak)


def loss(u, t_target, log_mah_target, logt0, P):
    """mean square misfit of the model history of unbounded parameters u"""
    b = bounded(u)
    p = P(**b)
    return jnp.mean((logm(p, t_target, logt0) - log_mah_target) ** 2)


def adam_run(loss_and_grad, p0, data, n, step_size):
    """points visited by n steps of Adam and their losses"""
    init, update, get = adam(step_size)
    state = init(p0)
    points, losses = [], []
    for i in range(n):
        p = get(state)
        loss, grads = loss_and_grad(p, data)
        points.append(p)
        losses.append(loss)
        state = update(i, grads, state)
    return points, losses
