"""Reference statement of the halo growth model (analysed, never executed)."""

from jax import grad, nn, vmap
from jax import numpy as jnp

K = 3.5


def alpha(logt, logtc, early, late):
    return early + (late - early) * nn.sigmoid(K * (logt - logtc))


def logm_noq(p, t, lgt0):
    x = jnp.log10(t)
    return p.logm0 + alpha(x, p.logtc, p.early_index, p.late_index) * (x - lgt0)


def logm(p, t, lgt0):
    """growth is frozen after t_peak"""
    return jnp.where(t < p.t_peak, logm_noq(p, t, lgt0), logm_noq(p, p.t_peak, lgt0))


def bound(u, lo, hi):
    return lo + (hi - lo) * nn.sigmoid(0.1 * (u - 0.5 * (lo + hi)))


def rate(p, t, lgt0):
    def mass(ti):
        return 10.0 ** logm_noq(p, ti, lgt0)

    dm = vmap(grad(mass))(t) / 1e9
    return jnp.where(t > p.t_peak, 0.0, dm)


def bounded(u):
    late = bound(u.u_late_index, 0.1, 5.0)
    early = late + (10.0 - late) * nn.sigmoid(0.1 * u.u_early_index)
    return dict(
        logm0=bound(u.u_logm0, 0.0, 17.0),
        logtc=bound(u.u_logtc, -1.0, 1.0),
        early_index=early,
        late_index=late,
        t_peak=bound(u.u_t_peak, 0.05, 20.0),
    )
