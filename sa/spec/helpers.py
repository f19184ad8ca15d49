"""Reference definitions of the numerical helpers and calibration losses (analysed, never executed)."""
import numpy as np
from jax import numpy as jnp


def sigmoid(x, x0, k, ylo, yhi):
    return ylo + (yhi - ylo) / (1 + jnp.exp(-k * (x - x0)))


def kept(x, p):
    """points between the trimming percentiles, inclusive"""
    return (x >= jnp.percentile(x, 100 * p)) & (x <= jnp.percentile(x, 100 * (1 - p)))


def cut(x, p, upper):
    return jnp.percentile(x, 100 * jnp.where(upper == 1, 1 - p, p))


def tmean(x, p):
    w = jnp.where(kept(x, p), 1.0, 0.0)
    return jnp.sum(w * x) / jnp.sum(w)


def tvar(x, p):
    w = jnp.where(kept(x, p), 1.0, 0.0)
    n = jnp.sum(w)
    return jnp.sum(w * (x - tmean(x, p)) ** 2) / (n - 1)


def cov(corr, s):
    return [[corr[i, j] * s[i] * s[j] for j in range(s.size)] for i in range(s.size)]


def corr(c, n):
    return [[jnp.where(c[i, j] == 0, 0.0, c[i, j] / (jnp.sqrt(c[i, i]) * jnp.sqrt(c[j, j]))) for j in range(n)] for i in range(n)]


def mse(pred, target):
    return jnp.mean((pred - target) ** 2)


def mae(pred, target):
    return jnp.mean(jnp.abs(pred - target))


def scaled(x, mah, logmp):
    return 10**logmp * x / mah[:, -1].reshape((-1, 1))


def log_interp(lgt_target, lgt, y):
    return 10 ** np.interp(lgt_target, lgt, np.log10(y))


def target_mean(x, mah, logmp, lgt, lgt_target):
    return log_interp(lgt_target, lgt, np.mean(scaled(x, mah, logmp), axis=0))


def target_mean_log(x, mah, logmp, lgt, lgt_target):
    return log_interp(lgt_target, lgt, np.mean(np.log10(scaled(x, mah, logmp)), axis=0))


def target_var(x, mah, logmp, lgt, lgt_target):
    return log_interp(lgt_target, lgt, np.std(scaled(x, mah, logmp), axis=0)) ** 2


def target_var_log(x, mah, logmp, lgt, lgt_target):
    return np.interp(lgt_target, lgt, np.std(np.log10(scaled(x, mah, logmp)), axis=0)) ** 2


def clean(log_mah, logmp, it_min, n_t, lim, z_cut):
    """halos whose rescaled mass is within z_cut trimmed deviations at every time from it_min to the last but one"""
    from scipy.stats.mstats import trimmed_mean, trimmed_std

    ok = True
    for it in range(it_min, n_t - 1):
        x = log_mah[:, it] - log_mah[:, -1] + logmp
        ok = ok & (np.abs((x - trimmed_mean(x, limits=(lim, lim))) / trimmed_std(x, limits=(lim, lim))) < z_cut)
    return ok
