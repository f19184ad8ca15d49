"""Reference statement of the population model (analysed, never executed).

tag: suffix of the component's parameter names."""

from jax import nn, vmap
from jax import numpy as jnp
from jax import random as jran
from jax.scipy.stats import truncnorm


def g(p, name, tag):
    return getattr(p, name + tag)


def sigm(x, x0, k, lo, hi):
    return lo + (hi - lo) * nn.sigmoid(k * (x - x0))


def sslope(x, xtp, ytp, x0, k, lo, hi):
    return ytp + sigm(x, x0, k, lo, hi) * (x - xtp)


def logm0(p, lgm, t_obs, t_peak, tag):
    c0 = sslope(t_obs, 15, g(p, "lgm0pop_c0_ytp", tag), g(p, "lgm0pop_c0_t_obs_x0", tag), 0.25, g(p, "lgm0pop_c0_ylo", tag), 0.0)
    c0 = jnp.maximum(c0, g(p, "lgm0pop_c0_clip_c0", tag) + g(p, "lgm0pop_c0_clip_c1", tag) * t_peak)
    c1 = sslope(t_obs, 10.0, g(p, "lgm0pop_c1_ytp", tag), g(p, "lgm0pop_c1_t_obs_x0", tag), 0.25, g(p, "lgm0pop_c1_ylo", tag), 0.0)
    clip = sigm(t_peak, g(p, "lgm0pop_c1_clip_x0", tag), 1.0, g(p, "lgm0pop_c1_clip_ylo", tag), g(p, "lgm0pop_c1_clip_yhi", tag))
    c1 = jnp.maximum(c1, clip)
    return lgm + c0 + c1 * (lgm - 12.0)


def logtc(p, lgm, t_obs, t_peak, tag):
    ytp = g(p, "logtc_lgm_c0_tp_ytp_tobs_c0", tag) + g(p, "logtc_lgm_c0_tp_ytp_tobs_c1", tag) * t_obs
    c0 = sslope(t_peak, 10.0, ytp, g(p, "logtc_c0_ss_x0", tag), 0.5, g(p, "logtc_lgm_c0_tp_ylo", tag), g(p, "logtc_lgm_c0_tp_yhi", tag))
    x = c0 + g(p, "logtc_lgm_c1", tag) * (lgm - 12.0)
    return jnp.clip(x, -1.0 + 1e-3, 1.0 - 1e-3)


def early_index(p, lgm, t_obs, t_peak, tag):
    ylo = sigm(t_peak, g(p, "early_index_ylo_x0", tag), 1.0, g(p, "early_index_ylo_ylo", tag), g(p, "early_index_ylo_yhi", tag))
    yhi = sigm(t_obs, g(p, "early_index_yhi_x0", tag), 0.5, g(p, "early_index_yhi_ylo", tag), g(p, "early_index_yhi_yhi", tag))
    x = sigm(lgm, g(p, "early_index_lgm_x0", tag), 1.0, ylo, yhi)
    return jnp.clip(x, 0.1 + 1e-3, 10.0 - 1e-3)


def late_index(p, lgm, tag):
    x = sigm(lgm, g(p, "late_index_x0", tag), 1.0, g(p, "late_index_ylo", tag), g(p, "late_index_yhi", tag))
    return jnp.clip(x, 0.1 + 1e-3, 5.0 - 1e-3)


def means(p, lgm, t_obs, t_peak, tag, itag, sat):
    """mean growth parameters of one branch; tag early/late, itag alpha/beta, sat the satellite suffix"""
    return dict(
        logm0=logm0(p, lgm, t_obs, t_peak, tag + sat),
        logtc=logtc(p, lgm, t_obs, t_peak, tag),
        early_index=early_index(p, lgm, t_obs, t_peak, itag),
        late_index=late_index(p, lgm, itag),
    )


def frac_early(p, lgm, t_obs):
    ylo = sigm(t_obs, p.fec_t_obs_x0, 1.0, p.fec_lgm_ylo_early, p.fec_lgm_ylo_late)
    yhi = sigm(t_obs, p.fec_t_obs_x0, 1.0, p.fec_lgm_yhi_early, p.fec_lgm_yhi_late)
    return sigm(lgm, p.fec_lgm_x0, 4.0, ylo, yhi)


def std(p, lgm, name):
    return sigm(lgm, getattr(p, "cov_lgm_x0_" + name), 2.0, getattr(p, "std_u_" + name + "_ylo"), getattr(p, "std_u_" + name + "_yhi"))


def cov(p, lgm):
    s0, s1, s2, s3 = std(p, lgm, "logm0"), std(p, lgm, "logtc"), std(p, lgm, "early"), std(p, lgm, "late")
    r10, r20, r21 = p.rho_logtc_logm0, p.rho_early_logm0, p.rho_early_logtc
    r30, r31, r32 = p.rho_late_logm0, p.rho_late_logtc, p.rho_late_early
    return [
        [s0 * s0, r10 * s0 * s1, r20 * s0 * s2, r30 * s0 * s3],
        [r10 * s0 * s1, s1 * s1, r21 * s1 * s2, r31 * s1 * s3],
        [r20 * s0 * s2, r21 * s1 * s2, s2 * s2, r32 * s2 * s3],
        [r30 * s0 * s3, r31 * s1 * s3, r32 * s2 * s3, s3 * s3],
    ]


def utp_loc(p, lgm, t_obs):
    ylo = sigm(t_obs, p.utp_loc_lgm_ylo_t0, 0.4, p.utp_loc_lgm_ylo_early, p.utp_loc_lgm_ylo_late)
    return sigm(lgm, p.utp_loc_lgm_x0, 1.5, ylo, 0.95)


def utp_scale(p, lgm, t_obs):
    ylo = sigm(t_obs, p.utp_scale_lgm_ylo_t0, 1.0, p.utp_scale_lgm_ylo_early, p.utp_scale_lgm_ylo_late)
    return sigm(lgm, 12.0, 1.0, ylo, 0.16)


def frac_peaked_cen(p, x, lgm, t_obs):
    """P(t_peak/t_0 < x)"""
    early = sigm(lgm, p.cen_tp_lgm_x0_x0, 1.0, p.cen_tp_x0_ylo_early, p.cen_tp_x0_yhi_early)
    late = sigm(lgm, p.cen_tp_lgm_x0_x0, 1.0, p.cen_tp_x0_ylo_late, p.cen_tp_x0_yhi_late)
    x0 = sigm(t_obs, p.cen_tp_t_obs_x0_x0, 2.0, early, late)
    return sigm(x, x0, 5.0, 0.0, 1.0)


def tn_cdf(x, loc, scale):
    return truncnorm.cdf(x, (0.1 - loc) / scale, (1.0 - loc) / scale, loc, scale)


def tn_pdf(x, loc, scale):
    return truncnorm.pdf(x, (0.1 - loc) / scale, (1.0 - loc) / scale, loc, scale)


def mse(a, b):
    return jnp.mean((a - b) * (a - b))


def moments(single, mah, p, tarr, lgm, t_obs, key, lgt0, n):
    """two-component mixture moments over n draws"""
    keys = jran.split(key, n)

    def one(k):
        e, l, f = single(p, lgm, t_obs, k, lgt0)
        return mah(e, tarr, lgt0)[1], mah(l, tarr, lgt0)[1], f

    a, b, f = vmap(one)(keys)
    w = jnp.reshape(f, (-1, 1))
    mu = jnp.sum(w * a + (1 - w) * b, axis=0) / n
    var = jnp.sum(w * (a - mu) ** 2 + (1 - w) * (b - mu) ** 2, axis=0) / n
    return mu, jnp.sqrt(var)


def loss(predict, p, tarr, lgm, t_obs, key, lgt0, mu, std):
    """mean over bins of the mismatch of the mean and of the scatter"""
    keys = jran.split(key, lgm.shape[0])

    def one(t, m, to, k, mu_i, std_i):
        r = predict(p, t, m, to, k, lgt0)
        return mse(r[0], mu_i) + mse(r[1], std_i)

    return jnp.mean(vmap(one)(tarr, lgm, t_obs, keys, mu, std))


def ftpt0(p, lgm, t_obs):
    c0 = jnp.clip(p.ftpt0_c0_c0 + p.ftpt0_c0_c1 * (t_obs - 10.0), 0.01, 0.99)
    return jnp.clip(c0 + p.ftpt0_c1 * (lgm - 12.0), 0.01, 0.99)


def tpck_scale(p, lgm, t_obs, t_0):
    """scale of the truncated normal of t_peak/t_0 of centrals"""
    boost = sigm(t_obs, t_0 / 2.0, 1.0, p.tpck_scale_boost_early, 0.0)
    return sigm(lgm, 12.5, 2.0, p.tpck_scale_mh_lo, p.tpck_scale_mh_hi) + boost
