"""Direct windowed SSIM reference."""
import numpy as np

from . import corr, padm


def blur(x, axes, kernels, mode):
    if mode is not None:
        w = [corr.same_width(len(k), 1, x.shape[a]) for a, k in zip(axes, kernels)]
        x = padm.padn(x, [dict(axis=a, before=b, after=e, mode=mode) for a, (b, e) in zip(axes, w)])
    return corr.dense(x, axes, kernels, [1] * len(axes))


def stats(a, b, axes, kernels, mode, sample):
    m1, m2 = blur(a, axes, kernels, mode), blur(b, axes, kernels, mode)
    # moments about a nearby origin: numerically benign and a different route from E[x^2]-E[x]^2
    o1, o2 = (0.0, 0.0) if mode == "zeros" else (a.mean(), b.mean())
    d1, d2 = a - o1, b - o2
    q1, q2 = blur(d1, axes, kernels, mode), blur(d2, axes, kernels, mode)
    s1 = blur(d1 * d1, axes, kernels, mode) - q1 * q1
    s2 = blur(d2 * d2, axes, kernels, mode) - q2 * q2
    s12 = blur(d1 * d2, axes, kernels, mode) - q1 * q2
    if sample:
        n = int(np.prod([len(k) for k in kernels]))
        s1, s2, s12 = (v * n / (n - 1) for v in (s1, s2, s12))
    return m1, m2, s1, s2, s12


def full_map(a, b, axes, kernels, mode, sample, K1, K2):
    m1, m2, s1, s2, s12 = stats(a, b, axes, kernels, mode, sample)
    return ((2 * m1 * m2 + K1 ** 2) * (2 * s12 + K2 ** 2)) / ((m1 ** 2 + m2 ** 2 + K1 ** 2) * (s1 + s2 + K2 ** 2))


def cs_map(a, b, axes, kernels, mode, sample, K2):
    _, _, s1, s2, s12 = stats(a, b, axes, kernels, mode, sample)
    return (2 * s12 + K2 ** 2) / (s1 + s2 + K2 ** 2)


def crop(v, axes, kernels, mode, do):
    """drop the positions whose window touches padding"""
    if mode is None or not do:
        return v
    idx = [slice(None)] * v.ndim
    for a, k in zip(axes, kernels):
        b, e = corr.same_width(len(k), 1, v.shape[a])
        idx[a] = slice(b, v.shape[a] - e)
    return v[tuple(idx)]


def ms(a, b, axes, kernels, mode, sample, K1, K2, weights, prod, eps, do_crop):
    ax = tuple(axes)
    total = None
    for i, w in enumerate(weights):
        last = i == len(weights) - 1
        v = full_map(a, b, axes, kernels, mode, sample, K1, K2) if last else cs_map(a, b, axes, kernels, mode, sample, K2)
        v = crop(v, axes, kernels, mode, do_crop).mean(axis=ax, keepdims=True)
        t = np.maximum(v, eps) ** w if prod else v * w
        total = t if total is None else (total * t if prod else total + t)
        if not last:
            a, b = half(a, axes), half(b, axes)
    return total


def half(x, axes):
    for a in axes:
        n = x.shape[a] // 2 * 2
        i0 = [slice(None)] * x.ndim
        i1 = [slice(None)] * x.ndim
        i0[a], i1[a] = slice(0, n, 2), slice(1, n, 2)
        x = (x[tuple(i0)] + x[tuple(i1)]) / 2
    return x
