"""Direct (non-separable) correlation and window references."""
import numpy as np
from numpy.lib.stride_tricks import sliding_window_view
from math import ceil


def dense(x, axes, kernels, strides):
    """strided correlation with the outer product of the kernels over distinct axes"""
    act = [(a, np.asarray(k, dtype=np.float64), s) for a, k, s in zip(axes, kernels, strides) if len(k)]
    if not act:
        return x
    w = np.array(1.0)
    for _, k, _ in act:
        w = np.multiply.outer(w, k)
    v = sliding_window_view(x, [len(k) for _, k, _ in act], axis=[a for a, _, _ in act])
    idx = [slice(None)] * v.ndim
    for a, _, s in act:
        idx[a] = slice(None, None, s)
    v = v[tuple(idx)]
    n = len(act)
    return np.tensordot(v, w, axes=(list(range(v.ndim - n, v.ndim)), list(range(n))))


def same_width(k, s, n):
    """smallest non-negative total padding that yields ceil(n/s) windows, all in bounds; larger half first"""
    want = ceil(n / s)
    p = 0
    while not (n + p >= k and (n + p - k) // s + 1 >= want):
        p += 1
    return p - p // 2, p // 2


def n_windows(n, k, s):
    return len([p for p in range(0, n - k + 1, s)])


def window_means(x, axes, ks, ss, widths, count_pad, pad_fn):
    """mean of each window; widths per axis; pad_fn(x) gives the padded array (count_pad) """
    xp = pad_fn(x)
    out_shape = list(x.shape)
    for a, k, s in zip(axes, ks, ss):
        out_shape[a] = n_windows(xp.shape[a], k, s)
    out = np.zeros(out_shape)
    lead = [n for i, n in enumerate(out_shape) if i not in axes]
    for pos in np.ndindex(*[out_shape[a] for a in axes]):
        src = [slice(None)] * x.ndim
        dst = [slice(None)] * x.ndim
        for a, q, k, s, (b, e) in zip(axes, pos, ks, ss, widths):
            lo, hi = q * s, q * s + k
            if not count_pad:
                lo, hi = max(lo - b, 0), min(hi - b, x.shape[a])
            src[a] = slice(lo, hi)
            dst[a] = q
        blk = (xp if count_pad else x)[tuple(src)]
        out[tuple(dst)] = blk.mean(axis=tuple(sorted(axes)))
    return out
