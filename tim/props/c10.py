"""C10: Gaussian kernels are normalised sampled Gaussians and their exact derivatives."""
import numpy as np
import torch
from numpy.polynomial import hermite_e

from .. import gen
from ..core import Workload
from ..models import corr

RULE = "a case counts when some kernel size exceeds one; identity = (workload, sizes, sigmas, orders, strides, shape, axes)"
REQUIRED_EVENTS = ["kernel_" + str(m) for m in range(5)] + ["impulse_response", "even_size", "ramp_positive", "per_axis_lists", "dense", "constant_preserved", "polynomial_moment", "edge_filter_kernel", "large_kernel", "extreme_sigma", "high_order", "numpy_sigma"]


def kernel(k, sigma, m):
    """k taps for correlation: k[i] = g^(m)(c - i), g normalised over the full odd support"""
    r = k // 2
    t = np.arange(-r, r + 1, dtype=np.float64)
    g = np.exp(-0.5 * (t / sigma) ** 2)
    g = g / g.sum()
    u = -t                                   # correlation orientation
    he = hermite_e.hermeval(u / sigma, [0] * m + [1])
    d = (-1) ** m / sigma ** m * he * g
    if k % 2 == 0:
        d = d[:k]
        if m == 0:
            d = d / d.sum()
    return d


def rnd(c):
    if c.r.random() < 0.1:
        k = c.r.choice([c.r.randint(16, 99), c.r.randint(60, 260), c.r.randint(16, 99), c.r.randint(300, 2500)])
        c.ev("large_kernel")
        m = c.r.randint(0, 12)
        if m > 6:
            c.ev("high_order")
        return k, c.r.uniform(2.0, max(3.0, k / 6)), m
    k = c.r.choice([1, 2, 3, 4, 5, 5, 7, 8, 9, 11, 15])
    s = c.r.choice([0.3, 0.5, 0.8, 1.0, 1.5, 2.0, 3.7, c.r.uniform(0.2, 6)])
    if c.r.random() < 0.12:
        s = 10 ** c.r.uniform(-3, 3)
        c.ev("extreme_sigma")
    q = c.r.random()
    if q < 0.15:
        s = float(c.r.randint(1, 60)) if q < 0.06 else float(np.float32(s))
    m = c.r.choice([0, 0, 1, 1, 2, 2, 3, 4, 5, 6])
    return k, s, m


def kernels(c):
    from torchimage.pooling import GaussianPoolNd
    from torchimage.pooling.gaussian import gaussian_kernel_1d
    k, s, m = rnd(c)
    c.note(k=k, sigma=s, order=m)
    c.nontrivial = k > 1
    want = kernel(k, s, m)
    sc = max(np.abs(want).max(), 1e-9 * s ** -m)   # narrow kernels vanish beside their centre
    sp = s
    if c.r.random() < 0.5:     # the same numbers as numpy scalars
        ts = [t for t in (np.float32, np.float16, np.float64, np.uint8, np.int32) if float(t(min(s, 250))) == s]
        if ts:
            sp = c.r.choice(ts)(s)
            c.ev("numpy_sigma")
    got = gaussian_kernel_1d(k, sp, m)
    c.close(np.asarray(got, dtype=np.float64), want, f"kernel/{m}", "kernel_%d" % min(m, 4), rtol=1e-9, scale=sc, k=k, sigma=s)
    if k % 2 == 0:
        c.ev("even_size")
    # the same kernel as seen through the module: response to an impulse
    x = torch.zeros(2 * k - 1, dtype=torch.float64)
    x[k - 1] = 1.0
    y = GaussianPoolNd(k, s, m, 1).forward(x, axes=None)
    c.close(y, want[::-1], f"impulse/{m}", "impulse_response", rtol=1e-9, scale=sc, k=k, sigma=s)
    ramp = torch.arange(3 * k + 5, dtype=torch.float64)
    y = GaussianPoolNd(k, s, m, 1).forward(ramp, axes=0)
    if m == 1 and k >= 3 and k % 2 == 1 and s > 0.29:
        c.ev("ramp_positive")
        c.check(bool((y > 0).all()), "ramp_positive", k=k, sigma=s, got=y[:3].tolist())
    if m == 0:
        z = GaussianPoolNd(k, s, 0, 1).forward(torch.full((k + 2,), 7.5, dtype=torch.float64), axes=0)
        c.close(z, np.full(3, 7.5), "constant_preserved", "constant_preserved", rtol=1e-12, scale=8)
    elif m % 2 == 1 and k % 2 == 1:
        z = GaussianPoolNd(k, s, m, 1).forward(torch.full((k + 2,), 7.5, dtype=torch.float64), axes=0)
        c.close(z, np.zeros(3), "odd_order_kills_constants", "polynomial_moment", rtol=1e-10, scale=8 * max(1, sc))


def pooling(c):
    """per-axis lists of sizes, sigmas and orders"""
    from torchimage.pooling import GaussianPoolNd
    shp = gen.shape(c, ndim_hi=4, hi=9, big=0.02)
    axes = gen.axes_subset(c, len(shp))
    per = [c.r.random() < 0.5 for _ in range(3)]
    m = min(shp[a] for a in axes)
    n = len(axes)
    ks = [c.r.randint(1, min(7, shp[a])) for a in axes] if per[0] else [c.r.randint(1, min(7, m))] * n
    sg = [round(c.r.uniform(0.4, 3), 3) for _ in axes] if per[1] else [round(c.r.uniform(0.4, 3), 3)] * n
    od = [c.r.choice([0, 1, 2, 3]) for _ in axes] if per[2] else [c.r.choice([0, 0, 1, 2])] * n
    w = lambda v, p: (c.r.choice([v, tuple(v)])) if p else v[0]
    st = c.r.choice([None, 1, 2, [c.r.randint(1, 3) for _ in axes]])
    ss = ks if st is None else st if isinstance(st, list) else [st] * n
    a = gen.values(c, shp)
    x, _ = gen.layout(c, a)
    lab, note = gen.spell_axes(c, axes, len(shp))
    c.note(shape=shp, axes=axes, spelled=lab, ks=ks, sigma=sg, order=od, per=per, stride=ss)
    c.nontrivial = any(k > 1 for k in ks)
    if any(per) and n > 1:
        c.ev("per_axis_lists")
    kern = [kernel(k, s, o) for k, s, o in zip(ks, sg, od)]
    y = GaussianPoolNd(w(ks, per[0]), w(sg, per[1]), w(od, per[2]), st).forward(x, axes=note)
    sc = (np.abs(a).max() + 1) * np.prod([max(1, np.abs(k).sum()) for k in kern])
    c.close(y, corr.dense(a, axes, kern, ss), "pooling", "dense", rtol=1e-10, scale=sc)


def gradient_filters(c):
    """Gaussian gradient filters use the same sampled derivatives"""
    from torchimage.filtering import GaussianGrad
    k, s, m = c.r.choice([3, 5, 7, 9]), c.r.uniform(0.4, 3), c.r.choice([1, 2, 3])
    es = c.r.choice([None, c.r.uniform(0.4, 3)])
    ek = c.r.choice([None, 3, 5, 7])
    n = 2 * (ek or k) - 1
    x = torch.zeros(n, dtype=torch.float64)
    x[n // 2] = 1
    c.note(k=k, s=s, m=m, es=es, ek=ek)
    c.nontrivial = True
    f = GaussianGrad(k, s, edge_kernel_size=ek, edge_sigma=es, edge_order=m, same_padder="zeros")
    y = f.component(x, edge_axis=0, smooth_axes=())
    want = kernel(ek or k, es or s, m)[::-1]
    o = n // 2 - len(want) // 2
    e = np.zeros(n)
    e[o:o + len(want)] = want
    c.close(y, e, "gaussian_grad_kernel", "edge_filter_kernel", rtol=1e-9, scale=np.abs(want).max())


WORKLOADS = [
    Workload("kernels", kernels, 2000, 30000),
    Workload("pooling", pooling, 2000, 30000),
    Workload("gradient_filters", gradient_filters, 400, 6000),
]
