"""C11: convolution shape arithmetic and 1-d convolution agree with brute force."""
import numpy as np
import torch

from .. import gen
from ..core import Workload
from ..models import padm

RULE = "a case counts when the kernel has more than one tap or the grid is non-trivial; identity = (workload, sizes, strides, dilations, layout)"
REQUIRED_EVENTS = ["conv_value", "conv_length", "shape_helper", "count_1d", "count_nd", "noncontiguous", "dilated", "strided", "pad_wider_than_kernel", "stride_gt_kernel", "shape_helper_nd", "no_window", "missing_sample"]


def positions(n, k, s, d):
    return [p for p in range(0, n, s) if p + d * (k - 1) <= n - 1]


def conv(c):
    from torchimage.pooling.operator import any_conv_1d
    from torchimage.shapes.conv_like import conv_1d
    shp = gen.shape(c, ndim_hi=5, hi=8, big=0.03)
    dim = c.r.randrange(len(shp))
    n = shp[dim]
    k = c.r.randint(1, min(5, n))
    dmax = (n - 1) // (k - 1) if k > 1 else 3
    d = c.r.randint(1, max(1, min(3, dmax)))
    s = c.r.randint(1, 4)
    a, w = gen.values(c, shp), gen.values(c, (k,), "normal")
    x, lay = gen.layout(c, a, kinds=("contig", "perm", "perm", "strided", "offset"))
    wt, wl = gen.layout(c, w, kinds=("contig", "strided", "offset"))
    c.note(shape=shp, dim=dim, k=k, stride=s, dilation=d, layout=lay, wlayout=wl)
    c.nontrivial = k > 1
    if not x.is_contiguous():
        c.ev("noncontiguous")
    if d > 1:
        c.ev("dilated")
    if s > 1:
        c.ev("strided")
    y = any_conv_1d(x, wt, dim=c.r.choice([dim, dim - len(shp)]), stride=s, dilation=d)
    v = np.moveaxis(a, dim, 0)
    pos = positions(n, k, s, d)
    e = np.moveaxis(np.stack([sum(w[j] * v[p + j * d] for j in range(k)) for p in pos]), 0, dim)
    c.close(y, e, "conv_value", "conv_value", rtol=1e-11, scale=(np.abs(a).max() + 1) * (np.abs(w).sum() + 1))
    if c.r.random() < 0.2:
        # an undefined sample reaches the sums it is a term of, and no other
        p, u = c.r.randrange(n), c.r.choice([np.nan, np.inf, -np.inf])
        a2, x2 = np.moveaxis(a, dim, 0).copy(), x.clone()
        a2[p] = u
        x2.select(dim, p).fill_(u)
        with np.errstate(all="ignore"):
            e2 = np.moveaxis(np.stack([sum(w[j] * a2[q + j * d] for j in range(k)) for q in pos]), 0, dim)
        c.close(any_conv_1d(x2, wt, dim=dim, stride=s, dilation=d), e2, "missing_sample", "missing_sample", rtol=1e-11, scale=(np.abs(a).max() + 1) * (np.abs(w).sum() + 1), value=str(u))
    c.ev("conv_length")
    h = conv_1d(n, k, s, d)
    c.check(h == len(pos) == y.shape[dim], "conv_length", helper=h, actual=y.shape[dim], want=len(pos))


def shape_grid(c):
    from torchimage.shapes.conv_like import conv_1d, conv_nd
    n = 1 + c.index % 24
    c.note(n=n)
    c.nontrivial = True
    for k in range(1, n + 6):
        for s in range(1, 9):
            for d in range(1, 5):
                want = len(positions(n, k, s, d))
                if want == 0:
                    c.ev("no_window")
                    if not c.check(conv_1d(n, k, s, d) <= 0, "window_out_of_nothing", n=n, k=k, s=s, d=d, got=conv_1d(n, k, s, d)):
                        return
                    continue
                c.ev("shape_helper")
                if not c.check(conv_1d(n, k, s, d) == want, "shape_helper", n=n, k=k, s=s, d=d, got=conv_1d(n, k, s, d), want=want):
                    return
    m = c.r.randint(1, 4)
    ns = [c.r.randint(4, 20) for _ in range(m)]
    ks = [c.r.randint(1, 2) for _ in range(m)]
    ss = c.r.choice([c.r.randint(1, 4), [c.r.randint(1, 4) for _ in range(m)]])
    ds = c.r.choice([1, 2, [c.r.randint(1, 3) for _ in range(m)]])
    got = conv_nd(ns, ks, ss, ds)
    at = lambda v, i: v[i] if isinstance(v, list) else v
    c.ev("shape_helper_nd")
    want = [len(positions(ns[i], ks[i], at(ss, i), at(ds, i))) for i in range(m)]
    c.check([got[i] for i in range(m)] == want, "shape_helper_nd", got=[got[i] for i in range(m)], want=want, ns=ns, ks=ks, ss=ss, ds=ds)


def brute(n, b, e, k, s):
    return [sum(1 for t in range(p, p + k) if b <= t < b + n) for p in range(0, b + n + e - k + 1, s)]


def count_1d(c):
    from torchimage.shapes.conv_like import n_original_elements_1d as f
    n = 1 + c.index % 8
    k = 1 + (c.index // 8) % 8
    top = 11 if c.tier == "quick" else 20
    c.note(n=n, k=k, top=top)
    c.nontrivial = True
    for b in range(top):
        for e in range(top):
            for s in range(1, 9):
                want = brute(n, b, e, k, s)
                got = [int(v) for v in f(n, (b, e), k, s)]
                c.ev("count_1d")
                if b > k:
                    c.ev("pad_wider_than_kernel")
                if s > k:
                    c.ev("stride_gt_kernel")
                if not c.check(got == want, "count_1d", n=n, pad=(b, e), k=k, s=s, got=got, want=want):
                    return


def count_large(c):
    from torchimage.shapes.conv_like import n_original_elements_1d as f
    n, k, s = c.r.randint(1, 60), c.r.randint(1, 40), c.r.randint(1, 25)
    b, e = c.r.randint(0, 80), c.r.randint(0, 80)
    c.note(n=n, k=k, s=s, b=b, e=e)
    c.nontrivial = True
    c.ev("count_1d")
    got, want = [int(v) for v in f(n, (b, e), k, s)], brute(n, b, e, k, s)
    c.check(got == want, "count_1d", n=n, pad=(b, e), k=k, s=s, got=got, want=want)


def count_nd(c):
    from torchimage.shapes.conv_like import n_original_elements_nd as f
    m = c.r.randint(1, 4)
    ns = [c.r.randint(1, 6) for _ in range(m)]
    pw = [(c.r.randint(0, 3), c.r.randint(0, 3)) for _ in range(m)]
    ks = [c.r.randint(1, min(4, n + p[0] + p[1])) for n, p in zip(ns, pw)]
    ss = [c.r.randint(1, 3) for _ in range(m)]
    share_s = c.r.random() < 0.3
    if share_s:
        ss = [ss[0]] * m
    dt = c.r.choice([torch.int32, torch.int64, torch.float64, torch.float32])
    c.note(ns=ns, pad=pw, ks=ks, ss=ss, dtype=str(dt))
    c.nontrivial = True
    y = f(ns, pw, ks, ss[0] if share_s else ss, dtype=dt)
    e = np.array(1)
    for n, p, k, s in zip(ns, pw, ks, ss):
        e = np.multiply.outer(e, np.array(brute(n, p[0], p[1], k, s)))
    c.check(y.dtype == dt, "count_nd/dtype", got=str(y.dtype))
    c.exact(y.to(torch.float64), e.astype(np.float64), "count_nd", "count_nd", ns=ns, ks=ks)


WORKLOADS = [
    Workload("conv", conv, 2500, 40000),
    Workload("shape_grid", shape_grid, 24, 240),
    Workload("count_1d", count_1d, 64, 64),
    Workload("count_large", count_large, 1500, 30000),
    Workload("count_nd", count_nd, 800, 12000),
]
