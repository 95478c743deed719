"""C07: same padding gives ceil(n/stride) outputs and matches explicit padding."""
from math import ceil

import numpy as np
import torch

from .. import gen
from ..core import Workload
from ..models import corr, padm

RULE = "a case counts when the same padding is non-empty on some axis; identity = (workload, shape, axes, kernel sizes, strides, mode)"
REQUIRED_EVENTS = ["output_length", "width_observed", "explicit_equal", "stride_gt_kernel", "kernel_gt_input", "even_kernel", "stride_none", "width_law", "reused_module", "empty_kernel_axis", "width_large"]
MODES = [m for m in padm.ALL_MODES if m != "periodize"]


class Recorder:
    """a user padding function that logs the widths reserved for it and replicates the border"""
    def __init__(self):
        self.seen = {}

    def __deepcopy__(self, memo):
        return self  # like a plain function, so that copying a padder keeps the log

    def __call__(self, x, idx, dim):
        h, t, n = idx[dim].start, idx[dim].stop, x.shape[dim]
        self.seen[dim % x.ndim] = (h, n - t, t - h)
        f = lambda *a: tuple(slice(*a) if i == dim % x.ndim else s for i, s in enumerate(idx))
        if h:
            x[f(0, h)] = x[f(h, h + 1)]
        if n > t:
            x[f(t, n)] = x[f(t - 1, t)]


def make_pool(c, k, kind=None, empty_ok=True):
    """-> (factory(padder), kernel sizes, strides)"""
    from torchimage.pooling import SeparablePoolNd, AvgPoolNd, GaussianPoolNd
    kind = kind or c.r.choice(["sep", "avg", "gauss"])
    per = c.r.random() < 0.5
    lo = 0 if kind == "sep" and empty_ok and c.r.random() < 0.2 else 1
    size = lambda: c.r.randint(lo, 4) if c.r.random() < 0.8 else c.r.randint(5, 11)
    ks = [size() for _ in range(k)] if per else [size()] * k
    q = c.r.random()
    if q < 0.3:
        st, ss = None, [max(v, 1) for v in ks]
    elif q < 0.6:
        v = c.r.randint(1, 5)
        st, ss = v, [v] * k
    else:
        st = [c.r.choice([1, 2, 3, 4, 6, None]) for _ in range(k)]
        ss = [max(a, 1) if b is None else b for a, b in zip(ks, st)]
    if kind == "sep":
        kern = [[round(c.r.uniform(-2, 2), 3) for _ in range(n)] for n in ks]
        if not per:
            kern = kern[0]
        return (lambda pad, S=st: SeparablePoolNd(kern, S, same_padder=pad)), ks, ss, st, kind
    if kind == "avg":
        a = ks if per else ks[0]
        return (lambda pad, S=st: AvgPoolNd(a, S, same_padder=pad)), ks, ss, st, kind
    a, sg = (ks if per else ks[0]), round(c.r.uniform(0.5, 3), 2)
    return (lambda pad, S=st: GaussianPoolNd(a, sg, 0, S, same_padder=pad)), ks, ss, st, kind


def events(c, ns, ks, ss, st):
    for n, k, s in zip(ns, ks, ss):
        if k == 0:
            c.ev("empty_kernel_axis")
            continue
        c.ev("output_length")
        if s > k:
            c.ev("stride_gt_kernel")
        if k > n:
            c.ev("kernel_gt_input")
        if k % 2 == 0:
            c.ev("even_kernel")
        if k == s:
            c.ev("stride_none" if st is None else "stride_eq_kernel")


def lengths(n, k, s):
    return n if k == 0 else ceil(n / s)


def recorded(c):
    """the widths each axis really receives, seen by a padding function"""
    from torchimage.padding import Padder
    shp = gen.shape(c, ndim_hi=4, hi=9, big=0.02)
    axes = gen.axes_subset(c, len(shp))
    f, ks, ss, st, kind = make_pool(c, len(axes))
    rec = Recorder()
    x = torch.from_numpy(gen.values(c, shp))
    c.note(shape=shp, axes=axes, ks=ks, strides=ss, kind=kind)
    y = f(Padder(pad_width=c.r.choice([0, 1, (2, 0)]), mode=rec)).forward(x, axes=gen.spell_axes(c, axes, len(shp))[1])
    want = list(shp)
    for a, k, s in zip(axes, ks, ss):
        n = shp[a]
        want[a] = lengths(n, k, s)
        b, e = corr.same_width(k, s, n) if k else (0, 0)
        got = rec.seen.get(a, (0, 0, n))
        c.ev("width_observed")
        c.nontrivial |= b + e > 0
        c.check(got == (b, e, n), "same_width", axis=a, n=n, kernel=k, stride=s, got=got, want=(b, e, n))
    c.check(list(y.shape) == want, "output_length", got=list(y.shape), want=want, ks=ks, ss=ss)
    events(c, [shp[a] for a in axes], ks, ss, st)


def explicit(c):
    """pool with a same padder == explicit padding, then the unpadded pool; module reused on two inputs"""
    from torchimage.padding import Padder
    nd = c.r.randint(1, 4)
    axes = None
    f = None
    m = c.r.choice(MODES)
    kw = dict(mode=m)
    if m == "constant":
        kw["constant_values"] = (1.5, -2.0)
    elif m == "linear_ramp":
        kw["end_values"] = (3.0, -1.0)
    elif m in padm.STAT_MODES:
        kw["stat_length"] = (2, 3)
    as_str = len(kw) == 1 and c.r.random() < 0.5
    mod = None
    for rep in range(2):
        shp = gen.shape(c, ndim_lo=nd, ndim_hi=nd, hi=9, big=0.02)
        if axes is None:
            axes = gen.axes_subset(c, nd)
            f, ks, ss, st, kind = make_pool(c, len(axes))
            mod = f(m if as_str else Padder(**kw))
        x, lay = gen.layout(c, gen.values(c, shp))
        c.note(**{f"shape{rep}": shp}, axes=axes, ks=ks, strides=ss, kind=kind, mode=m, layout=lay, as_str=as_str)
        y = mod.forward(x, axes=axes)
        widths = [corr.same_width(k, s, shp[a]) if k else (0, 0) for a, k, s in zip(axes, ks, ss)]
        c.nontrivial |= any(b + e for b, e in widths)
        e = f(None).forward(Padder(pad_width=widths, **kw).forward(x, axes=axes), axes=axes)
        c.close(y, e.numpy(), f"explicit/{m}", "explicit_equal", rtol=1e-10, rep=rep, ks=ks, ss=ss, shape=shp)
        # shape and value against the reference padding as well
        meaning = [dict(axis=a, before=b, after=g, mode=m, cv=kw.get("constant_values", (0, 0)), ev=kw.get("end_values", (0., 0.)), sl=kw.get("stat_length", (None, None)))
                   for a, (b, g) in zip(axes, widths)]
        e2 = f(None).forward(torch.from_numpy(np.ascontiguousarray(padm.padn(x.numpy(), meaning))), axes=axes)
        c.close(y, e2.numpy(), f"reference/{m}", rtol=1e-9)
        want = list(shp)
        for a, k, s in zip(axes, ks, ss):
            want[a] = lengths(shp[a], k, s)
        c.check(list(y.shape) == want, "output_length", got=list(y.shape), want=want)
        events(c, [shp[a] for a in axes], ks, ss, st)
        if rep:
            c.ev("reused_module")


def width_law(c):
    """all (kernel, stride) up to a bound for one axis length, through the padder API"""
    from torchimage.padding import Padder
    n = 1 + c.index % 16
    top = 14 if c.tier == "quick" else 24
    c.note(n=n, top=top)
    c.nontrivial = True
    for k in range(1, top):
        for s in list(range(1, top)) + [None]:
            p = Padder(mode="replicate").to_same(k, s, n)
            y = p.forward(torch.zeros(n), axes=(0,))
            b, e = corr.same_width(k, s or k, n)
            got = tuple(int(v) for v in p.pad_width[0])
            c.ev("width_law")
            if not c.check(got == (b, e) and y.shape[0] == n + b + e, "width_law", n=n, kernel=k, stride=s, got=got, want=(b, e)):
                return


def width_large(c):
    """long axes, large strides and kernels; lengths at and around the multiples of the stride"""
    from torchimage.padding import Padder
    from torchimage.pooling import AvgPoolNd
    for _ in range(40):
        s = int(2 ** c.r.uniform(0, 9)) + c.r.randint(0, 3)
        m = int(2 ** c.r.uniform(0, 14 - np.log2(s)))
        n = max(1, m * s + c.r.choice([-1, 0, 0, 0, 0, 1]))
        k = c.r.choice([1, 2, s, s, s + 1, max(1, s - 1), c.r.randint(1, 2 * s), c.r.randint(1, 40)])
        b, e = corr.same_width(k, s, n)
        rec = Recorder()
        y = AvgPoolNd(k, s, same_padder=Padder(mode=rec)).forward(torch.zeros(n), axes=0)
        c.ev("width_large")
        got = rec.seen.get(0, (0, 0, n))
        if not c.check(got == (b, e, n) and y.shape[0] == -(-n // s), "width_large", n=n, kernel=k, stride=s, got=got, want=(b, e), length=y.shape[0]):
            return
    c.note(n=n, k=k, s=s)
    c.nontrivial = True


WORKLOADS = [
    Workload("width_large", width_large, 150, 3000),
    Workload("recorded", recorded, 1500, 25000),
    Workload("explicit", explicit, 1500, 25000),
    Workload("width_law", width_law, 16, 48),
]
