"""C09: average pooling returns exact window means, counting pads only when asked."""
import numpy as np
import torch

from .. import gen
from ..core import Workload
from ..models import corr, padm

RULE = "a case counts when some kernel is larger than one; identity = (workload, shape, axes, notation, kernel sizes, strides, padder, count_include_pad)"
REQUIRED_EVENTS = ["mean_with_pads", "mean_without_pads", "no_padder_count_false", "unordered_axes", "constant_image", "stride_gt_kernel", "kernel_gt_input", "even_kernel", "reused_module", "empty_kernel"]


def setup(c, padded):
    shp = gen.shape(c, ndim_hi=4, hi=8, big=0.02, max_elems=300)
    axes = gen.axes_subset(c, len(shp), kmax=3)
    m = min(shp[a] for a in axes)
    per = c.r.random() < 0.6
    size = lambda n: c.r.randint(1, 4 if c.r.random() < 0.8 else 9) if padded else c.r.randint(1, min(n, 5))
    ks = [size(shp[a]) for a in axes] if per else [size(m)] * len(axes)
    if c.r.random() < 0.06:  # an empty kernel leaves its axis alone
        ks = [0 if c.r.random() < 0.5 else k for k in ks] if per else [0] * len(axes)
        if 0 in ks:
            c.ev("empty_kernel")
    kn = (ks if c.r.random() < 0.5 else tuple(ks)) if per else ks[0]
    q = c.r.random()
    if q < 0.3:
        st, ss = None, [max(k, 1) for k in ks]
    elif q < 0.6:
        st = c.r.randint(1, 4)
        ss = [st] * len(axes)
    else:
        st = [c.r.choice([1, 2, 3, 5]) for _ in axes]
        ss = st
    for a, k, s in zip(axes, ks, ss):
        if s > k > 0:
            c.ev("stride_gt_kernel")
        if k > shp[a]:
            c.ev("kernel_gt_input")
        if k % 2 == 0 and k:
            c.ev("even_kernel")
    if axes != sorted(axes):
        c.ev("unordered_axes")
    lab, note = gen.spell_axes(c, axes, len(shp))
    c.nontrivial = any(k > 1 for k in ks)
    c.note(shape=shp, axes=axes, spelled=lab, ks=ks, strides=ss)
    return shp, axes, note, kn, ks, st, ss


def real(axes, ks, ss, widths):
    """the axes that are pooled: an empty kernel is ignored"""
    keep = [j for j, k in enumerate(ks) if k]
    return tuple([v[j] for j in keep] for v in (axes, ks, ss, widths))


def with_pads(c):
    """count_include_pad=True, any padding mode or none"""
    from torchimage.pooling import AvgPoolNd
    m = c.r.choice([None] + padm.COPY_MODES[:2] + ["symmetric", "reflect", "zeros", "maximum", "linear_ramp", "smooth"])
    shp, axes, note, kn, ks, st, ss = setup(c, m is not None)
    c.note(mode=m)
    a = gen.values(c, shp)
    if m in (None, "zeros", "replicate", "circular", "symmetric", "reflect"):
        a = gen.undefined(c, a)
    x, _ = gen.layout(c, a)
    y = AvgPoolNd(kn, st, same_padder=m, **({} if c.r.random() < 0.5 else {"count_include_pad": True})).forward(x, axes=note)
    widths = [corr.same_width(k, s, shp[i]) if m else (0, 0) for i, k, s in zip(axes, ks, ss)]
    axes, ks, ss, widths = real(axes, ks, ss, widths)
    pf = lambda v: padm.padn(v, [dict(axis=i, before=b, after=e, mode=m) for i, (b, e) in zip(axes, widths)]) if m else v
    e = corr.window_means(a, axes, ks, ss, widths, True, pf)
    c.close(y, e, "mean_with_pads", "mean_with_pads", rtol=1e-10, mode=m)


def without_pads(c):
    """count_include_pad=False with zero padding or none; two images through one module"""
    from torchimage.pooling import AvgPoolNd
    from torchimage.padding import Padder
    m = c.r.choice(["zeros", "zeros", "zeros", "const0", None])
    shp, axes, note, kn, ks, st, ss = setup(c, m is not None)
    c.note(mode=m)
    pad = {"zeros": "zeros", "const0": Padder(mode="constant", constant_values=0), None: None}[m]
    mod = AvgPoolNd(kn, st, count_include_pad=False, same_padder=pad)
    for rep in range(2):
        if rep:
            grow = [c.r.randint(0, 3) if i in axes else 0 for i in range(len(shp))]
            shp = tuple(v + g for v, g in zip(shp, grow))
            if int(np.prod(shp)) > 800:
                break
            lab, note = gen.spell_axes(c, axes, len(shp))
        a = gen.undefined(c, gen.values(c, shp))
        x, _ = gen.layout(c, a)
        y = mod.forward(x, axes=note)
        widths = [corr.same_width(k, s, shp[i]) if m else (0, 0) for i, k, s in zip(axes, ks, ss)]
        ax, kk, sk, widths = real(axes, ks, ss, widths)
        pf = lambda v: padm.padn(v, [dict(axis=i, before=b, after=e, mode="zeros") for i, (b, e) in zip(ax, widths)]) if m else v
        e = corr.window_means(a, ax, kk, sk, widths, False, pf)
        c.close(y, e, "mean_without_pads", "mean_without_pads", rtol=1e-10, mode=m, rep=rep)
        if m is None:
            c.ev("no_padder_count_false")
        if rep:
            c.ev("reused_module")
        v = c.r.choice([1.0, -2.5, 137.0])
        k = mod.forward(torch.full(shp, v, dtype=torch.float64), axes=note)
        c.close(k, np.full(tuple(k.shape), v), "constant_image", "constant_image", rtol=1e-12, scale=abs(v) * 4)


WORKLOADS = [
    Workload("with_pads", with_pads, 2000, 25000),
    Workload("without_pads", without_pads, 2500, 30000),
]
