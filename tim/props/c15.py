"""C15: MSE and PSNR reduce exactly the requested axes with the stated formula."""
import numpy as np
import torch

from .. import gen
from ..core import Workload

RULE = "a case counts when the images differ; identity = (workload, shape, axes and notation, reduction, max_value, eps)"
REQUIRED_EVENTS = ["mse_mean", "mse_sum", "mse_none", "psnr", "psnr_eps", "symmetric", "identical", "rejected_shape", "rejected_reduction", "partial_axes", "all_axes", "no_axes", "numpy_max", "tiny_eps", "large_mean", "large_sum", "large_none", "large_psnr"]


def setup(c):
    shp = gen.shape(c, ndim_hi=5, hi=6)
    axes = [] if c.r.random() < 0.04 else gen.axes_subset(c, len(shp))
    if not axes:
        c.ev("no_axes")
    lab, note = gen.spell_axes(c, axes, len(shp))
    c.ev("all_axes" if len(axes) == len(shp) else "partial_axes")
    a, b = gen.undefined(c, gen.values(c, shp)), gen.values(c, shp)
    if c.r.random() < 0.5:
        a, b = b, a
    c.note(shape=shp, axes=axes, spelled=lab)
    c.nontrivial = True
    xa, _ = gen.layout(c, a)
    xb, _ = gen.layout(c, b)
    return shp, axes, note, a, b, xa, xb


def call(m, a, b, note):
    return m.forward(a, b, reduce_axes=note)


def mse(c):
    from torchimage.metrics import MSE
    shp, axes, note, a, b, xa, xb = setup(c)
    red = c.r.choice(["mean", "mean", "sum", "none"])
    m = MSE() if red == "mean" and c.r.random() < 0.5 else MSE(reduction=red)
    c.note(reduction=red)
    y = call(m, xa, xb, note)
    e = (a - b) ** 2
    if red != "none":
        n = int(np.prod([shp[i] for i in axes]))
        e = e.sum(axis=tuple(axes))
        e = e / n if red == "mean" else e
    c.close(y, e, "mse/" + red, "mse_" + red, rtol=1e-12)
    c.close(call(m, xb, xa, note), y.numpy(), "symmetric", "symmetric", rtol=1e-11, scale=max(1.0, float(np.max(np.abs(e[np.isfinite(e)]), initial=0))))
    if np.isnan(a).any() or np.isnan(b).any():
        return
    z = call(m, xa, xa.clone(), note)
    c.exact(z, np.zeros(e.shape), "identical", "identical")
    if len(axes) == len(shp):
        c.close(m.forward(xa, xb), e, "default_axes", rtol=1e-12) if red == "none" else c.close(m.forward(xa, xb), e, "default_axes", rtol=1e-12)


def psnr(c):
    from torchimage.metrics import PSNR
    shp, axes, note, a, b, xa, xb = setup(c)
    mx = c.r.choice([1, 1.0, 255, 2.5, 1023, 0.1])
    if c.r.random() < 0.2:   # the same number as a numpy scalar
        t = c.r.choice([np.uint8, np.int16, np.int64, np.float32, np.float16, np.float64])
        if float(mx) == int(mx) and (mx <= 255 or t is not np.uint8) or issubclass(t, np.floating):
            mx = t(mx)
            c.ev("numpy_max")
    lab = type(mx).__name__
    eps = c.r.choice([0.0, 0.0, 1e-3, 0.5, 10 ** c.r.uniform(-12, 2)])
    if 0 < eps < 1e-6:
        c.ev("tiny_eps")
    kw = {}
    if mx != 1 or c.r.random() < 0.5:
        kw["max_value"] = mx
    if eps or c.r.random() < 0.5:
        kw["eps"] = eps
    m = PSNR(**kw)
    mx = float(mx)
    c.note(max_value=mx, kind=lab, eps=eps)
    y = call(m, xa, xb, note)
    with np.errstate(divide="ignore"):
        e = 10 * np.log10(mx ** 2 / (((a - b) ** 2).mean(axis=tuple(axes)) + eps))
    c.close(y, e, "psnr", "psnr_eps" if eps else "psnr", rtol=1e-11, scale=100)
    c.close(call(m, xb, xa, note), y.numpy(), "symmetric", "symmetric", rtol=1e-11, scale=max(1.0, float(np.max(np.abs(e[np.isfinite(e)]), initial=0))))
    if np.isnan(a).any() or np.isnan(b).any():
        return
    z = call(m, xa, xa.clone(), note)
    want = np.full(e.shape, np.inf) if eps == 0 else np.full(e.shape, 10 * np.log10(mx ** 2 / eps))
    c.close(z, want, "identical", "identical", rtol=1e-11, scale=100)


def rejects(c):
    from torchimage.metrics import MSE, PSNR
    cls = c.r.choice([MSE, PSNR])
    shp = gen.shape(c, ndim_lo=2, hi=5)
    c.nontrivial = True
    if c.r.random() < 0.6:
        s2 = list(shp)
        k = c.r.randrange(len(s2))
        w = c.r.choice(["one", "more", "drop", "lead"])
        if w == "one":
            if s2[k] == 1:
                s2[k] = 3
            else:
                s2[k] = 1
        elif w == "more":
            s2[k] += 1
        elif w == "drop":
            s2 = s2[1:]
        else:
            s2 = [1] + s2
        c.note(cls=cls.__name__, s1=shp, s2=s2)
        p = [torch.rand(shp), torch.rand(s2)]
        c.r.shuffle(p)
        c.raises(lambda: cls().forward(*p, reduce_axes=c.r.choice([None, 0])), "shape_mismatch_accepted", "rejected_shape", s1=shp, s2=s2)
    else:
        red = c.r.choice(["average", "median", "", "MEAN ", None, "max", 0])
        c.note(cls=cls.__name__, red=red)
        c.raises(lambda: cls(reduction=red).forward(torch.rand(shp), torch.rand(shp), reduce_axes=None), "reduction_accepted", "rejected_reduction", red=red)


def large(c):
    """many elements: the reduction keeps the input's precision"""
    from torchimage.metrics import MSE, PSNR
    shp = [(70001,), (3, 151, 163), (2, 257, 255), (1100003,), (5, 1, 40009), (1 << 11, 1033)][c.index % 6]
    a = c.g.standard_normal(shp)
    b = a + c.g.standard_normal(shp) * c.r.choice([1, 0.01, 30])
    axes = gen.axes_subset(c, len(shp))
    lab, note = gen.spell_axes(c, axes, len(shp))
    red = c.r.choice(["mean", "sum", "none", "psnr"])
    c.note(shape=shp, axes=axes, spelled=lab, reduction=red, v=float(b.flat[0]))
    c.nontrivial = True
    e = (a - b) ** 2
    if red == "sum":
        e = e.sum(axis=tuple(axes))
    elif red != "none":
        e = e.mean(axis=tuple(axes))
    if red == "psnr":
        e = 10 * np.log10(6.25 / e)
    m = PSNR(max_value=2.5) if red == "psnr" else MSE(reduction=red)
    c.close(call(m, torch.from_numpy(a), torch.from_numpy(b), note), e, "large/" + red, "large_" + red, rtol=1e-11, scale=np.abs(e) + (1 if red == "psnr" else 0))


WORKLOADS = [
    Workload("large", large, 48, 480),
    Workload("mse", mse, 1500, 20000),
    Workload("psnr", psnr, 1500, 20000),
    Workload("rejects", rejects, 400, 3000),
]
