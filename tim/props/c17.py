"""C17: MS-SSIM combines per-scale contrast terms and a final SSIM as weighted."""
import numpy as np
import torch

from .. import gen
from ..core import Workload
from ..models import ssimm
from .c10 import kernel as gk
from .c16 import MODES, images, make_blur, opts_for

RULE = "a case counts when the score is compared with the definition; identity = (workload, blur, padder, weights, options, shape, axes)"
REQUIRED_EVENTS = ["levels_1", "levels_2", "levels_3", "levels_4", "levels_5", "levels_6", "levels_7", "product", "sum", "clamped_negative", "symmetric", "identical", "rejected_small", "accepted_boundary",
                   "default_weights", "reduce_subset", "odd_size", "channels_combined_last", "reduce_nothing", "zero_weight", "large_batch"]


def definition(c):
    from torchimage.metrics import MS_SSIM
    from torchimage.padding import Padder
    L = c.r.choice([1, 1, 2, 2, 3, 4])
    k = c.r.randint(1, 2)
    nd = c.r.randint(k, 4)
    if c.r.random() < 0.08:
        L, k = c.r.randint(5, 7), 1
        nd = c.r.randint(1, 2)
    axes = c.r.sample(range(nd), k)
    mk, kern, d = make_blur(c, k, 3 if L > 4 else 5)
    f = 2 ** (L - 1)
    shp = [c.r.randint(1, 3) for _ in range(nd)]
    for a, kk in zip(axes, kern):
        shp[a] = len(kk) * f + c.r.randint(1, 2 * f + 3)
    if c.r.random() < 0.012:
        i = c.r.choice(axes)
        shp[i] = max(shp[i], int(10 ** c.r.uniform(2, 5 if k == 1 else 3.3)))
        c.ev("huge_shape")
    elif k < nd and L < 4 and c.r.random() < 0.04:
        shp[c.r.choice([i for i in range(nd) if i not in axes])] = c.r.randint(9, 80)
        c.ev("large_batch")
    mode = c.r.choice([None] + MODES)
    o = opts_for(c)
    w = [round(c.r.uniform(0.05, 1.0), 3) for _ in range(L)]
    if c.r.random() < 0.15:
        w[c.r.randrange(L)] = 0.0      # a scale that does not count is still a scale
        c.ev("zero_weight")
    prod = c.r.random() < 0.6
    eps = c.r.choice([None, 1e-8, 1e-3, 0.2])
    a, b, q = images(c, tuple(shp))
    if c.r.random() < 0.25:
        b = a.max() - b * 0.7                      # negative structure somewhere
    c.note(shape=shp, axes=axes, mode=mode, L=L, w=w, prod=prod, eps=eps, images=q, **d, **o)
    c.nontrivial = True
    pad = mode if mode is None or c.r.random() < 0.5 else Padder(mode=mode)
    kw = dict(o)
    if eps is not None:
        kw["eps"] = eps
    wt = c.r.choice([list, tuple])(w)
    M = MS_SSIM(weights=wt, use_prod=prod, blur=mk(), padder=pad, **kw)
    red = c.r.choice([None, slice(1, None), tuple(axes), gen.axes_subset(c, nd)])
    if c.r.random() < 0.04:
        red = ()
        c.ev("reduce_nothing")
    if isinstance(red, slice) and nd == 1:
        red = ()
        c.ev("reduce_nothing")
    ra = list(range(nd)) if red is None else list(range(1, nd)) if isinstance(red, slice) else list(red)
    note = gen.spell_axes(c, axes, nd)[1]
    y = M.forward(torch.from_numpy(a), torch.from_numpy(b), content_axes=note, reduce_axes=red)
    e = ssimm.ms(a, b, axes, kern, mode, o["use_sample_covariance"], o["K1"], o["K2"], w, prod, 1e-8 if eps is None else eps, o["crop_border"])
    if any(v != 1 for i, v in enumerate(e.shape)) and len(ra) > len(axes):
        c.ev("channels_combined_last")
    tol = 1e-6 if prod else 1e-8
    c.close(y, e.mean(axis=tuple(ra)), "definition", "levels_%d" % L, rtol=tol, w=w, prod=prod)
    c.ev("product" if prod else "sum")
    if prod and np.any(ssimm.full_map(a, b, axes, kern, mode, True, .01, .03).mean() < 0):
        c.ev("clamped_negative")
    if len(ra) < nd:
        c.ev("reduce_subset")
    if any(shp[i] % 2 for i in axes) and L > 1:
        c.ev("odd_size")
    s = M.forward(torch.from_numpy(b), torch.from_numpy(a), content_axes=note, reduce_axes=red)
    c.close(s, y.numpy(), "symmetric", "symmetric", rtol=tol)
    i = M.forward(torch.from_numpy(a), torch.from_numpy(a.copy()), content_axes=note, reduce_axes=red)
    c.close(i, np.full(tuple(i.shape), 1.0 if prod else sum(w)), "identical", "identical", rtol=1e-7)


def defaults(c):
    """the five published weights and the 11-tap Gaussian"""
    from torchimage.metrics import MS_SSIM
    shp = (c.r.randint(1, 2), c.r.randint(1, 2), c.r.randint(177, 190), c.r.randint(177, 182))
    g = c.g.random(shp)
    # smooth structure at all scales
    yy, xx = np.meshgrid(np.linspace(0, 6, shp[2]), np.linspace(0, 5, shp[3]), indexing="ij")
    a = 0.5 + 0.3 * np.sin(yy * c.r.uniform(1, 5)) * np.cos(xx * c.r.uniform(1, 5)) + 0.2 * g
    b = a + c.r.choice([0.05, 0.3]) * c.g.standard_normal(shp)
    kern = [gk(11, 1.5, 0)] * 2
    w = (0.0448, 0.2856, 0.3001, 0.2363, 0.1333)
    c.note(shape=shp)
    c.nontrivial = True
    y = MS_SSIM().forward(torch.from_numpy(a), torch.from_numpy(b))
    e = ssimm.ms(a, b, [2, 3], kern, None, True, 0.01, 0.03, w, True, 1e-8, True)
    c.close(y, e.mean(axis=(1, 2, 3)), "defaults", "default_weights", rtol=1e-6)


def size_check(c):
    from torchimage.metrics import MS_SSIM
    from torchimage.pooling import AvgPoolNd
    L, k = c.r.randint(1, 4), c.r.randint(2, 5)
    f = 2 ** (L - 1)
    M = MS_SSIM(weights=[0.5] * L, blur=AvgPoolNd(k), padder=c.r.choice([None, "reflect"]))
    shp = [1, 1, k * f + 1, k * f + 1]
    c.note(L=L, k=k)
    c.nontrivial = True
    y = M.forward(torch.rand(shp, dtype=torch.float64), torch.rand(shp, dtype=torch.float64))
    c.ev("accepted_boundary")
    c.check(bool(torch.isfinite(y).all()), "boundary_not_finite")
    small = c.r.randint(1, k * f - 1) if k * f > 1 else 1
    bad = list(shp)
    bad[c.r.choice([2, 3])] = small
    if small // f < k:
        c.raises(lambda: M.forward(torch.rand(bad), torch.rand(bad)), "too_small_accepted", "rejected_small", shape=bad, L=L, k=k)
    c.raises(lambda: M.forward(torch.rand(shp), torch.rand([1, 1, shp[2], shp[3] + 1])), "mismatch_accepted", "rejected_mismatch")


WORKLOADS = [
    Workload("definition", definition, 900, 12000),
    Workload("defaults", defaults, 12, 120),
    Workload("size_check", size_check, 120, 800),
]
