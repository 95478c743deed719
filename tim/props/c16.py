"""C16: SSIM matches its windowed definition, is symmetric, bounded and crops borders."""
import numpy as np
import torch

from .. import gen
from ..core import Workload
from ..models import ssimm
from .c10 import kernel as gk

RULE = "a case counts when windows hold more than one pixel; identity = (workload, blur, padder, options, shape, axes, image regime)"
REQUIRED_EVENTS = ["full_map", "score", "cropped", "uncropped_padded", "no_padder", "default_gaussian", "default_mean", "symmetric", "bounded", "identical",
                   "sample_cov", "population_cov", "per_axis_kernel", "even_kernel", "crop_equals_valid", "reduce_subset", "unordered_axes", "two_sizes_one_object", "reduce_nothing", "four_content_axes", "other_units", "missing_pixels", "vanishing_constant", "large_batch", "wide_window"]
MODES = ["replicate", "circular", "symmetric", "reflect", "zeros"]


def images(c, shp, wide=False):
    q = c.r.choice(["close", "independent", "scaled", "negative", "flat", "bright"])
    a = c.g.random(shp)
    b = {"close": lambda: a + 0.05 * c.g.standard_normal(shp), "independent": lambda: c.g.random(shp), "scaled": lambda: 0.6 * a + 0.1,
         "negative": lambda: 1 - a, "flat": lambda: np.full(shp, a.mean()), "bright": lambda: a * 4 + 1}[q]()
    if wide and c.r.random() < 0.25:
        # 8-bit, 10-bit and 16-bit units, dark images, a common offset below zero
        s, o = c.r.choice([(255, 0), (1023, 0), (300, 40), (1000, -500), (65535, 0), (1e-3, 0), (1, -3)])
        a, b, q = a * s + o, b * s + o, q + "_units"
        c.ev("other_units")
    if not wide and c.r.random() < 0.1:
        a, b = a - 3, b - 3
    return a, b, q


def make_blur(c, n, hi=5):
    """-> (blur argument, kernels per axis, label)"""
    from torchimage.pooling import AvgPoolNd, GaussianPoolNd, SeparablePoolNd
    q = c.r.random()
    per = c.r.random() < 0.4
    ks = [c.r.randint(1, hi) for _ in range(n)] if per else [c.r.randint(2, hi)] * n
    if int(np.prod(ks)) == 1:
        ks = [k + 1 for k in ks]
    if per:
        c.ev("per_axis_kernel")
    if any(k % 2 == 0 for k in ks):
        c.ev("even_kernel")
    arg = ks if per else ks[0]
    st = c.r.choice([None, 1, 2])
    if q < 0.4:
        s = round(c.r.uniform(0.6, 2), 2)
        return (lambda: GaussianPoolNd(arg, s, 0, st)), [gk(k, s, 0) for k in ks], dict(blur="gauss", ks=ks, sigma=s)
    if q < 0.8:
        return (lambda: AvgPoolNd(arg, st)), [np.full(k, 1.0 / k) for k in ks], dict(blur="avg", ks=ks)
    kern = [np.array([c.r.uniform(0.1, 1) for _ in range(k)]) for k in ks]
    if not per:
        kern = [kern[0]] * n
    kern = [k / k.sum() for k in kern]
    a2 = [k.tolist() for k in kern] if per else kern[0].tolist()
    return (lambda: SeparablePoolNd(a2, st)), kern, dict(blur="sep", ks=ks)


def judge(c, S, kern, axes, nd, shp, mode, opts, note=None, tag=""):
    a, b, q = images(c, shp, True)
    xa, xb = torch.from_numpy(a), torch.from_numpy(b)
    note = axes if note is None else note
    red = c.r.choice([None, slice(None), tuple(axes), gen.axes_subset(c, nd)])
    if c.r.random() < 0.05:
        red = c.r.choice([(), []])
        c.ev("reduce_nothing")
    ra = list(range(nd)) if red is None or isinstance(red, slice) else list(red)
    score, full = S.forward(xa, xb, content_axes=note, reduce_axes=red, full=True)
    e = ssimm.full_map(a, b, axes, kern, mode, opts["use_sample_covariance"], opts["K1"], opts["K2"])
    tol = 1e-9 * (1 + (max(np.abs(a).max(), np.abs(b).max()) + 1) ** 2 / opts["K2"] ** 2 * 1e-5)
    c.note(images=q, reduce=ra)
    c.close(full, e, "full_map" + tag, "full_map", rtol=tol, **opts)
    ec = ssimm.crop(e, axes, kern, mode, opts["crop_border"]).mean(axis=tuple(ra))
    c.close(score, ec, "score" + tag, "score", rtol=tol, **opts)
    if len(ra) < nd:
        c.ev("reduce_subset")
    if mode is None:
        c.ev("no_padder")
    else:
        c.ev("cropped" if opts["crop_border"] else "uncropped_padded")
    c.ev("sample_cov" if opts["use_sample_covariance"] else "population_cov")
    s2 = S.forward(xb, xa, content_axes=note, reduce_axes=red)
    c.close(s2, score.numpy(), "symmetric" + tag, "symmetric", rtol=tol)
    if all((np.asarray(k) >= 0).all() for k in kern):
        c.ev("bounded")
        c.check(bool((full <= 1 + 1e-7 + tol).all()), "bounded" + tag, got=float(full.max()))
    s3, f3 = S.forward(xb, xb.clone(), content_axes=note, reduce_axes=red, full=True)
    c.close(f3, np.ones(e.shape), "identical" + tag, "identical", rtol=tol)
    return a, b, red, tol


def opts_for(c):
    o = dict(K1=c.r.choice([0.01, 0.05, 0.2]), K2=c.r.choice([0.03, 0.1, 0.5]), use_sample_covariance=c.r.random() < 0.5, crop_border=c.r.random() < 0.5)
    return o


def windowed(c):
    from torchimage.metrics import SSIM
    from torchimage.padding import Padder
    nd = c.r.randint(1, 4)
    k = c.r.randint(1, min(nd, 3))
    many = c.r.random() < 0.06
    if many:
        nd = c.r.randint(4, 5)
        k = c.r.randint(4, nd)
    axes = c.r.sample(range(nd), k)
    if axes != sorted(axes):
        c.ev("unordered_axes")
    wide = 0
    if not many and c.r.random() < 0.03:
        wide = 30 if k == 1 else 14 if k == 2 else 8
        c.ev("wide_window")
    mk, kern, d = make_blur(c, k, wide or (3 if many else 5))
    shp = tuple(c.r.randint(6, 9) if i in axes and not many else c.r.randint(3, 4) if i in axes else c.r.randint(1, 2) for i in range(nd))
    if wide:
        shp = tuple(v + wide if i in axes else v for i, v in enumerate(shp))
    elif not many and k < nd and c.r.random() < 0.04:
        i = c.r.choice([i for i in range(nd) if i not in axes])
        shp = tuple(c.r.randint(9, 50) if j == i else v for j, v in enumerate(shp))
        c.ev("large_batch")
    elif not many and c.r.random() < 0.01:
        n = 10 ** c.r.uniform(2.5, 5.3)
        cut = sorted([c.r.random() for _ in range(k - 1)] + [0.0, 1.0])
        big = iter([max(6, int(n ** (q - p))) for p, q in zip(cut, cut[1:])])
        shp = tuple(next(big) if i in axes else c.r.randint(1, 2) for i in range(nd))
        c.ev("huge_shape")
    if many:
        c.ev("four_content_axes")
    mode = c.r.choice([None] + MODES)
    o = opts_for(c)
    c.note(shape=shp, axes=axes, mode=mode, **d, **o)
    c.nontrivial = True
    pad = mode if mode is None or c.r.random() < 0.5 else Padder(mode=mode)
    S = SSIM(mk(), padder=pad, **o)
    a, b, red, tol = judge(c, S, kern, axes, nd, shp, mode, o, gen.spell_axes(c, axes, nd)[1])
    if mode is not None and o["crop_border"]:
        v = SSIM(mk(), padder=None, **o).forward(torch.from_numpy(a), torch.from_numpy(b), content_axes=axes, reduce_axes=red)
        s = S.forward(torch.from_numpy(a), torch.from_numpy(b), content_axes=axes, reduce_axes=red)
        c.close(s, v.numpy(), "crop_equals_valid", "crop_equals_valid", rtol=max(1e-8, tol))
    if c.r.random() < 0.4:
        shp2 = tuple(v + c.r.randint(0, 3) if i in axes else v for i, v in enumerate(shp))
        judge(c, S, kern, axes, nd, shp2, mode, o, tag="/second")
        c.ev("two_sizes_one_object")


def missing(c):
    """a similarity is undefined exactly where its window holds an undefined pixel"""
    from torchimage.metrics import SSIM
    nd = c.r.randint(1, 4)
    axes = c.r.sample(range(nd), c.r.randint(1, min(nd, 2)))
    mk, kern, d = make_blur(c, len(axes), 4)
    shp = tuple(c.r.randint(6, 12) if i in axes else c.r.randint(1, 3) for i in range(nd))
    mode = c.r.choice([None] + MODES)
    o = opts_for(c)
    zero = c.r.choice([None, None, "K1", "K2"])
    if zero == "K2":    # repeated samples in the padding make flat windows, 0 / 0
        mode = None
    if zero:
        o[zero] = 0 if c.r.random() < 0.5 else 0.0
        c.ev("vanishing_constant")
    a, b = c.g.random(shp) + 0.1, c.g.random(shp) + 0.1
    xa, xb, ind = torch.from_numpy(a.copy()), torch.from_numpy(b.copy()), np.zeros(shp)
    for _ in range(c.r.randint(1, 3)):
        p = tuple(c.r.randrange(v) for v in shp)
        ind[p] = 1
        for x in c.r.choice([[xa], [xb], [xa, xb]]):
            x[p] = c.r.choice([np.nan, np.nan, np.inf, -np.inf])
    red = c.r.choice([None, tuple(axes), gen.axes_subset(c, nd)])
    ra = list(range(nd)) if red is None else list(red)
    c.note(shape=shp, axes=axes, mode=mode, reduce=ra, **d, **o)
    c.nontrivial = True
    score, full = SSIM(mk(), padder=mode, **o).forward(xa, xb, content_axes=axes, reduce_axes=red, full=True)
    with np.errstate(all="ignore"):
        e = ssimm.full_map(a, b, axes, kern, mode, o["use_sample_covariance"], o["K1"], o["K2"])
    e[ssimm.blur(ind, axes, kern, mode) > 0] = np.nan
    ec = ssimm.crop(e, axes, kern, mode, o["crop_border"]).mean(axis=tuple(ra))
    c.ev("missing_pixels")
    if o["K2"] == 0:    # windows of nearly equal pixels are ill-conditioned
        c.check(np.array_equal(np.isnan(full.numpy()), np.isnan(e)), "missing_pixels/where", **o)
        c.check(np.array_equal(np.isnan(score.numpy()), np.isnan(ec)), "missing_pixels/score_where", **o)
    else:
        c.close(full, e, "missing_pixels/full_map", rtol=1e-8, **o)
        c.close(score, ec, "missing_pixels/score", rtol=1e-8, **o)


def defaults(c):
    """the built-in blurs, default axes and options"""
    from torchimage.metrics import SSIM
    q = c.r.choice(["gaussian", "mean", None])
    mode = c.r.choice([None, "reflect", "symmetric"])
    kw = {} if q is None else {"blur": q}
    if mode is not None:
        kw["padder"] = mode
    o = dict(K1=0.01, K2=0.03, use_sample_covariance=True, crop_border=True)
    S = SSIM(**kw)
    kern = [np.full(11, 1 / 11) if q == "mean" else gk(11, 1.5, 0)] * 2
    shp = (c.r.randint(1, 2), c.r.randint(1, 3), c.r.randint(12, 18), c.r.randint(12, 18))
    a, b, im = images(c, shp)
    c.note(shape=shp, blur=q, mode=mode, images=im)
    c.nontrivial = True
    y = S.forward(torch.from_numpy(a), torch.from_numpy(b))
    e = ssimm.crop(ssimm.full_map(a, b, [2, 3], kern, mode, True, 0.01, 0.03), [2, 3], kern, mode, True).mean(axis=(1, 2, 3))
    c.close(y, e, "defaults", "default_mean" if q == "mean" else "default_gaussian", rtol=1e-6)


WORKLOADS = [
    Workload("windowed", windowed, 1200, 15000),
    Workload("missing", missing, 300, 6000),
    Workload("defaults", defaults, 120, 1500),
]
