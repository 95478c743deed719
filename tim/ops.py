"""A catalogue of random library calls, shared by the cross-cutting monitors
(uninitialised memory, gradients, history, batching, device/dtype, argument writes).

Each maker returns an ``Op``; ``op.build(dtype, device)`` makes a fresh library
object and ``op.call(obj, tensors, axes)`` runs it on tensors of the given names
and returns a list of tensors.
"""
import copy

import numpy as np
import torch

from . import gen, padcase
from .models import padm

SMOOTH_PADS = ["replicate", "circular", "symmetric", "reflect", "zeros", "constant", "smooth", "odd_reflect",
               "odd_symmetric", "antisymmetric", "linear_ramp", "mean", "maximum", "minimum", "median"]
SA = ["RGGB", "BGGR", "GRBG", "GBRG", "rggb", "gbrg"]


class Op:
    def __init__(self, name, arrays, build, call, axes=None, diff=None, extras=(), shape_kind="same_ndim", desc=None,
                 seeded=False, positive=False, linear=False, fakeable=True):
        self.name, self.arrays, self._build, self._call = name, arrays, build, call
        self.axes = axes                    # content axes (non-negative, ordered) or None
        self.diff = list(arrays) if diff is None else diff
        self.extras = list(extras)          # non-tensor arguments handed to the library
        self.shape_kind = shape_kind
        self.desc = desc or {}
        self.seeded = seeded
        self.positive = positive
        self.linear = linear
        self.fakeable = fakeable

    def build(self, dtype=torch.float64, device="cpu"):
        return self._build(dtype, device)

    def call(self, obj, t, axes="default"):
        r = self._call(obj, t, self.axes if isinstance(axes, str) else axes)
        return list(r) if isinstance(r, (list, tuple)) else [r]

    def tensors(self, dtype=torch.float64, device="cpu", grad=False):
        out = {}
        for k, a in self.arrays.items():
            t = torch.tensor(a, dtype=dtype, device=device)
            if grad and k in self.diff:
                t.requires_grad_(True)
            out[k] = t
        return out


def _kernel(c, lo=1, hi=5, empty=0.0):
    if c.r.random() < empty:
        return []
    return [round(c.r.uniform(-2, 2), 3) for _ in range(c.r.randint(lo, hi))]


def _padspec(c, allow_none=True):
    """a same_padder argument: returns (maker, label)"""
    from torchimage.padding import Padder
    if allow_none and c.r.random() < 0.25:
        return (lambda: None), None
    m = c.r.choice(SMOOTH_PADS)
    if c.r.random() < 0.5:
        return (lambda: m), m
    kw = dict(mode=m)
    if m == "constant":
        kw["constant_values"] = (round(c.r.uniform(-3, 3), 2), round(c.r.uniform(-3, 3), 2))
    elif m == "linear_ramp":
        kw["end_values"] = (round(c.r.uniform(-3, 3), 2), round(c.r.uniform(-3, 3), 2))
    elif m in padm.STAT_MODES:
        kw["stat_length"] = (c.r.choice([None, 1, 2, 3]), c.r.choice([None, 1, 2, 3]))
    return (lambda: Padder(**kw)), {k: list(v) if isinstance(v, tuple) else v for k, v in kw.items()}


def _shape(c, shape, lo=5, hi=9, nd=None):
    if shape is not None:
        return tuple(shape)
    if nd is None and hi < 12 and c.r.random() < 0.2:      # volumes: three content dimensions
        v = tuple(c.r.randint(lo, max(lo, hi - 3)) for _ in range(3))
        return v if c.r.random() < 0.6 else (2,) + v
    nd = nd or c.r.choice([2, 3, 4, 4])
    return tuple(c.r.randint(1, 3) if i < nd - 2 else c.r.randint(lo, hi) for i in range(nd))


def _axes(c, shape, axes, kmin=1, lo=5):
    if axes is not None:
        return list(axes)
    cand = [i for i, v in enumerate(shape) if v >= lo]
    k = c.r.randint(min(kmin, len(cand)), len(cand))
    a = c.r.sample(cand, k)
    return a if c.r.random() < 0.4 else sorted(a)


def _wide(c, shape, axes):
    """now and then one long axis and a kernel size of dozens of taps: (shape, size) or None"""
    if shape is not None or axes is not None or c.r.random() > 0.03:
        return None
    n = c.r.randint(40, 70)
    s = [n, c.r.randint(5, 6)]
    c.r.shuffle(s)
    c.ev("wide_kernel")
    return tuple(s), [s.index(n)], c.r.randint(33, min(n, 60))


# ---- padding -------------------------------------------------------------
def pad(c, shape=None, axes=None):
    shape = _shape(c, shape, lo=1)
    p = padcase.make(c, shape, padm.ALL_MODES, axes=axes)
    return Op("Padder", {"x": gen.values(c, shape)}, lambda d, dev: padcase.build(p), lambda o, t, ax: o.forward(t["x"], axes=ax),
              axes=p["axes"], extras=list(p["kwargs"].values()), desc=padcase.describe(p))


def pad_axis(c, shape=None, axes=None):
    shape = _shape(c, shape, lo=1)
    ax = _axes(c, shape, axes, lo=1)[:1]
    p = padcase.make(c, shape, padm.ALL_MODES, axes=ax)
    return Op("Padder.pad_axis", {"x": gen.values(c, shape)}, lambda d, dev: padcase.build(p),
              lambda o, t, a: o.pad_axis(t["x"], -1, a[0]), axes=ax, desc=padcase.describe(p))


# ---- pooling -------------------------------------------------------------
def _per_axis(c, k, f):
    """either one item for all axes or one per axis"""
    if c.r.random() < 0.5:
        return f()
    return [f() for _ in range(k)]


def separable(c, shape=None, axes=None):
    from torchimage.pooling import SeparablePoolNd
    wide = _wide(c, shape, axes)
    shape, axes = wide[:2] if wide else (shape, axes)
    shape = _shape(c, shape)
    ax = _axes(c, shape, axes)
    kern = _kernel(c, wide[2], wide[2]) if wide else _kernel(c) if c.r.random() < 0.4 else [_kernel(c, empty=0.1) for _ in ax]
    if kern and isinstance(kern[0], list) and len(set(map(len, kern))) == 1 and c.r.random() < 0.3:
        kern = np.array(kern)
    stride = c.r.choice([None, 1, 2, [c.r.randint(1, 3) for _ in ax]])
    mk, lab = _padspec(c)
    return Op("SeparablePoolNd", {"x": gen.values(c, shape)}, lambda d, dev: SeparablePoolNd(kern, stride, same_padder=mk()),
              lambda o, t, a: o.forward(t["x"], axes=a), axes=ax, extras=[kern, stride],
              desc=dict(shape=shape, axes=ax, kernel=kern if isinstance(kern, list) else kern.tolist(), stride=stride, padder=lab))


def avg(c, shape=None, axes=None):
    from torchimage.pooling import AvgPoolNd
    wide = _wide(c, shape, axes)
    shape, axes = wide[:2] if wide else (shape, axes)
    shape = _shape(c, shape)
    ax = _axes(c, shape, axes)
    ks = wide[2] if wide else _per_axis(c, len(ax), lambda: c.r.randint(1, 4))
    stride = c.r.choice([None, 1, 2, [c.r.randint(1, 3) for _ in ax]])
    cip = c.r.random() < 0.5
    mk, lab = _padspec(c)
    if not cip and lab is not None:
        mk, lab = (lambda: "zeros"), "zeros"
    return Op("AvgPoolNd", {"x": gen.values(c, shape)}, lambda d, dev: AvgPoolNd(ks, stride, count_include_pad=cip, same_padder=mk()),
              lambda o, t, a: o.forward(t["x"], axes=a), axes=ax, extras=[ks, stride],
              desc=dict(shape=shape, axes=ax, ks=ks, stride=stride, padder=lab, count_include_pad=cip))


def gauss(c, shape=None, axes=None):
    from torchimage.pooling import GaussianPoolNd
    wide = _wide(c, shape, axes)
    shape, axes = wide[:2] if wide else (shape, axes)
    shape = _shape(c, shape)
    ax = _axes(c, shape, axes)
    ks = wide[2] if wide else _per_axis(c, len(ax), lambda: c.r.randint(1, 4))
    sg = _per_axis(c, len(ax), lambda: round(c.r.uniform(0.5, 2.5), 2))
    od = _per_axis(c, len(ax), lambda: c.r.choice([0, 0, 1, 2]))
    stride = c.r.choice([None, 1, 2])
    mk, lab = _padspec(c)
    return Op("GaussianPoolNd", {"x": gen.values(c, shape)}, lambda d, dev: GaussianPoolNd(ks, sg, od, stride, same_padder=mk()),
              lambda o, t, a: o.forward(t["x"], axes=a), axes=ax, extras=[ks, sg, od],
              desc=dict(shape=shape, axes=ax, ks=ks, sigma=sg, order=od, stride=stride, padder=lab))


def to_filter(c, shape=None, axes=None):
    from torchimage.pooling import SeparablePoolNd, AvgPoolNd, GaussianPoolNd
    shape = _shape(c, shape)
    ax = _axes(c, shape, axes)
    mk, lab = _padspec(c)
    kind = c.r.choice(["sep", "avg", "gauss"])
    kern = _kernel(c, lo=2)
    ks = c.r.randint(2, 4)

    def build(d, dev):
        m = SeparablePoolNd(kern) if kind == "sep" else AvgPoolNd(ks) if kind == "avg" else GaussianPoolNd(ks, 1.1)
        return m.to_filter(mk())
    return Op("to_filter", {"x": gen.values(c, shape)}, build, lambda o, t, a: o.forward(t["x"], axes=a), axes=ax,
              extras=[kern], desc=dict(shape=shape, axes=ax, kind=kind, ks=ks, kern=kern, padder=lab))


def conv1d(c, shape=None, axes=None):
    from torchimage.pooling.operator import any_conv_1d
    shape = _shape(c, shape)
    ax = _axes(c, shape, axes)[:1]
    w = np.array(_kernel(c, hi=2))
    s, dl = c.r.randint(1, 3), c.r.randint(1, 2)
    return Op("any_conv_1d", {"x": gen.values(c, shape), "w": w}, lambda d, dev: None,
              lambda o, t, a: any_conv_1d(t["x"], t["w"], dim=a[0], stride=s, dilation=dl), axes=ax,
              desc=dict(shape=shape, axes=ax, k=len(w), stride=s, dilation=dl))


# ---- filtering -----------------------------------------------------------
def _edge(c, n_smooth=0):
    """n_smooth > 0: the smoothing kernels may be given per smooth axis"""
    from torchimage.filtering import Sobel, Prewitt, Scharr, Farid, GaussianGrad, EdgeFilter
    mk, lab = _padspec(c, allow_none=False)
    nrm = c.r.random() < 0.5
    k = c.r.choice(["Sobel", "Prewitt", "Scharr", "Farid", "GaussianGrad", "custom", "custom", "laplace"])
    if k == "GaussianGrad":
        ks, sg, eo = c.r.choice([3, 5, 4]), round(c.r.uniform(0.6, 1.8), 2), c.r.choice([1, 2])
        return (lambda: GaussianGrad(ks, sg, edge_order=eo, same_padder=mk())), dict(f=k, ks=ks, sigma=sg, order=eo, padder=lab)
    if k in ("custom", "laplace"):
        ek = [1, -2, 1] if k == "laplace" else _kernel(c, lo=2)
        sk = [abs(v) + 0.1 for v in _kernel(c, lo=1, hi=4)]
        if n_smooth and c.r.random() < 0.6:
            sk = [[abs(v) + 0.1 for v in _kernel(c, lo=1, hi=4)] for _ in range(n_smooth)]
        return (lambda: EdgeFilter(ek, sk, normalize=nrm, same_padder=mk())), dict(f=k, edge=ek, smooth=sk, normalize=nrm, padder=lab)
    cls = dict(Sobel=Sobel, Prewitt=Prewitt, Scharr=Scharr, Farid=Farid)[k]
    return (lambda: cls(normalize=nrm, same_padder=mk())), dict(f=k, normalize=nrm, padder=lab)


def edge_component(c, shape=None, axes=None):
    shape = _shape(c, shape)
    ax = _axes(c, shape, axes)
    mk, d = _edge(c, len(ax) - 1)
    j = c.r.choice([None, c.r.randint(0, len(ax) - 1)]) if len(ax) > 1 else None   # the edge axis among the smooth axes is ignored

    def smooth(a):
        s = list(a[1:])
        if j is not None:
            s.insert(j, a[0])
        return s
    return Op("EdgeFilter.component", {"x": gen.values(c, shape)}, lambda dt, dev: mk(),
              lambda o, t, a: o.component(t["x"], edge_axis=a[0], smooth_axes=smooth(a)), axes=ax, desc=dict(shape=shape, axes=ax, edge_at=j, **d))


def edge_all(c, shape=None, axes=None):
    shape = _shape(c, shape)
    ax = _axes(c, shape, axes, kmin=2)
    mk, d = _edge(c, len(ax) - 1)
    return Op("EdgeFilter.all_components", {"x": gen.values(c, shape)}, lambda dt, dev: mk(),
              lambda o, t, a: o.all_components(t["x"], axes=a), axes=ax, desc=dict(shape=shape, axes=ax, **d))


def edge_hv(c, shape=None, axes=None):
    shape = _shape(c, shape)
    mk, d = _edge(c)
    return Op("EdgeFilter.horizontal/vertical", {"x": gen.values(c, shape)}, lambda dt, dev: mk(),
              lambda o, t, a: [o.horizontal(t["x"]), o.vertical(t["x"])], desc=dict(shape=shape, **d))


def edge_magnitude(c, shape=None, axes=None):
    shape = _shape(c, shape)
    ax = _axes(c, shape, axes, kmin=2)
    mk, d = _edge(c, len(ax) - 1)
    p = c.r.choice([1, 2, 2])
    eps = c.r.choice([0.0, 0.1, 1.0]) if p == 1 else c.r.choice([0.1, 1.0])
    return Op("EdgeFilter.magnitude", {"x": gen.values(c, shape)}, lambda dt, dev: mk(),
              lambda o, t, a: o.magnitude(t["x"], axes=a, epsilon=eps, p=p), axes=ax, desc=dict(shape=shape, axes=ax, p=p, eps=eps, **d))


def laplace(c, shape=None, axes=None):
    from torchimage.filtering import Laplace, LaplacianOfGaussian
    shape = _shape(c, shape)
    ax = _axes(c, shape, axes, kmin=2)
    mk, lab = _padspec(c, allow_none=False)
    if c.r.random() < 0.5:
        return Op("Laplace", {"x": gen.values(c, shape)}, lambda d, dev: Laplace(same_padder=mk()),
                  lambda o, t, a: o.forward(t["x"], axes=a), axes=ax, desc=dict(shape=shape, axes=ax, padder=lab))
    ks, sg = c.r.choice([3, 5]), round(c.r.uniform(0.5, 1.5), 2)
    return Op("LaplacianOfGaussian", {"x": gen.values(c, shape)}, lambda d, dev: LaplacianOfGaussian(ks, sg, same_padder=mk()),
              lambda o, t, a: o.forward(t["x"], axes=a), axes=ax, desc=dict(shape=shape, axes=ax, ks=ks, sigma=sg, padder=lab))


def unsharp(c, shape=None, axes=None):
    from torchimage.filtering import UnsharpMask
    from torchimage.pooling import GaussianPoolNd, AvgPoolNd
    shape = _shape(c, shape)
    ax = _axes(c, shape, axes)
    mk, lab = _padspec(c, allow_none=False)
    ks = c.r.randint(2, 4)
    am = c.r.choice([0, 0.5, 1.5, -1])
    th = c.r.choice([0, 0, 0.3])
    g = c.r.random() < 0.5
    return Op("UnsharpMask", {"x": gen.values(c, shape)},
              lambda d, dev: UnsharpMask(GaussianPoolNd(ks, 1.3) if g else AvgPoolNd(ks), amount=am, threshold=th, padder=mk()),
              lambda o, t, a: o.forward(t["x"], axes=a), axes=ax, desc=dict(shape=shape, axes=ax, ks=ks, amount=am, threshold=th, gauss=g, padder=lab))


# ---- metrics -------------------------------------------------------------
def _pair(c, shape):
    a = c.g.random(shape)
    return {"a": a, "b": np.clip(a + 0.2 * c.g.standard_normal(shape), 0, 1.2)}


def mse(c, shape=None, axes=None):
    from torchimage.metrics import MSE, PSNR
    shape = _shape(c, shape, lo=2)
    ax = _axes(c, shape, axes, lo=1)
    red = c.r.choice(["mean", "sum", "none"])
    if c.r.random() < 0.5:
        mv, eps = c.r.choice([1, 255, 2.5]), c.r.choice([0.0, 1e-3])
        return Op("PSNR", _pair(c, shape), lambda d, dev: PSNR(mv, eps, reduction="mean"), lambda o, t, a: o.forward(t["a"], t["b"], reduce_axes=a),
                  axes=ax, shape_kind="reduced", desc=dict(shape=shape, axes=ax, max=mv, eps=eps))
    return Op("MSE", _pair(c, shape), lambda d, dev: MSE(reduction=red), lambda o, t, a: o.forward(t["a"], t["b"], reduce_axes=a),
              axes=ax, shape_kind="reduced" if red != "none" else "same_ndim", desc=dict(shape=shape, axes=ax, red=red))


def ssim(c, shape=None, axes=None):
    from torchimage.metrics import SSIM
    from torchimage.pooling import GaussianPoolNd, AvgPoolNd
    shape = _shape(c, shape, lo=6, hi=10)
    ax = _axes(c, shape, axes, lo=4)
    ks = _per_axis(c, len(ax), lambda: c.r.randint(2, 4))
    g = c.r.random() < 0.5
    kw = dict(K1=0.01, K2=c.r.choice([0.03, 0.1]), use_sample_covariance=c.r.random() < 0.5, crop_border=c.r.random() < 0.5)
    mk, lab = _padspec(c)
    return Op("SSIM", _pair(c, shape), lambda d, dev: SSIM(GaussianPoolNd(ks, 1.2) if g else AvgPoolNd(ks), padder=mk(), **kw),
              lambda o, t, a: o.forward(t["a"], t["b"], content_axes=a, reduce_axes=a, full=True), axes=ax, shape_kind="ssim",
              desc=dict(shape=shape, axes=ax, ks=ks, gauss=g, padder=lab, **kw))


def ms_ssim(c, shape=None, axes=None):
    from torchimage.metrics import MS_SSIM
    from torchimage.pooling import GaussianPoolNd, AvgPoolNd
    shape = _shape(c, shape, lo=14, hi=18, nd=c.r.choice([2, 3, 4]))
    ax = _axes(c, shape, axes, lo=14)
    ks = c.r.randint(2, 3)
    w = [round(c.r.uniform(0.1, 0.9), 2) for _ in range(c.r.randint(1, 3))]
    g = c.r.random() < 0.5
    kw = dict(use_prod=c.r.random() < 0.5, use_sample_covariance=c.r.random() < 0.5, crop_border=c.r.random() < 0.5)
    mk, lab = _padspec(c)
    return Op("MS_SSIM", _pair(c, shape), lambda d, dev: MS_SSIM(weights=w, blur=GaussianPoolNd(ks, 1.2) if g else AvgPoolNd(ks), padder=mk(), **kw),
              lambda o, t, a: o.forward(t["a"], t["b"], content_axes=a, reduce_axes=a), axes=ax, shape_kind="reduced", extras=[w],
              desc=dict(shape=shape, axes=ax, ks=ks, w=w, gauss=g, padder=lab, **kw))


# ---- colour filter arrays ---------------------------------------------------
def _bshape(c, ch, lead=None, even=True):
    lead = gen.many(c, tuple(c.r.randint(1, 3) for _ in range(c.r.choice([0, 1, 1, 2])))) if lead is None else tuple(lead)
    f = 2 if even else 1
    return lead + (ch, f * c.r.randint(2, 4), f * c.r.randint(2, 4))


def cfa(c, lead=None):
    from torchimage.cfa import utils as U
    k = c.r.choice(["rgb1", "rgb4", "1to4", "4to1", "down1", "down4"])
    sa = c.r.choice(SA)
    ch = {"rgb1": 3, "rgb4": 3, "1to4": 1, "4to1": 4, "down1": 1, "down4": 4}[k]
    shape = _bshape(c, ch, lead)
    f = {"rgb1": lambda o, t, a: U.rgb_to_1c_bayer(t["x"], sa), "rgb4": lambda o, t, a: U.rgb_to_4c_bayer(t["x"], sa),
         "1to4": lambda o, t, a: U.bayer_1c_to_4c(t["x"]), "4to1": lambda o, t, a: U.bayer_4c_to_1c(t["x"]),
         "down1": lambda o, t, a: U.downsample_1c_bayer_to_rgb(t["x"], sa), "down4": lambda o, t, a: U.downsample_4c_bayer_to_rgb(t["x"], sa)}[k]
    return Op("cfa." + k, {"x": gen.values(c, shape)}, lambda d, dev: None, f, shape_kind="chw", desc=dict(shape=shape, kind=k, sa=sa))


def bayer_conv(c, lead=None):
    from torchimage.cfa.bayer_conv import BayerConv2d
    cin, cout, ks = c.r.randint(1, 2), c.r.randint(1, 3), c.r.choice([3, 5])
    lead = lead if lead is not None else gen.many(c, c.r.choice([(), (1,), (2,), (2, 2), (1, 2, 1)]))
    shape = tuple(lead) + (cin, 2 * c.r.randint(2, 4), 2 * c.r.randint(2, 4))
    sa, bias, un = c.r.choice(SA), c.r.random() < 0.5, c.r.random() < 0.4
    seed = c.r.randrange(1 << 30)
    train, zero = c.r.random() < 0.5, [s for s in ("R", "B", "GR", "GB") if c.r.random() < 0.1]

    def build(d, dev):
        st = torch.random.get_rng_state()
        torch.manual_seed(seed)
        m = BayerConv2d(cin, cout, ks, bias)
        torch.random.set_rng_state(st)
        with torch.no_grad():
            for s in zero:      # a filter without taps still has outputs: its bias, or zeros
                m.conv_dict[s].weight.zero_()
        return m.train(train).to(dtype=d, device=dev)
    return Op("BayerConv2d" + (".unshuffle" if un else ""), {"x": gen.values(c, shape)}, build,
              lambda o, t, a: o.forward_unshuffle(t["x"], sa) if un else o.forward(t["x"], sa), shape_kind="chw",
              desc=dict(shape=shape, out=cout, ks=ks, sa=sa, bias=bias, train=train, zero=zero))


def demosaic(c, lead=None):
    from torchimage.cfa.bayer_conv import demosaic as dem
    lead = lead if lead is not None else gen.many(c, c.r.choice([(), (1,), (2,), (2, 2), (1, 2, 1)]))
    shape = tuple(lead) + (1, 2 * c.r.randint(2, 5), 2 * c.r.randint(2, 5))
    sa, clamp = c.r.choice(SA), c.r.choice([1.0, 255.0, 1e6])
    return Op("demosaic", {"x": c.g.random(shape) * 0.9 + 0.05}, lambda d, dev: copy.deepcopy(dem).to(dtype=d, device=dev),
              lambda o, t, a: o(t["x"], sa, clamp=clamp), shape_kind="chw", desc=dict(shape=shape, sa=sa, clamp=clamp))


def last_step(c, lead=None):
    from torchimage.cfa.bayer_conv import last_step_demosaic
    s = _bshape(c, 1, lead)
    sa = c.r.choice(SA)
    return Op("last_step_demosaic", {"x": gen.values(c, s), "y": gen.values(c, s[:-3] + (2,) + s[-2:])}, lambda d, dev: None,
              lambda o, t, a: last_step_demosaic(t["x"], t["y"], sa), shape_kind="chw", desc=dict(shape=s, sa=sa))


# ---- misc ------------------------------------------------------------------
def poly(c, shape=None):
    from torchimage.misc import poly1d
    shape = shape or gen.shape(c, hi=4)
    p = [round(c.r.uniform(-3, 3), 2) for _ in range(c.r.choice([1, 2, 3, 4, 5, 5, 6, 7]))]
    kind = c.r.choice(["list", "tuple", "array"])
    pp = p if kind == "list" else tuple(p) if kind == "tuple" else np.array(p)
    return Op("poly1d", {"x": c.g.standard_normal(shape)}, lambda d, dev: None, lambda o, t, a: poly1d(t["x"], pp), extras=[pp],
              shape_kind="elementwise", desc=dict(shape=shape, p=p, kind=kind))


def outer(c):
    from torchimage.misc import outer as f
    s1, s2 = gen.shape(c, hi=3, ndim_hi=2), gen.shape(c, hi=3, ndim_hi=2)
    return Op("outer", {"u": gen.values(c, s1), "v": gen.values(c, s2)}, lambda d, dev: None, lambda o, t, a: f(t["u"], t["v"]),
              shape_kind="other", desc=dict(s1=s1, s2=s2))


def power(c, shape=None):
    from torchimage.misc import safe_power
    shape = shape or gen.shape(c, hi=4)
    x = np.where(c.g.random(shape) < 0.15, 0.0, np.round(c.g.standard_normal(shape) * 3, 2))
    if c.r.random() < 0.5:
        e = c.r.choice([0.5, 1.5, 2, 3, 1 / 3, 2.2, 1])
        return Op("safe_power", {"x": x}, lambda d, dev: None, lambda o, t, a: safe_power(t["x"], e), shape_kind="elementwise", desc=dict(shape=shape, e=e))
    ea = c.g.choice([0.5, 1.5, 2, 3, 1], shape)
    return Op("safe_power2", {"x": x, "e": ea}, lambda d, dev: None, lambda o, t, a: safe_power(t["x"], t["e"]), diff=["x"],
              shape_kind="elementwise", desc=dict(shape=shape))


def describe(c):
    from torchimage.misc import describe as f
    shape = gen.shape(c, lo=2)
    return Op("describe", {"x": gen.values(c, shape)}, lambda d, dev: None,
              lambda o, t, a: torch.tensor(list(f(t["x"]).values()), dtype=torch.float64), diff=[], shape_kind="other", desc=dict(shape=shape), fakeable=False)


def crop(c, shape=None, axes=None):
    from torchimage.random import random_crop
    shape = _shape(c, shape)
    ax = _axes(c, shape, axes)
    size = [c.r.choice([None, c.r.randint(1, shape[a])]) for a in ax]
    sd = c.r.randrange(1 << 30)
    return Op("random_crop", {"x": gen.values(c, shape)}, lambda d, dev: None,
              lambda o, t, a: random_crop(t["x"], a, size, generator=torch.Generator().manual_seed(sd)), axes=ax, extras=[size],
              seeded=True, desc=dict(shape=shape, axes=ax, size=size), fakeable=False)


def noise(c, shape=None):
    from torchimage.random import add_gauss_noise, add_poisson_gauss_noise
    shape = shape or gen.shape(c)
    sd = c.r.randrange(1 << 30)
    k, s = c.r.choice([0.1, 1.0, 3.0]), c.r.choice([0.0, 0.5, 2.0])
    if c.r.random() < 0.5:
        return Op("add_gauss_noise", {"x": gen.values(c, shape)}, lambda d, dev: None,
                  lambda o, t, a: add_gauss_noise(t["x"], s, generator=torch.Generator().manual_seed(sd)), seeded=True, diff=["x"], desc=dict(shape=shape, sigma=s), fakeable=False, shape_kind="other")
    return Op("add_poisson_gauss_noise", {"x": c.g.random(shape) * 20}, lambda d, dev: None,
              lambda o, t, a: add_poisson_gauss_noise(t["x"], k, s, generator=torch.Generator().manual_seed(sd)), seeded=True, diff=[], desc=dict(shape=shape, k=k, sigma=s), fakeable=False, shape_kind="other")


def edge_loss(c):
    from torchimage.contrib import edge_loss as E
    name = c.r.choice(["GaussianEdgeLoss", "WeightedMul", "WeightedSum"])
    ks, sg, od = c.r.choice([3, 5, 4]), round(c.r.uniform(0.5, 2), 2), c.r.choice([0, 1, 2])
    shape = (c.r.randint(1, 3), c.r.randint(1, 2), c.r.randint(3, 6), c.r.randint(3, 6))
    return Op("edge_loss", _pair(c, shape), lambda d, dev: getattr(E, name)(ks, sg, od), lambda o, t, a: o.forward(t["a"], t["b"]), diff=[],
              shape_kind="other", desc=dict(shape=shape, loss=name, ks=ks, sigma=sg, order=od))


AXES_OPS = [pad, pad, pad_axis, separable, separable, avg, avg, gauss, to_filter, conv1d, edge_component, edge_all, edge_magnitude,
            laplace, unsharp, mse, ssim, ms_ssim]
OTHER_OPS = [edge_hv, cfa, cfa, cfa, bayer_conv, demosaic, last_step, poly, outer, power, describe, crop, noise, edge_loss]
ALL_OPS = AXES_OPS + OTHER_OPS
NAMES = ["Padder", "Padder.pad_axis", "SeparablePoolNd", "AvgPoolNd", "GaussianPoolNd", "to_filter", "any_conv_1d", "EdgeFilter.component",
         "EdgeFilter.all_components", "EdgeFilter.magnitude", "EdgeFilter.horizontal/vertical", "Laplace", "LaplacianOfGaussian",
         "UnsharpMask", "MSE", "PSNR", "SSIM", "MS_SSIM", "cfa.rgb1", "cfa.rgb4", "cfa.1to4", "cfa.4to1", "cfa.down1", "cfa.down4",
         "BayerConv2d", "BayerConv2d.unshuffle", "demosaic", "last_step_demosaic", "poly1d", "outer", "safe_power", "safe_power2",
         "describe", "random_crop", "add_gauss_noise", "add_poisson_gauss_noise", "edge_loss"]
