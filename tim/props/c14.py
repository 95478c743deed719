"""C14: unsharp masking computes x + amount * thresholded(x - blur(x))."""
import numpy as np
import torch

from .. import gen
from ..core import Workload
from ..models import corr, padm
from .c10 import kernel as gk

RULE = "a case counts when the blur differs from the identity; identity = (workload, blur, padder, amount, threshold, shape, axes)"
REQUIRED_EVENTS = ["formula", "thresholded_some", "thresholded_none", "constant_region", "amount_zero", "blur_own_padder", "padder_overrides", "threshold_tie", "default_axes", "stride_dropped", "other_units"]
MODES = ["replicate", "circular", "symmetric", "reflect", "zeros", "odd_reflect", "smooth", "maximum", "mean", "antisymmetric", "constant"]


def make(c, shp, axes):
    """-> (UnsharpMask factory taking amount, threshold; blur reference)"""
    from torchimage.pooling import SeparablePoolNd, AvgPoolNd, GaussianPoolNd
    from torchimage.padding import Padder
    from torchimage.filtering import UnsharpMask
    own = c.r.choice([None, None] + MODES)
    new = c.r.choice(MODES) if own is None or c.r.random() < 0.4 else None
    mode = new or own
    kind = c.r.choice(["sep", "avg", "gauss"])
    st = c.r.choice([None, 1, 2, 3])
    per = c.r.random() < 0.4
    most = 40 if c.r.random() < 0.04 and mode not in ("smooth", "odd_reflect", "odd_symmetric") else 5
    c.ev("wide_kernel", int(most > 5))
    size = lambda: c.r.randint(1, most)
    ks = [size() for _ in axes] if per else size()
    lst = ks if per else [ks] * len(axes)
    if kind == "sep":
        kern = [[round(c.r.uniform(0, 1), 3) for _ in range(n)] for n in lst]
        if most > 5:        # keep the blurred image in the units of the image
            kern = [[v / n for v in k] for k, n in zip(kern, lst)]
        arg = kern if per else kern[0]
        kern = kern if per else [kern[0]] * len(axes)
        blur = lambda: SeparablePoolNd(arg, st, same_padder=own)
    elif kind == "avg":
        kern = [[1.0 / n] * n for n in lst]
        blur = lambda: AvgPoolNd(ks, st, same_padder=own)
    else:
        s = round(c.r.uniform(0.5, 2.5), 2)
        kern = [gk(n, s, 0) for n in lst]
        blur = lambda: GaussianPoolNd(ks, s, 0, st, same_padder=own)
    pad = None if new is None else (new if c.r.random() < 0.5 else Padder(mode=new))
    if own and not new:
        c.ev("blur_own_padder")
    if own and new:
        c.ev("padder_overrides")
    if st != 1:
        c.ev("stride_dropped")

    def ref(a):
        w = [corr.same_width(len(k), 1, a.shape[i]) for i, k in zip(axes, kern)]
        return corr.dense(padm.padn(a, [dict(axis=i, before=b, after=e, mode=mode) for i, (b, e) in zip(axes, w)]), axes, kern, [1] * len(axes))
    d = dict(kind=kind, ks=ks, stride=st, own=own, new=new)
    mk = lambda am, th: UnsharpMask(blur(), **({} if am is None else {"amount": am}), **({} if th is None else {"threshold": th}), padder=pad)
    return mk, ref, d, max(len(k) for k in kern) > 1, kind, mode


def formula(c):
    shp = gen.shape(c, ndim_hi=4, hi=8, max_elems=800)
    if len(shp) > 2 and c.r.random() < 0.3:
        axes, note = list(range(2, len(shp))), "default"
        c.ev("default_axes")
    else:
        axes = gen.axes_subset(c, len(shp))
        note = gen.spell_axes(c, axes, len(shp))[1]
    mk, ref, d, nt, kind, mode = make(c, shp, axes)
    a = gen.values(c, shp)
    if c.r.random() < 0.15:                            # very small or very large units
        a = a * 10.0 ** c.r.uniform(-12, 12)
        c.ev("other_units")
    unit = max(float(np.abs(a).max()), 1e-300)
    x, _ = gen.layout(c, a)
    am = c.r.choice([None, 0.5, 1, 2.0, -0.75, 0, c.r.uniform(-3, 3)])
    diff = a - ref(a)
    th = c.r.choice([None, 0, float(np.quantile(np.abs(diff), c.r.random())) * 1.0001, 0.1, 1e9])
    c.note(shape=shp, axes=axes, amount=am, threshold=th, **d)
    c.nontrivial = nt
    u = mk(am, th)
    y = u.forward(x) if isinstance(note, str) else u.forward(x, axes=note)
    T = th or 0
    keep = np.abs(diff) >= T
    e = a + (0.5 if am is None else am) * np.where(keep, diff, 0.0)
    if T > 0:
        near = np.abs(np.abs(diff) - T) < 1e-9 * unit
        e = np.where(near, y.numpy() if y.shape == e.shape else e, e)
        c.ev("thresholded_some" if (~keep).any() else "thresholded_none")
    c.close(y, e, "formula", "formula", rtol=1e-11, scale=unit * 40)
    if am == 0:
        c.close(y, a, "amount_zero", "amount_zero", rtol=1e-15)


def ties(c):
    """exact arithmetic: differences equal to the threshold are kept, smaller ones dropped"""
    from torchimage.pooling import SeparablePoolNd
    from torchimage.filtering import UnsharpMask
    n = c.r.randint(3, 12)
    a = c.g.integers(-6, 7, (2, n)).astype(np.float64)
    T = c.r.choice([1, 2, 3, 4])
    am = c.r.choice([1, 2, 0.5])
    x = torch.from_numpy(a.copy())
    y = UnsharpMask(SeparablePoolNd([0, 0, 1]), amount=am, threshold=T, padder="replicate").forward(x, axes=(1,))
    d = a - np.concatenate([a[:, 1:], a[:, -1:]], axis=1)
    e = a + am * np.where(np.abs(d) < T, 0, d)
    c.note(a=a, T=T, amount=am)
    c.nontrivial = True
    if (np.abs(d) == T).any():
        c.ev("threshold_tie")
    c.exact(y, e, "ties")


def constant_region(c):
    from torchimage.pooling import AvgPoolNd, GaussianPoolNd
    from torchimage.filtering import UnsharpMask
    k = c.r.choice([2, 3, 4, 5])
    b = AvgPoolNd(k) if c.r.random() < 0.5 else GaussianPoolNd(k, 1.2)
    h, w = c.r.randint(2 * k + 1, 3 * k + 6), c.r.randint(2, 7)
    a = gen.values(c, (h, w))
    v = c.r.uniform(-9, 9)
    a[: 2 * k] = v                                     # a constant band
    mode = c.r.choice(["replicate", "symmetric", "reflect"])
    y = UnsharpMask(b, amount=c.r.uniform(-2, 2), padder=mode).forward(torch.from_numpy(a), axes=(0, 1))
    c.note(k=k, h=h, w=w, mode=mode)
    c.nontrivial = True
    c.close(y[: 2 * k - k], np.full((k, w), v), "constant_region", "constant_region", rtol=1e-12, scale=100)


WORKLOADS = [
    Workload("formula", formula, 2500, 40000),
    Workload("ties", ties, 400, 4000),
    Workload("constant_region", constant_region, 300, 4000),
]
