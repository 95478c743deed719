"""C13: gradient magnitude, Laplace and LoG combine the per-axis components as defined."""
import numpy as np
import torch

from .. import gen
from ..core import Workload
from ..models import padm
from .c10 import kernel as gk
from .c12 import LINEAR, component, make_filter, scale, shape_for

RULE = "a case counts when at least two axes of length > 1 are combined; identity = (workload, filter, padder, shape, axes, p, epsilon)"
REQUIRED_EVENTS = ["magnitude_p1", "magnitude_p2", "magnitude_p4", "epsilon", "laplace", "log", "log_even", "constant_image", "rejected_single_axis", "three_axes", "odd_p", "real_exponent", "negative_epsilon"]


def magnitude(c):
    mk, ek, sk, mode, d = make_filter(c)
    shp = shape_for(c, 2, ek, sk, mode)
    n = len(shp)
    # without padding the components only combine when every kernel has the same length
    if mode is None and len(ek) != len(sk):
        return
    axes = gen.axes_subset(c, n, kmin=2)
    a = gen.values(c, shp, c.r.choice(["normal", "uniform", "int"]))
    p = c.r.choice([1, 1, 2, 2, 4, 3, 5, 6])
    eps = c.r.choice([0.0, 0.0, 0.5, 2.0, 1e-3])
    comps = [component(a, ea, [i for i in axes if i != ea], ek, [sk] * (len(axes) - 1), mode) for ea in axes]
    raw = sum(v ** p for v in comps)
    if p == 1 and c.r.random() < 0.2:
        eps = c.r.choice([-0.5, -3.0])
        c.ev("negative_epsilon")
    if p % 2 and p > 1:
        # odd powers keep their sign: only defined where the sum is positive
        eps = float(np.ceil(2.0 + abs(float(raw.min())) + 1e-9 * scale(a, ek, sk, len(axes) - 1) ** p))   # the sum stays positive under any rounding
        c.ev("odd_p")
    s = raw + eps
    c.note(shape=shp, axes=axes, p=p, eps=eps, **d)
    c.nontrivial = sum(shp[i] > 1 for i in axes) > 1
    if len(axes) > 2:
        c.ev("three_axes")
    kw = {}
    if p != 2 or c.r.random() < 0.5:
        kw["p"] = p
    if eps or c.r.random() < 0.5:
        kw["epsilon"] = eps
    y = mk().magnitude(torch.from_numpy(a), axes=gen.spell_axes(c, axes, n)[1], **kw)
    if eps:
        c.ev("epsilon")
    sc = scale(a, ek, sk, len(axes) - 1)
    if p == 1:
        c.close(y, s, "magnitude/1", "magnitude_p1", rtol=1e-11, scale=sc * len(axes))
    else:
        # compare after undoing the root (the root amplifies rounding at zero)
        c.check(bool((y >= 0).all()), "magnitude/nonnegative", p=p)
        c.close(y ** p, s, f"magnitude/{p}", f"magnitude_p{p}", rtol=1e-10, scale=sc ** p)


def real_exponent(c):
    """exponents that are no integers, on filters with positive responses"""
    from torchimage.filtering import EdgeFilter
    shp = gen.shape(c, ndim_lo=2, ndim_hi=3, hi=7)
    axes = gen.axes_subset(c, len(shp), kmin=2)
    a = np.abs(gen.values(c, shp, c.r.choice(["normal", "uniform", "int"]))) + 0.1
    most = 40 if c.r.random() < 0.05 else 4
    c.ev("wide_kernel", int(most > 4))
    ek = [round(c.r.uniform(0.1, 2), 3) for _ in range(c.r.randint(1, most))]
    sk = [round(c.r.uniform(0.1, 2), 3) for _ in range(c.r.randint(1, most))]
    mode = c.r.choice(["reflect", "replicate", "symmetric", "circular", "maximum", "mean", "minimum"])
    p = c.r.choice([0.5, 0.25, 1.5, 2.5, 1 / 3, -1, -2, 0.9, 1.001])
    eps = c.r.choice([0.0, 0.0, 0.7])
    comps = [component(a, ea, [i for i in axes if i != ea], ek, [sk] * (len(axes) - 1), mode) for ea in axes]
    want = (sum(v ** p for v in comps) + eps) ** (1 / p)
    c.note(shape=shp, axes=axes, ek=ek, sk=sk, mode=mode, p=p, eps=eps)
    c.nontrivial = sum(shp[i] > 1 for i in axes) > 1
    y = EdgeFilter(ek, sk, same_padder=mode).magnitude(torch.from_numpy(a), axes=axes, p=p, epsilon=eps)
    c.close(y, want, "magnitude/real", "real_exponent", rtol=1e-10 * (1 + 1 / abs(p)), scale=float(np.abs(want).max()))


def laplace(c):
    from torchimage.filtering import Laplace, LaplacianOfGaussian
    log = c.r.random() < 0.5
    mode = c.r.choice(LINEAR if log else [m for m in padm.ALL_MODES if m != "periodize"])
    shp = gen.shape(c, ndim_lo=2, ndim_hi=4, hi=8, max_elems=1500)
    n = len(shp)
    axes = gen.axes_subset(c, n, kmin=2)
    a = gen.values(c, shp)
    kw = {} if mode == "reflect" and c.r.random() < 0.7 else {"same_padder": mode}
    note = gen.spell_axes(c, axes, n)[1]
    x = torch.from_numpy(a)
    c.nontrivial = sum(shp[i] > 1 for i in axes) > 1
    if len(axes) > 2:
        c.ev("three_axes")
    if log:
        ks, s = c.r.choice([1, 2, 3, 3, 4, 5, 6, 7, 8, 9]), c.r.choice([0.45, 0.55, 0.6, 0.8, 1.0, c.r.uniform(0.4, 2.5)])
        c.note(shape=shp, axes=axes, mode=mode, ks=ks, sigma=s)
        ek, sk = gk(ks, s, 2), gk(ks, s, 0)
        y = LaplacianOfGaussian(ks, s, **kw).forward(x, axes=note)
        e = sum(component(a, ea, [i for i in axes if i != ea], ek, [sk] * (len(axes) - 1), mode) for ea in axes)
        if ks % 2 == 0:
            c.ev("log_even")
        c.close(y, e, "log", "log", rtol=1e-11, scale=scale(a, ek, sk, len(axes)) * 4)
    else:
        c.note(shape=shp, axes=axes, mode=mode)
        y = Laplace(**kw).forward(x, axes=note)
        e = sum(component(a, ea, [], [1, -2, 1], [], mode) for ea in axes)
        c.close(y, e, "laplace", "laplace", rtol=1e-11, scale=(np.abs(a).max() + 1) * 40)


def constant_image(c):
    from torchimage.filtering import Sobel, Prewitt, Scharr, Farid, Laplace
    from torchimage.padding import Padder
    shp = gen.shape(c, ndim_lo=2, ndim_hi=4)
    n = len(shp)
    axes = gen.axes_subset(c, n, kmin=2)
    v = c.r.choice([1.0, -3.25, 117.0, c.r.uniform(-50, 50)])
    # (modes that fill with a fixed value do not commute with the per-axis passes)
    mode = c.r.choice(["replicate", "circular", "symmetric", "reflect", "odd_reflect", "odd_symmetric", "smooth", "maximum", "minimum", "mean", "median"])
    pad = Padder(mode=mode) if c.r.random() < 0.5 else mode
    cls = c.r.choice([Sobel, Prewitt, Scharr, Farid, Laplace])
    c.note(shape=shp, axes=axes, value=v, mode=mode, cls=cls.__name__)
    c.nontrivial = True
    x = torch.full(shp, v, dtype=torch.float64)
    if cls is Laplace:
        y = Laplace(same_padder=pad).forward(x, axes)
    else:
        f = cls(normalize=c.r.random() < 0.5, same_padder=pad)
        y = c.r.choice([lambda: f.magnitude(x, axes), lambda: f.component(x, axes[0], axes), lambda: f.horizontal(x), lambda: f.vertical(x),
                        lambda: f.magnitude(x, axes, p=1)])()
    c.close(y, np.zeros(shp), "constant_image/" + mode, "constant_image", rtol=1e-12, scale=abs(v) * 1000)


def rejects(c):
    from torchimage.filtering import Sobel, Laplace, LaplacianOfGaussian
    nd = c.r.randint(1, 4)
    x = torch.rand([4] * nd, dtype=torch.float64)
    one = c.r.choice([0, -1, (0,), [nd - 1], slice(0, 1), ()]) if nd > 1 else c.r.choice([None, 0, (0,), slice(None), ()])
    f = c.r.choice([lambda: Sobel().magnitude(x, one), lambda: Sobel().all_components(x, one), lambda: Laplace().forward(x, one), lambda: LaplacianOfGaussian(3, 1.0).forward(x, one)])
    c.note(nd=nd, axes=repr(one))
    c.nontrivial = True
    c.raises(f, "single_axis_accepted", "rejected_single_axis", axes=repr(one))


WORKLOADS = [
    Workload("magnitude", magnitude, 2000, 30000),
    Workload("real_exponent", real_exponent, 600, 8000),
    Workload("laplace", laplace, 1500, 20000),
    Workload("constant_image", constant_image, 700, 8000),
    Workload("rejects", rejects, 150, 600),
]
