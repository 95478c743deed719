"""C08: separable pooling equals dense strided correlation with the outer-product kernel."""
import numpy as np
import torch

from .. import gen
from ..core import Workload
from ..models import corr

RULE = "a case counts when some kernel is non-empty; identity = (workload, shape, axes, kernels, strides, notation)"
REQUIRED_EVENTS = ["dense", "per_axis_kernels", "shared_kernel", "empty_kernel", "all_empty", "repeated_axis", "stride_none", "unordered_axes",
                   "to_filter", "to_filter_keeps_padder", "to_filter_new_padder", "ndspec_kernel", "array_kernel", "tensor_kernel", "filter_other_axes_count", "to_filter_any_axes", "impulse", "undefined_sample", "wide_kernel"]


def kernels(c, k, sizes):
    """-> (notation, per-axis kernels)"""
    from torchimage.utils import NdSpec
    one = lambda n: [round(c.r.uniform(-2, 2), 3) for _ in range(n)]
    if c.r.random() < 0.35:
        kern = one(sizes[0])
        c.ev("shared_kernel")
        n = [kern, tuple(kern), np.array(kern), torch.tensor(kern, dtype=torch.float64), NdSpec(kern, item_shape=[-1])]
        j = c.r.randrange(len(n))
        if not kern:
            j = c.r.randrange(2)
        if j in (2, 3, 4):
            c.ev(["array_kernel", "tensor_kernel", "ndspec_kernel"][j - 2])
        return n[j], [kern] * k
    kern = [one(s) for s in sizes]
    c.ev("per_axis_kernels")
    n = [kern, [tuple(v) for v in kern], tuple(kern)]
    if len(set(sizes)) == 1 and sizes[0]:
        n += [np.array(kern), torch.tensor(kern, dtype=torch.float64)]
    else:
        n += [[np.array(v) for v in kern]]
    v = c.r.choice(n)
    if c.r.random() < 0.15:
        v = NdSpec(v, item_shape=[-1])
        c.ev("ndspec_kernel")
    return v, kern


def strides(c, ks):
    q = c.r.random()
    if q < 0.25:
        c.ev("stride_none")
        return None, [max(k, 1) for k in ks]
    if q < 0.55:
        s = c.r.randint(1, 4)
        return s, [s] * len(ks)
    st = [c.r.choice([1, 1, 2, 3, 4, None]) for _ in ks]
    return c.r.choice([st, tuple(st)]), [max(k, 1) if s is None else s for s, k in zip(st, ks)]


def setup(c, repeated=False):
    shp = gen.shape(c, ndim_hi=4, hi=9, big=0.02)
    axes = gen.axes_subset(c, len(shp))
    if repeated:
        axes = axes + [c.r.choice(axes)]
        if c.r.random() < 0.3:
            axes.append(c.r.choice(axes))
    left = list(shp)
    sizes = []
    for a in axes:
        s = 0 if c.r.random() < 0.12 else c.r.randint(1, min(5, left[a]))
        sizes.append(s)
    if c.r.random() < 0.03:
        sizes = [0] * len(axes)
    if repeated:
        # enough room for repeated processing
        shp = tuple(v + 8 if axes.count(i) > 1 else v for i, v in enumerate(shp))
        sizes = [min(s, 3) for s in sizes]
    # one kernel for all axes must fit the smallest of them
    m = min(shp[a] for a in axes)
    sizes[0] = min(sizes[0], m)
    return shp, axes, sizes


def dense(c):
    from torchimage.pooling import SeparablePoolNd
    shp, axes, sizes = setup(c)
    if c.r.random() < 0.015:
        n = c.r.randint(40, 70)
        shp, axes = c.r.choice([((n, 3), [0]), ((2, n), [1]), ((n,), [0]), ((4, n), [1, 0]), ((n, 4), [1, 0])])
        sizes = [c.r.randint(33, min(n, 60)) if shp[i] == n else c.r.randint(1, 3) for i in axes]
        c.ev("wide_kernel")
    kn, kern = kernels(c, len(axes), sizes)
    if any(len(k) > shp[i] for k, i in zip(kern, axes)):
        shp = tuple(max(n, 60) for n in shp)
    ks = [len(k) for k in kern]
    st, ss = strides(c, ks)
    a = gen.undefined(c, gen.values(c, shp))
    x, lay = gen.layout(c, a)
    lab, note = gen.spell_axes(c, axes, len(shp))
    c.note(shape=shp, axes=axes, spelled=lab, kernels=kern, strides=ss, notation=type(kn).__name__, layout=lay)
    c.nontrivial = any(ks)
    if not any(ks):
        c.ev("all_empty")
    elif 0 in ks:
        c.ev("empty_kernel")
    if axes != sorted(axes):
        c.ev("unordered_axes")
    y = SeparablePoolNd(kn, st).forward(x, axes=note)
    c.close(y, corr.dense(a, axes, kern, ss), "dense", "dense", rtol=1e-11, scale=_scale(a, kern), ks=ks, ss=ss)


def _scale(a, kern):
    s = float(np.nanmax(np.abs(a), initial=0)) + 1
    for k in kern:
        if len(k):
            s *= max(1.0, float(np.abs(k).sum()))
    return s


def impulse(c):
    """the response to a lone sample is the taps themselves, to the last bit or so each, however unequal they are"""
    from torchimage.pooling import SeparablePoolNd
    k = c.r.randint(1, 3)
    kern = [[c.r.choice([-1, 1]) * 10.0 ** c.r.uniform(-30, 8) * c.r.choice([0, 1, 1, 1]) for _ in range(c.r.randint(1, 5))] for _ in range(k)]
    ss = [c.r.choice([1, 1, 2, 3]) for _ in range(k)]
    shp = [len(v) + c.r.randint(0, 6) for v in kern]
    axes = list(range(k))
    c.r.shuffle(axes)
    shp = [shp[axes.index(i)] for i in range(k)]
    at = tuple(c.r.randrange(v) for v in shp)
    a = np.zeros(shp)
    a[at] = c.r.choice([1.0, -2.5, 1e6])
    c.note(shape=shp, axes=axes, kernels=kern, strides=ss, at=at)
    c.nontrivial = True
    y = SeparablePoolNd(kern, ss).forward(torch.from_numpy(a), axes=axes).numpy()
    e = a
    for ax, kk, s in zip(axes, kern, ss):
        n = (e.shape[ax] - len(kk)) // s + 1
        e = sum(np.take(e, range(i, i + (n - 1) * s + 1, s), axis=ax) * w for i, w in enumerate(kk))
    if c.check(y.shape == e.shape, "impulse/shape", got=list(y.shape), want=list(e.shape)):
        c.check(bool((np.abs(y - e) <= 1e-14 * np.abs(e)).all()), "impulse", got=y, want=e)
        c.ev("impulse")


def repeated(c):
    from torchimage.pooling import SeparablePoolNd
    shp, axes, sizes = setup(c, repeated=True)
    kn, kern = kernels(c, len(axes), sizes)
    ks = [len(k) for k in kern]
    ss = [c.r.choice([1, 1, 2]) for _ in ks]
    a = gen.values(c, shp)
    e = a
    for ax, k, s in zip(axes, kern, ss):
        if len(k) > e.shape[ax]:
            return
        e = corr.dense(e, [ax], [k], [s])
    c.note(shape=shp, axes=axes, kernels=kern, strides=ss)
    c.nontrivial = any(ks)
    y = SeparablePoolNd(kn, ss).forward(torch.from_numpy(a), axes=tuple(axes))
    c.close(y, e, "repeated_axis", "repeated_axis", rtol=1e-11, scale=_scale(a, kern))


def to_filter(c):
    """a converted module behaves as one built with stride 1 and that padder"""
    from torchimage.pooling import SeparablePoolNd, AvgPoolNd, GaussianPoolNd
    shp, axes, sizes = setup(c)
    sizes = [max(s, 1) for s in sizes]
    kn, kern = kernels(c, len(axes), sizes)
    ks = [len(k) for k in kern]
    st, ss = strides(c, ks)
    own = c.r.choice([None, "reflect", "circular"])
    new = c.r.choice([None, None, "symmetric", "zeros"])
    kind = c.r.choice(["sep", "sep", "avg", "gauss"])
    if kind != "sep":
        kern = None
    sz = c.r.randint(1, min(64, min(shp[a] for a in axes)))
    f = {"sep": lambda s, p: SeparablePoolNd(kn, s, same_padder=p), "avg": lambda s, p: AvgPoolNd(sz, s, same_padder=p),
         "gauss": lambda s, p: GaussianPoolNd(sz, 1.4, c.index % 3, s, same_padder=p)}[kind]
    x = torch.from_numpy(gen.values(c, shp))
    c.note(shape=shp, axes=axes, kernels=kern, strides=ss, own=own, new=new, kind=kind, size=sz)
    c.nontrivial = True
    mod = f(st, own)
    ret = mod.to_filter() if new is None and c.r.random() < 0.5 else mod.to_filter(new)
    eff = new if new is not None else own
    want = f(1, eff).forward(x, axes=axes)
    y = ret.forward(x, axes=axes)
    c.exact(y, want.numpy(), "to_filter", "to_filter", own=own, new=new, module=kind)
    c.exact(mod.forward(x, axes=axes), want.numpy(), "to_filter_in_place")
    if own and new is None:
        c.ev("to_filter_keeps_padder")
    if new:
        c.ev("to_filter_new_padder")
    if kern and eff is None:
        c.close(y, corr.dense(x.numpy(), axes, kern, [1] * len(axes)), "to_filter_dense", "dense", rtol=1e-11, scale=_scale(x.numpy(), kern))


def filter_any_axes(c):
    """once converted, a module with one kernel for all axes serves any number of axes, whatever its strides were"""
    from torchimage.pooling import SeparablePoolNd, AvgPoolNd, GaussianPoolNd
    n = c.r.randint(1, 4)
    shp = tuple(c.r.randint(2, 6) for _ in range(n))
    kind = c.r.choice(["sep", "avg", "gauss"])
    k = c.r.randint(1, min(shp))
    kern = [round(c.r.uniform(-2, 2), 3) for _ in range(k)]
    pad = c.r.choice([None, None, "reflect", "constant"])
    st = c.r.choice([2, None, [c.r.choice([1, 2, 3, None]) for _ in range(c.r.randint(1, 4))]])
    f = {"sep": lambda s, p: SeparablePoolNd(kern, s, same_padder=p), "avg": lambda s, p: AvgPoolNd(k, s, same_padder=p),
         "gauss": lambda s, p: GaussianPoolNd(k, 1.1, 1, s, same_padder=p)}[kind]
    a = gen.values(c, shp)
    x = torch.from_numpy(a)
    m = f(st, None)
    if isinstance(st, list) and c.r.random() < 0.5 and len(st) <= n:
        m.forward(x, axes=list(range(len(st))))
    m = m.to_filter(pad) if pad else m.to_filter()
    c.note(shape=shp, kind=kind, k=k, kern=kern, pad=pad, stride=st)
    c.nontrivial = k > 1
    for _ in range(3):
        axes = gen.axes_subset(c, n)
        if isinstance(st, list) and len(st) != len(axes):
            c.ev("filter_other_axes_count")
        y = m.forward(x, axes=axes)
        c.exact(y, f(1, pad).forward(x, axes=axes).numpy(), "to_filter_any_axes", "to_filter_any_axes")
        if kind == "sep" and pad is None:
            c.close(y, corr.dense(a, axes, [kern] * len(axes), [1] * len(axes)), "to_filter_dense", "dense", rtol=1e-11, scale=_scale(a, [kern] * len(axes)))


WORKLOADS = [Workload("impulse", impulse, 600, 6000), 
    Workload("filter_any_axes", filter_any_axes, 500, 6000),
    Workload("dense", dense, 3000, 50000),
    Workload("repeated", repeated, 700, 10000),
    Workload("to_filter", to_filter, 800, 10000),
]
