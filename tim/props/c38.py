"""C38: copies of an object and torch's execution modes give the same results.

Differential monitor: one call is executed on the original object in plain mode;
the same call on a copy (made before or after use, the original alive or gone) or
under another execution mode must return the same tensors (up to the rounding
freedom torch takes between its own kernels), and using the copy must leave the original's results alone.
"""
import contextlib
import copy
import gc
import io
import pickle

import numpy as np
import torch

from .. import gen, ops
from ..core import Workload

RULE = "a case counts when at least one result of a copy or of an execution mode was compared; identity = (operation, arguments, way of copying or mode)"
COPIES = ["deepcopy", "copy", "pickle", "torch_save"]
MODES = ["no_grad", "inference_mode", "deterministic", "default_float64", "default_float16", "eval", "train", "requires_grad", "call",
         "anomaly"]
MAKERS = [m for m in ops.ALL_OPS if m not in (ops.describe,)]
OBJ = ["Padder", "Padder.pad_axis", "SeparablePoolNd", "AvgPoolNd", "GaussianPoolNd", "to_filter", "EdgeFilter.component",
       "EdgeFilter.all_components", "EdgeFilter.magnitude", "EdgeFilter.horizontal/vertical", "Laplace", "LaplacianOfGaussian",
       "UnsharpMask", "MSE", "PSNR", "SSIM", "MS_SSIM", "BayerConv2d", "BayerConv2d.unshuffle", "demosaic", "edge_loss"]
OBJ_MAKERS = [ops.pad, ops.pad_axis, ops.separable, ops.avg, ops.gauss, ops.to_filter, ops.edge_component, ops.edge_all, ops.edge_magnitude,
              ops.edge_hv, ops.laplace, ops.unsharp, ops.mse, ops.ssim, ops.ms_ssim, ops.bayer_conv, ops.demosaic, ops.edge_loss]
QUICK_SCALE = 1.5
REQUIRED_EVENTS = ["copied_" + k for k in COPIES] + ["mode_" + m for m in MODES] + ["object_" + n for n in OBJ] + \
    ["warm_copy", "cold_copy", "original_gone", "original_after_copy_used", "copy_of_copy", "modes_" + "Padder", "shared_copied_together",
     "state_dict", "state_dict_strict", "spec_copied", "parameters_independent"] + ["converted_" + w for w in ("avg", "avg_no_pads", "gauss", "sep", "padder")] + \
    ["converted_by_" + w for w in ("to_same", "to_filter", "unsharp", "ssim", "none")]


def same(c, got, want, mech, **kw):
    if not c.check(len(got) == len(want), mech + "/count", got=len(got), want=len(want), **kw):
        return
    for a, b in zip(got, want):
        if c.check(a.dtype == b.dtype, mech + "/dtype", got=str(a.dtype), want=str(b.dtype), **kw):
            b = b.detach().numpy()
            c.close(a, b, mech, rtol=1e-2 if a.dtype == torch.float32 else 1e-9, scale=float(np.abs(b[np.isfinite(b)]).max(initial=1e-3)), **kw)


def duplicate(kind, o):
    if kind == "deepcopy":
        return copy.deepcopy(o)
    if kind == "copy":
        return copy.copy(o)
    if kind == "pickle":
        return pickle.loads(pickle.dumps(o))
    b = io.BytesIO()
    torch.save(o, b)
    b.seek(0)
    return torch.load(b, weights_only=False)


def clone(t):
    return {k: v.detach().clone() for k, v in t.items()}


def copies(c):
    op = OBJ_MAKERS[c.index % len(OBJ_MAKERS)](c)
    dt = c.r.choice([torch.float64, torch.float64, torch.float32])
    t = op.tensors(dt)
    ref = op.call(op.build(dt), clone(t))
    o = op.build(dt)
    warm = c.r.random() < 0.5
    if warm:
        with contextlib.suppress(Exception):      # any earlier use, also a failing one
            op.call(o, {k: (v if c.r.random() < 0.5 else v[..., :-2, :-2]) for k, v in clone(t).items()})
        c.ev("warm_copy")
    else:
        c.ev("cold_copy")
    kind = c.r.choice(COPIES)
    c.note(op=op.name, copied_by=kind, warm=warm, dtype=str(dt), **op.desc)
    o2 = duplicate(kind, o)
    if c.r.random() < 0.2:
        o2 = duplicate(c.r.choice(COPIES), o2)
        c.ev("copy_of_copy")
    c.ev("copied_" + kind)
    c.ev("object_" + op.name)
    c.nontrivial = True
    gone = c.r.random() < 0.3
    if gone:
        del o
        gc.collect()
        c.ev("original_gone")
    same(c, op.call(o2, clone(t)), ref, "copy/" + kind, op=op.name)
    if not gone:
        with contextlib.suppress(Exception):
            op.call(o2, {k: v[..., :-2, :-2] for k, v in clone(t).items()})
        same(c, op.call(o, clone(t)), ref, "original_after_copy/" + kind, op=op.name)
        c.ev("original_after_copy_used")
        ps = list(o2.parameters()) if isinstance(o2, torch.nn.Module) else []
        if ps and kind != "copy":
            with torch.no_grad():
                for p in ps:
                    p.add_(1.0)
            same(c, op.call(o, clone(t)), ref, "parameters_shared/" + kind, op=op.name)
            c.ev("parameters_independent")


def together(c):
    """a padder shared by two pooling objects is copied together with them"""
    from torchimage.padding import Padder
    from torchimage.pooling import SeparablePoolNd, GaussianPoolNd
    md = c.r.choice(ops.SMOOTH_PADS)
    shp = (c.r.randint(4, 8), c.r.randint(4, 8))
    ks, st = c.r.randint(1, 4), c.r.choice([None, 1, 2])
    kern = [round(c.r.uniform(-2, 2), 2) for _ in range(c.r.randint(1, 5))]
    x = torch.from_numpy(gen.values(c, shp))

    def mk():
        p = Padder(mode=md)
        return [SeparablePoolNd(kern, st, same_padder=p), GaussianPoolNd(ks, 1.0, same_padder=p), p.__class__(2, mode=md)]
    objs = mk()
    ref = [o.forward(x, axes=(0, 1)) for o in mk()]
    if c.r.random() < 0.5:
        objs[0].forward(x[:-1], axes=(0, 1))
    kind = c.r.choice(["deepcopy", "pickle", "torch_save"])
    two = duplicate(kind, objs)
    c.note(mode=md, shape=shp, ks=ks, stride=st, kern=kern, kind=kind)
    c.nontrivial = True
    order = c.r.sample(range(6), 6)
    got = {}
    for j in order:
        got[j] = (objs + two)[j].forward(x, axes=(0, 1))
    same(c, [got[j] for j in range(6)], ref + ref, "copied_together/" + kind)
    c.ev("shared_copied_together")


def convert(c):
    """a copy is as configurable as the original: it is converted or built into other objects afterwards"""
    from torchimage.padding import Padder
    from torchimage.pooling import SeparablePoolNd, AvgPoolNd, GaussianPoolNd
    from torchimage.filtering import UnsharpMask
    from torchimage.metrics import SSIM
    k = c.r.choice([1, 2])
    kss = [c.r.randint(2, 4) for _ in range(k)] if c.r.random() < 0.4 else c.r.randint(2, 4)
    st = c.r.choice([None, 1, 2, 3])
    what = c.r.choice(["avg", "avg_no_pads", "gauss", "sep", "padder"])
    md = "zeros" if what == "avg_no_pads" else c.r.choice(ops.SMOOTH_PADS)
    how = "to_same" if what == "padder" else c.r.choice(["to_filter", "to_filter", "unsharp", "ssim", "none"])
    own = None if c.r.random() < 0.5 else "zeros" if what == "avg_no_pads" else c.r.choice(ops.SMOOTH_PADS)
    kern = [round(c.r.uniform(0.1, 2), 2) for _ in range(c.r.randint(2, 4))]
    order = c.r.choice([0, 0, 1])
    kw = dict(constant_values=(1.5, -2.0), end_values=(0.5, 3.0), stat_length=(2, c.r.choice([None, 3])))

    def mk():
        if what == "padder":
            return Padder((1, 2), mode=md if k == 1 else [md, "reflect"], **kw)
        p = Padder(mode=own, **kw) if own and how != "none" else own
        if what == "sep":
            return SeparablePoolNd(kern, st, same_padder=p)
        if what == "gauss":
            return GaussianPoolNd(kss, 1.1, order, st, same_padder=p)
        return AvgPoolNd(kss, st, count_include_pad=what == "avg", same_padder=p)

    def use(o, x):
        if how == "to_same":
            return [o.to_same(3, c.r.choice([1]), list(x.shape[-k:])).forward(x, axes=axes)]
        if how == "unsharp":
            return [UnsharpMask(o, amount=0.7, padder=md).forward(x, axes=axes)]
        if how == "ssim":
            return list(SSIM(o, padder=md).forward(x, x.flip([-1]) * 0.8, content_axes=axes, reduce_axes=None, full=True))
        if how == "to_filter":
            o = o.to_filter(md)
        return [o.forward(x, axes=axes)]
    axes = (1, 2)[2 - k:]
    x = torch.from_numpy(gen.values(c, (2, c.r.randint(8, 10), c.r.randint(8, 10)), "uniform"))
    c.note(what=what, how=how, mode=md, own=own, ks=kss, stride=st, kern=kern, order=order, axes=axes, shape=list(x.shape))
    c.nontrivial = True
    ref = use(mk(), x)
    a = mk()
    kind = c.r.choice(["deepcopy", "pickle", "torch_save"])
    b = duplicate(kind, a)
    first, second = (a, b) if c.r.random() < 0.5 else (b, a)
    same(c, use(first, x), ref, "converted/" + kind, what=what, how=how)
    same(c, use(second, x), ref, "converted/" + kind, what=what, how=how)
    c.ev("converted_" + what)
    c.ev("converted_by_" + how)


@contextlib.contextmanager
def switched(get, set_, value):
    old = get()
    set_(value)
    try:
        yield
    finally:
        set_(old)


def mode_context(mode):
    if mode == "no_grad":
        return torch.no_grad()
    if mode == "inference_mode":
        return torch.inference_mode()
    if mode == "deterministic":
        return switched(torch.are_deterministic_algorithms_enabled, torch.use_deterministic_algorithms, True)
    if mode == "anomaly":
        return torch.autograd.set_detect_anomaly(True)
    if mode.startswith("default_"):
        return switched(torch.get_default_dtype, torch.set_default_dtype, getattr(torch, mode[8:]))
    return contextlib.nullcontext()


class ViaCall:
    """the object as a caller who writes module(x) sees it"""

    def __init__(self, o):
        object.__setattr__(self, "_o", o)

    def __getattr__(self, k):
        o = object.__getattribute__(self, "_o")
        return o.__call__ if k == "forward" and isinstance(o, torch.nn.Module) else getattr(o, k)


def modes(c):
    op = MAKERS[c.index % len(MAKERS)](c)
    dt = c.r.choice([torch.float64, torch.float64, torch.float32])
    t = op.tensors(dt)
    ref = op.call(op.build(dt), clone(t))
    for mode in c.r.sample(MODES, 4):
        when = c.r.choice(["call", "both"])
        o = None
        # parameters take the default dtype and grad mode by torch's own convention: objects holding them are built outside
        with (mode_context(mode) if when == "both" and not op.name.startswith(("BayerConv2d", "demosaic")) else contextlib.nullcontext()):
            o = op.build(dt)
        if isinstance(o, torch.nn.Module) and mode in ("eval", "train"):
            o.train(mode == "train")
        ins = clone(t)
        if mode == "requires_grad":
            ins = {k: v.requires_grad_(True) if k in op.diff else v for k, v in ins.items()}
        if mode == "call":
            if op.name.startswith("demosaic") or not isinstance(o, torch.nn.Module):
                o2 = o
            else:
                o2 = ViaCall(o)
        else:
            o2 = o
        with mode_context(mode):
            got = op.call(o2, ins)
        same(c, got, ref, "mode/" + mode, op=op.name, when=when)
        c.ev("mode_" + mode)
        c.ev("modes_" + op.name)
        c.nontrivial = True
    c.note(op=op.name, dtype=str(dt), **op.desc)


def state(c):
    """parameters travel through state_dict into an independently built object"""
    from torchimage.cfa.bayer_conv import BayerConv2d, BayerConv2dUnshuffle
    cin, cout, ks, bias = c.r.randint(1, 2), c.r.randint(1, 3), c.r.choice([1, 3, 5]), c.r.random() < 0.5
    cls = c.r.choice([BayerConv2d, BayerConv2dUnshuffle])
    a, b = cls(cin, cout, ks, bias).double(), cls(cin, cout, ks, bias).double()
    x = torch.from_numpy(gen.values(c, (2, cin, 2 * c.r.randint(3, 5), 2 * c.r.randint(3, 5))))
    sa = c.r.choice(ops.SA)
    c.note(cin=cin, cout=cout, ks=ks, bias=bias, shape=list(x.shape), sa=sa, cls=cls.__name__)
    c.nontrivial = True
    ref = a(x, sa)
    c.check(not torch.equal(ref, b(x, sa)), "state_dict/initialisation_not_random")
    r = b.load_state_dict({k: v.clone() for k, v in a.state_dict().items()}, strict=True)
    c.check(not r.missing_keys and not r.unexpected_keys, "state_dict/strict", missing=r.missing_keys, unexpected=r.unexpected_keys)
    c.ev("state_dict_strict")
    same(c, [b(x, sa)], [ref], "state_dict")
    c.ev("state_dict")
    n = 4 * cout * (cin * ks * ks + bias)
    c.check(sum(p.numel() for p in a.parameters()) == n, "state_dict/parameter_count", got=sum(p.numel() for p in a.parameters()), want=n)


def specs(c):
    from torchimage.utils import NdSpec
    shape = c.r.choice([(), (2,), (3,), (2, 2)])

    def item():
        return c.g.integers(-9, 10, shape).tolist() if shape else c.r.randint(-9, 9)
    data = item() if c.r.random() < 0.3 else [item() for _ in range(c.r.randint(1, 4))]
    s = NdSpec(data, item_shape=shape)
    kind = c.r.choice(COPIES)
    s2 = duplicate(kind, s)
    c.note(data=data, item_shape=shape, kind=kind)
    c.nontrivial = True
    n = len(s)
    equal = lambda u, v: np.array_equal(np.asarray(u), np.asarray(v))
    c.check(len(s2) == n and tuple(s2.item_shape) == tuple(s.item_shape) and tuple(s2.index_shape) == tuple(s.index_shape), "spec/shape", kind=kind)
    for i in (range(-n, n) if n else (-2, 0, 5)):
        c.check(equal(s2[i], s[i]), "spec/item", kind=kind, i=i)
    c.ev("spec_copied")


WORKLOADS = [
    Workload("copies", copies, 2200, 25000),
    Workload("together", together, 400, 4000),
    Workload("modes", modes, 1600, 20000),
    Workload("state", state, 150, 1500),
    Workload("convert", convert, 400, 5000),
    Workload("specs", specs, 500, 5000),
]
