"""C35: operations never modify their inputs.

Argument write sanitizer: every tensor handed to the library is fingerprinted
(storage bytes of its whole storage, version counter, shape, strides, metadata)
before the call and compared after it; lists, arrays, specs and other arguments
are deep-copied before construction and compared after use.
"""
import contextlib
import copy

import numpy as np
import torch

from .. import gen, ops, padcase
from ..core import Workload
from ..models import padm

RULE = "a case counts when the call returned and all its arguments were compared; identity = (operation, arguments)"
NAMES = ops.NAMES
REQUIRED_EVENTS = ["tensor_arg", "extra_arg", "degenerate", "sanitizer_selftest", "repeat", "raising_call", "spec_arg", "ragged_arg", "grad_input", "width_format_arg", "axes_list", "single_precision", "huge_values", "inference_mode"] + ["op_" + n for n in NAMES]


def finger(t):
    """the contents a caller can see, the rest of the storage, and the write counter"""
    s = t.untyped_storage()
    raw = torch.empty(0, dtype=torch.uint8).set_(s, 0, (s.nbytes(),), (1,))
    return (raw.numpy().tobytes(), t._version, tuple(t.shape), tuple(t.stride()), t.storage_offset(), t.dtype, t.requires_grad, t.data_ptr())


def freeze(v):
    """comparable snapshot of a non-tensor argument"""
    from torchimage.utils import NdSpec
    if torch.is_tensor(v):
        return ("tensor",) + finger(v)
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return ("objarray", v.shape, tuple(freeze(q) for q in v.ravel().tolist()))
        return ("array", v.shape, str(v.dtype), v.tobytes(), v.flags.writeable)
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(freeze(q) for q in v)
    if isinstance(v, dict):
        return ("dict",) + tuple((k, freeze(q)) for k, q in v.items())
    if isinstance(v, NdSpec):
        return ("spec", freeze(v.data), tuple(v.item_shape), tuple(v.index_shape))
    if callable(v):
        return ("fn", id(v))
    return ("v", type(v).__name__, repr(v))


def watch(c, what, args, fn, **detail):
    before = {k: freeze(v) for k, v in args.items()}
    out = None
    try:
        out = fn()
    except Exception as e:
        c.ev("raising_call")
        out = e
    for k, v in args.items():
        after = freeze(v)
        if after != before[k]:
            why = "contents"
            if torch.is_tensor(v):
                a, b = before[k][1:], after[1:]
                why = "contents" if a[0] != b[0] else "version" if a[1] != b[1] else "metadata"
            c.fail(f"{what}/modified_{why}", argument=k, now=repr(v)[:200], **detail)
        c.ev("tensor_arg" if torch.is_tensor(v) else "extra_arg")
    return out


def selftest(c):
    x = torch.zeros(4)
    b = finger(x)
    x[1:2].add_(1)
    c.check(finger(x) != b, "harness/blind_to_writes")
    y = torch.ones(3)
    b = finger(y)
    y += 0
    c.check(finger(y) != b, "harness/blind_to_noop_writes")
    c.ev("sanitizer_selftest")


def catalogue(c):
    if c.index % 50 == 0:
        selftest(c)
    op = ops.ALL_OPS[c.index % len(ops.ALL_OPS)](c)
    grad = c.r.random() < 0.3 and op.name not in ("add_poisson_gauss_noise", "describe")
    t = {}
    single = c.r.random() < 0.3
    huge = c.r.random() < 0.1
    for k, a in op.arrays.items():
        if huge and op.name not in ("describe", "add_poisson_gauss_noise"):
            a = a * 10.0 ** c.r.uniform(5, 30)
        t[k] = gen.layout(c, a, torch.float32 if single else None)[0]
        if grad:
            t[k] = t[k].detach().requires_grad_(True)
    if grad:
        c.ev("grad_input")
    c.note(op=op.name, desc=op.desc, grad=grad, single=single, huge=huge)
    args = dict(t)
    axes = None
    if op.axes is not None:
        # the very list the library is given, some entries counted from the end
        nd = np.ndim(next(iter(op.arrays.values())))
        axes = [a - nd if c.r.random() < 0.4 else a for a in op.axes]
        args["axes"] = axes
        c.ev("axes_list")
    c.ev("single_precision", int(single))
    c.ev("huge_values", int(huge))
    ctx = contextlib.nullcontext if grad else c.r.choice([contextlib.nullcontext, torch.no_grad, torch.inference_mode])
    c.ev("inference_mode", int(ctx is torch.inference_mode))
    # specs are captured before construction: the library may keep them
    args.update({f"extra{i}": v for i, v in enumerate(op.extras)})
    holder = {}

    def go():
        if "obj" not in holder:
            holder["obj"] = op.build(torch.float32 if single else torch.float64)
        with ctx():
            return op.call(holder["obj"], t, axes)
    n = c.r.choice([1, 1, 2])
    for _ in range(n):
        r = watch(c, op.name, args, go, desc=op.desc)
        if isinstance(r, Exception):
            raise r
    if n > 1:
        c.ev("repeat")
    if grad:
        def back():
            ys = [y for y in r if y.requires_grad and y.numel()]
            if ys:
                sum(y.sum() for y in ys).backward()
        watch(c, op.name + ".backward", args, back)
    c.nontrivial = True
    c.ev("op_" + op.name)


def degenerate(c):
    """calls in which the library could be tempted to hand its input through and then write to it"""
    from torchimage.padding import Padder
    from torchimage.pooling import SeparablePoolNd, AvgPoolNd, GaussianPoolNd
    from torchimage.pooling.operator import any_conv_1d
    from torchimage.filtering import EdgeFilter, Sobel, Laplace, UnsharpMask, LaplacianOfGaussian, GaussianGrad
    from torchimage.metrics import SSIM, MS_SSIM, MSE, PSNR
    from torchimage.misc import poly1d, safe_power, outer, describe
    from torchimage.random import random_crop, add_gauss_noise, add_poisson_gauss_noise
    from torchimage.cfa import utils as U
    from torchimage.cfa.bayer_conv import demosaic, last_step_demosaic
    nd = c.r.randint(2, 4)
    sh = tuple(c.r.randint(4, 6) for _ in range(nd))
    ax = c.r.sample(range(nd), 2)
    x = gen.layout(c, c.g.random(sh) + 0.1)[0]
    y = gen.layout(c, c.g.random(sh) + 0.1)[0]
    m = c.r.choice(padm.ALL_MODES)
    p = c.r.choice([1, 1, 2, 3])
    eps = c.r.choice([0.0, 0.5])
    e = c.r.choice([[], [1.0], [2.0], [-1, 0, 1], [1, -2, 1]])
    s = c.r.choice([[], [1.0], [0.5, 0.5]])
    blur = lambda: c.r.choice([AvgPoolNd(1), AvgPoolNd(3), GaussianPoolNd(3, 1.0), SeparablePoolNd([]), SeparablePoolNd([1.0])])
    n = x.clone()
    n[n < 0.5] = -1.0
    n[..., 0] = 0.0
    bh = (1, 4, 4)
    one, four, rgb = (torch.from_numpy(c.g.random((k,) + bh[1:])) for k in (1, 4, 3))
    two = torch.from_numpy(c.g.random((2, 4, 4)))
    one32 = one.float()
    sa = c.r.choice(ops.SA)
    coef = [c.r.choice([0, 1.0, -2.0]) for _ in range(c.r.randint(1, 4))]
    ce = c.r.choice([torch.tensor(coef, dtype=torch.float64), np.array(coef), coef, tuple(coef)])
    expo = torch.full(sh, c.r.choice([1.0, 0.5, 2.0]), dtype=torch.float64)
    g = lambda: torch.Generator().manual_seed(3)
    calls = {
        "pad0": ({"x": x}, lambda: Padder(0, mode=m).forward(x, axes=ax)),
        "pad_one_side": ({"x": x}, lambda: Padder((0, 1), mode=m).forward(x, axes=ax)),
        "pad_mixed": ({"x": x}, lambda: Padder([(0, 0), (1, 0)], mode=m).forward(x, axes=ax)),
        "pad_noaxes": ({"x": x}, lambda: Padder(2, mode=m).forward(x, axes=())),
        "pad_axis0": ({"x": x}, lambda: Padder(0, mode=m).pad_axis(x, -1, ax[0])),
        "magnitude": ({"x": x}, lambda: EdgeFilter(e, s, same_padder="reflect").magnitude(x, ax, epsilon=eps, p=p)),
        "magnitude_valid": ({"x": x}, lambda: EdgeFilter([1.0], [1.0]).magnitude(x, ax, epsilon=eps, p=p)),
        "all_components": ({"x": x}, lambda: EdgeFilter(e, s, same_padder="zeros").all_components(x, ax)),
        "component": ({"x": x}, lambda: EdgeFilter(e, s, same_padder="zeros").component(x, ax[0], ())),
        "sobel1": ({"x": x}, lambda: Sobel().magnitude(x, ax, p=1, epsilon=eps)),
        "laplace": ({"x": x}, lambda: Laplace().forward(x, ax)),
        "log": ({"x": x}, lambda: LaplacianOfGaussian(1, 1.0).forward(x, ax)),
        "ggrad": ({"x": x}, lambda: GaussianGrad(1, 1.0).magnitude(x, ax, p=1)),
        "separable_empty": ({"x": x}, lambda: SeparablePoolNd([]).forward(x, axes=ax)),
        "separable_one": ({"x": x, "k": [1.0]}, lambda: SeparablePoolNd([1.0], 1, same_padder=m).forward(x, axes=ax)),
        "avg1": ({"x": x}, lambda: AvgPoolNd(1).forward(x, axes=ax)),
        "avg_noncounted": ({"x": x}, lambda: AvgPoolNd(c.r.choice([1, 3]), 1, count_include_pad=False, same_padder="zeros").forward(x, axes=ax)),
        "conv1": ({"x": x, "w": y}, lambda: any_conv_1d(x, y.reshape(-1)[:1], dim=ax[0], stride=1, dilation=1)),
        "unsharp": ({"x": x}, lambda: UnsharpMask(blur(), amount=c.r.choice([0, 1.0]), threshold=c.r.choice([0, 0.3, 1e9]), padder="reflect").forward(x, ax)),
        "ssim": ({"x": x, "y": y}, lambda: SSIM(AvgPoolNd(c.r.choice([1, 2, 3])), padder="reflect", use_sample_covariance=False, crop_border=c.r.random() < 0.5).forward(x, y, ax, ax, full=True)),
        "ssim_same": ({"x": x}, lambda: SSIM(SeparablePoolNd([1.0]), padder="reflect", use_sample_covariance=False).forward(x, x, ax, ax)),
        "msssim": ({"x": x, "y": y}, lambda: MS_SSIM(weights=c.r.choice([[1.0], [0.5, 0.5]]), blur=AvgPoolNd(1), padder="reflect", use_sample_covariance=False).forward(x, y, ax, ax)),
        "mse": ({"x": x, "y": y}, lambda: MSE(reduction=c.r.choice(["mean", "sum", "none"])).forward(x, y, reduce_axes=ax)),
        "psnr": ({"x": x, "y": y}, lambda: PSNR(1, c.r.choice([0.0, 1.0])).forward(x, y, reduce_axes=ax)),
        "poly": ({"x": x, "p": ce}, lambda: poly1d(x, ce)),
        "power1": ({"x": n}, lambda: safe_power(n, c.r.choice([1, 1.0, 0, 0.5, 2]))),
        "power2": ({"x": n, "e": expo}, lambda: safe_power(n, expo)),
        "outer": ({"x": x, "y": y}, lambda: outer(x, y)),
        "describe": ({"x": x}, lambda: describe(x)),
        "crop_full": ({"x": x}, lambda: random_crop(x, ax, c.r.choice([None, [None, 2], [sh[ax[0]], sh[ax[1]]]]))),
        "noise0": ({"x": x}, lambda: add_gauss_noise(x, c.r.choice([0, 0.0, 1.0]), generator=g())),
        "poisson": ({"x": x}, lambda: add_poisson_gauss_noise(x, 1.0, c.r.choice([0, 1.0]), generator=g())),
        "1to4": ({"x": one}, lambda: U.bayer_1c_to_4c(one)), "4to1": ({"x": four}, lambda: U.bayer_4c_to_1c(four)),
        "down1": ({"x": one}, lambda: U.downsample_1c_bayer_to_rgb(one, sa)), "down4": ({"x": four}, lambda: U.downsample_4c_bayer_to_rgb(four, sa)),
        "rgb1": ({"x": rgb}, lambda: U.rgb_to_1c_bayer(rgb, sa)), "rgb4": ({"x": rgb}, lambda: U.rgb_to_4c_bayer(rgb, sa)),
        "demosaic": ({"x": one32}, lambda: demosaic(one32, sa, clamp=c.r.choice([0.3, 1.0]))),
        "last_step": ({"x": one, "y": two}, lambda: last_step_demosaic(one, two, sa)),
    }
    for k in c.r.sample(sorted(calls), 12):
        args, fn = calls[k]
        with torch.no_grad():
            watch(c, "degenerate/" + k, args, fn, axes=ax, shape=sh, mode=m, e=e, s=s, p=p, eps=eps)
        c.ev("degenerate")
    # calls that raise half-way may not leave traces either
    bad = {"axes": lambda: Sobel().magnitude(x, [ax[0], nd + 3]), "kernel": lambda: SeparablePoolNd([[1.0], [1.0, 2.0, 3.0]], 1).forward(x[:1], axes=[0, 0]),
           "too_big": lambda: SeparablePoolNd([1.0] * 9, 1).forward(x, axes=ax), "shape": lambda: SSIM(AvgPoolNd(3), padder="reflect").forward(x, y[..., :2], ax, ax)}
    for k, fn in bad.items():
        watch(c, "raising/" + k, {"x": x, "y": y}, fn)
    c.note(shape=sh, axes=ax, mode=m, e=e, s=s, p=p, eps=eps)
    c.nontrivial = True


def specs(c):
    """lists, arrays and specs given to specs, ragged arrays, padders and pools"""
    from torchimage.padding import Padder
    from torchimage.padding.utils import pad_width_format
    from torchimage.pooling import SeparablePoolNd, GaussianPoolNd, AvgPoolNd
    from torchimage.filtering import EdgeFilter, GaussianGrad
    from torchimage.utils import NdSpec
    from torchimage.utils.ragged import get_ragged_ndarray, expand_ragged_ndarray
    from ..models import rag
    d = rag.data(c, c.r.randint(0, 3), uneven=0.2)
    box = {"d": d}
    watch(c, "get_ragged_ndarray", box, lambda: get_ragged_ndarray(d, strict=c.r.random() < 0.5))
    watch(c, "expand_ragged_ndarray", box, lambda: expand_ragged_ndarray(*get_ragged_ndarray(d, strict=True)[:2], new_shape=(2,)))
    c.ev("ragged_arg")
    k = c.r.choice([(), (2,), (-1,)])
    watch(c, "NdSpec", box, lambda: NdSpec(d, item_shape=k))
    pr = [[c.r.randint(0, 2), c.r.randint(0, 2)] for _ in range(c.r.randint(1, 3))]
    A, B = NdSpec(pr, item_shape=[2]), NdSpec([c.r.randint(1, 3) for _ in pr])
    one = NdSpec([c.r.randint(0, 3), 1], item_shape=[2])
    args = {"A": A, "B": B, "one": one, "pr": pr}
    watch(c, "NdSpec.ops", args, lambda: (A.map(lambda v: [q for q in v]), A.starmap(lambda a, b: (b, a)), NdSpec.zip(A, B, one), NdSpec.apply(lambda a, b: (a, b), A, B),
                                          NdSpec.agg_index_shape(A, B, one), list(A), A[0], NdSpec(A, item_shape=[2])))
    # a function that edits what it is given must not reach a list the caller kept
    c.ev("spec_arg")
    kern = [[c.r.uniform(-1, 1) for _ in range(c.r.randint(1, 3))] for _ in range(2)]
    ka = np.array([1.0, 2.0, 1.0])
    kt = torch.tensor([1.0, -1.0], dtype=torch.float64)
    st = [1, 2]
    ks, sg = [3, 5], np.array([1.0, 2.0])
    md = ["reflect", "constant"]
    cv = np.array([1.0, 2.0])
    sl = [None, 2]
    x = torch.from_numpy(c.g.random((5, 6)))
    sp = NdSpec(kern, item_shape=[-1])
    args = dict(kern=kern, ka=ka, kt=kt, st=st, ks=ks, sg=sg, md=md, cv=cv, sl=sl, x=x, sp=sp, pr=pr)

    def use():
        SeparablePoolNd(kern, st, same_padder=Padder(mode=md, constant_values=cv)).forward(x, axes=[0, 1])
        SeparablePoolNd(ka, 1).forward(x, axes=[1])
        SeparablePoolNd(kt, 1).to_filter("reflect").forward(x, axes=[1])
        SeparablePoolNd(sp, st).forward(x, axes=[1, 0])
        GaussianPoolNd(ks, sg, 0, st).forward(x, axes=[0, 1])
        AvgPoolNd(ks, st, same_padder="reflect").forward(x, axes=[0, 1])
        EdgeFilter(kt, ka, normalize=True, same_padder="reflect").magnitude(x, [0, 1])
        EdgeFilter(kern[0], ka.tolist(), normalize=True, same_padder="reflect").component(x, 0, 1)
        Padder(pr, mode="mean", stat_length=sl).forward(x, axes=None)
        Padder(pr, mode="linear_ramp", end_values=cv).forward(x, axes=None)
    r = watch(c, "specs", args, use)
    if isinstance(r, Exception):
        raise r
    w = [[c.r.randint(0, 3), c.r.randint(0, 3)] for _ in range(3)]
    flat = [1, 2, 3, 4]
    watch(c, "pad_width_format", {"w": w, "flat": flat}, lambda: (pad_width_format(w), pad_width_format(flat, "torch", "numpy", ndim=3)))
    c.ev("width_format_arg")
    c.note(d=rag.show(d), pr=pr, kern=kern)
    c.nontrivial = True


WORKLOADS = [Workload("catalogue", catalogue, 2500, 25000), Workload("degenerate", degenerate, 500, 5000), Workload("specs", specs, 500, 5000)]
