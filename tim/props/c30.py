"""C30: operations act only on their axes.

Metamorphic monitor over the operation catalogue: the same library call is made
on a transformed input (dimensions permuted and axes renamed, images stacked
along a new dimension, another memory layout, neighbours in the batch poisoned,
axes spelled differently or left out), and the result must be the transformed
result.
"""
import numpy as np
import torch

from .. import gen, ops
from ..core import Workload

RULE = "a case counts when the call has at least one batch (non-content) dimension, more than one axis or a non-trivial transformation; identity = (operation, arguments, transformation)"
NAMES = [n for n in ops.NAMES if n in ("Padder", "Padder.pad_axis", "SeparablePoolNd", "AvgPoolNd", "GaussianPoolNd", "to_filter", "any_conv_1d",
                                      "EdgeFilter.component", "EdgeFilter.all_components", "EdgeFilter.magnitude", "Laplace", "LaplacianOfGaussian",
                                      "UnsharpMask", "MSE", "PSNR", "SSIM", "MS_SSIM", "random_crop")]
REQUIRED_EVENTS = ["perm_" + n for n in NAMES] + ["stack_" + n for n in NAMES] + ["empty_batch_" + n for n in NAMES + ["demosaic", "BayerConv2d", "last_step_demosaic"]] + ["layout", "poisoned_neighbour", "default_axes", "lead_dims",
                   "notation_neg", "notation_slice", "notation_None", "notation_int", "notation_tuple", "notation_list", "notation_npint",
                   "notation_mixed", "notation_slice_neg", "notation_slice_all", "notation_negint"]
MAKERS = ops.AXES_OPS + [ops.crop]
RT = 1e-9


def per_image(name):
    return ("w",) if name == "any_conv_1d" else ()


def run(op, t, axes="default"):
    with torch.no_grad():
        return op.call(op.build(), t, axes)


def kinds(op, n):
    """which outputs lost the content axes"""
    if op.shape_kind == "reduced":
        return [True] * n
    if op.shape_kind == "ssim":
        return [True] + [False] * (n - 1)
    return [False] * n


def tens(op):
    return op.tensors()


def scale_of(y, x):
    f = lambda v: float(torch.nan_to_num(v, 0.0, 0.0, 0.0).abs().max()) if v.numel() else 0.0
    return max(1.0, f(y), f(x))


def agree(c, op, got, want, mech, t):
    for i, (g, w) in enumerate(zip(got, want)):
        c.close(g, w, f"{op.name}/{mech}", rtol=RT, scale=scale_of(w, t), out=i)
    if len(got) != len(want):
        c.fail(f"{op.name}/{mech}/count")


def pick(c, i, makers):
    return makers[i % len(makers)](c)


def permute(c):
    op = pick(c, c.index, MAKERS)
    t = tens(op)
    skip = per_image(op.name)
    main = "a" if "a" in t else "x"
    nd = t[main].ndim
    p = list(range(nd))
    c.r.shuffle(p)
    ax2 = [p.index(a) for a in op.axes]
    cont = c.r.random() < 0.5
    t2 = {k: (v if k in skip else (v.permute(p).contiguous() if cont else v.permute(p))) for k, v in t.items()}
    y, y2 = run(op, t), run(op, t2, ax2)
    want = []
    for o, red in zip(y, kinds(op, len(y))):
        if red:
            keep = [a for a in range(nd) if a not in op.axes]
            want.append(o.permute([keep.index(a) for a in p if a in keep]))
        else:
            want.append(o.permute(p))
    c.note(op=op.name, desc=op.desc, axes=op.axes, perm=p)
    c.nontrivial = nd > 1
    agree(c, op, y2, want, "permutation", t[main])
    c.ev("perm_" + op.name)


def stack(c):
    op = pick(c, c.index, MAKERS)
    t = tens(op)
    skip = per_image(op.name)
    main = "a" if "a" in t else "x"
    nd = t[main].ndim
    n = c.r.randint(2, 4)
    imgs = [t] + [{k: (v if k in skip else v.flip(c.r.randrange(nd)) + float(c.r.choice([0.0, 0.1])) * torch.from_numpy(c.g.random(tuple(v.shape))))
                   for k, v in t.items()} for _ in range(n - 1)]
    j = c.r.randint(0, nd)
    ax2 = [a + (a >= j) for a in op.axes]
    t2 = {k: (v if k in skip else torch.stack([im[k] for im in imgs], dim=j)) for k, v in t.items()}
    if c.r.random() < 0.3:
        t2 = {k: gen.layout(c, v.numpy())[0] for k, v in t2.items()}
    single = [run(op, im) for im in imgs]
    got = run(op, t2, ax2)
    want = []
    for i, red in enumerate(kinds(op, len(got))):
        jj = j - sum(a < j for a in op.axes) if red else j
        if op.name == "Padder" or not red:
            jj = j
        want.append(torch.stack([s[i] for s in single], dim=jj))
    c.note(op=op.name, desc=op.desc, axes=op.axes, at=j, n=n)
    c.nontrivial = True
    agree(c, op, got, want, "stack", t2[main])
    c.ev("stack_" + op.name)
    # hostile neighbour: the other images may not leak into this one
    if "descr" not in op.name:
        bad = c.r.choice([float("nan"), float("inf"), 1e30])
        keep = c.r.randrange(n)
        t3 = {k: v.clone() for k, v in t2.items()}
        for k, v in t3.items():
            if k not in skip:
                for m in range(n):
                    if m != keep:
                        v.select(j, m).fill_(bad)
        try:
            got3 = run(op, t3, ax2)
        except Exception as e:
            c.fail(f"{op.name}/neighbour_raises", error=repr(e)[:200])
            return
        sel = []
        for g, red in zip(got3, kinds(op, len(got3))):
            jj = j - sum(a < j for a in op.axes) if red else j
            sel.append(g.select(jj, keep))
        agree(c, op, sel, single[keep], "neighbour_leaks", imgs[keep][main])
        c.ev("poisoned_neighbour")


def layout(c):
    op = pick(c, c.index, MAKERS + ops.OTHER_OPS)
    if op.name in ("outer",):
        pass
    t = tens(op)
    t2 = {k: gen.layout(c, v.numpy(), kinds=("perm", "strided", "offset"))[0] for k, v in t.items()}
    y, y2 = run(op, t), run(op, t2)
    main = list(t)[0]
    c.note(op=op.name, desc=op.desc, strides=[list(v.stride()) for v in t2.values()])
    c.nontrivial = True
    agree(c, op, y2, y, "layout", t[main])
    c.ev("layout")


def notation(c):
    op = pick(c, c.index, MAKERS)
    t = tens(op)
    main = "a" if "a" in t else "x"
    nd = t[main].ndim
    y = run(op, t)
    if op.name in ("EdgeFilter.component", "Padder.pad_axis", "any_conv_1d"):
        ax = [a - nd if c.r.random() < 0.7 else a for a in op.axes]
        lab = "mixed"
        if op.name == "EdgeFilter.component":
            ax = [ax[0]] + ax[1:]
    else:
        lab, ax = gen.spell_axes(c, op.axes, nd)
    if op.name == "random_crop" and ax is None:
        return
    y2 = run(op, t, ax) if ax is not None else run_with_none(op, t)
    c.note(op=op.name, desc=op.desc, axes=op.axes, spelled=lab)
    c.nontrivial = True
    agree(c, op, y2, y, "notation_" + lab, t[main])
    c.ev("notation_" + lab)


def run_with_none(op, t):
    with torch.no_grad():
        r = op._call(op.build(), t, None)
        return list(r) if isinstance(r, (list, tuple)) else [r]


def default_axes(c):
    """omitted axes == the documented default"""
    from torchimage.padding import Padder
    from torchimage.pooling import SeparablePoolNd, AvgPoolNd, GaussianPoolNd
    from torchimage.filtering import Sobel, LaplacianOfGaussian, UnsharpMask, GaussianGrad, Farid
    from torchimage.metrics import MSE, PSNR, SSIM, MS_SSIM
    kind = c.r.choice(["pad", "sep", "avg", "avgnc", "gauss", "unsharp", "all", "mag", "log", "mse", "psnr", "ssim", "msssim", "smooth"])
    big = kind == "msssim"
    nd = c.r.choice([4, 4, 5]) if kind in ("pad", "sep", "avg", "avgnc", "gauss", "unsharp", "ssim", "msssim") else c.r.randint(2, 4)
    spatial = nd - 2 if nd > 3 else nd
    lo, hi = (12, 14) if big else (3, 6)
    if big and nd == 5:
        nd = 4
    if nd == 5:
        hi = 4
    shape = tuple(c.r.randint(1, 2) if (i < 2 and nd > 3) else c.r.randint(lo, hi) for i in range(nd))
    x = torch.from_numpy(c.g.random(shape))
    y = torch.clip(x + 0.1 * torch.from_numpy(c.g.standard_normal(shape)), 0, 1)
    m = c.r.choice(["reflect", "symmetric", "replicate", "zeros"])
    img = list(range(2, nd))
    everything = list(range(nd))
    ker = [round(c.r.uniform(-2, 2), 2) for _ in range(c.r.randint(2, 3))]
    w = c.r.randint(1, 3)
    p2 = lambda r: list(r) if isinstance(r, (list, tuple)) else [r]
    mk = {
        "pad": (lambda: Padder(w, mode=m), lambda o: o.forward(x), lambda o: o.forward(x, axes=img)),
        "sep": (lambda: SeparablePoolNd(ker, 1, same_padder=m), lambda o: o.forward(x), lambda o: o.forward(x, axes=img)),
        "avg": (lambda: AvgPoolNd(2, same_padder=m), lambda o: o.forward(x), lambda o: o.forward(x, axes=img)),
        "avgnc": (lambda: AvgPoolNd(3, 1, count_include_pad=False, same_padder="zeros"), lambda o: o.forward(x), lambda o: o.forward(x, axes=img)),
        "gauss": (lambda: GaussianPoolNd(3, 1.0, same_padder=m), lambda o: o.forward(x), lambda o: o.forward(x, axes=img)),
        "unsharp": (lambda: UnsharpMask(GaussianPoolNd(3, 1.0), padder=m), lambda o: o.forward(x), lambda o: o.forward(x, axes=img)),
        "all": (lambda: Sobel(same_padder=m), lambda o: o.all_components(x), lambda o: o.all_components(x, axes=everything)),
        "mag": (lambda: Farid(same_padder=m), lambda o: o.magnitude(x, epsilon=0.1), lambda o: o.magnitude(x, axes=everything, epsilon=0.1)),
        "smooth": (lambda: GaussianGrad(3, 1.0, same_padder=m), lambda o: o.component(x, 0, None), lambda o: o.component(x, 0, everything[1:])),
        "log": (lambda: LaplacianOfGaussian(3, 1.0, same_padder=m), lambda o: o.forward(x), lambda o: o.forward(x, axes=everything)),
        "mse": (lambda: MSE(), lambda o: o.forward(x, y), lambda o: o.forward(x, y, reduce_axes=everything)),
        "psnr": (lambda: PSNR(1), lambda o: o.forward(x, y), lambda o: o.forward(x, y, reduce_axes=everything)),
        "ssim": (lambda: SSIM(GaussianPoolNd(3, 1.0), padder=m), lambda o: o.forward(x, y), lambda o: o.forward(x, y, content_axes=img, reduce_axes=everything[1:])),
        "msssim": (lambda: MS_SSIM(weights=[0.5, 0.5], blur=GaussianPoolNd(3, 1.0), padder=m), lambda o: o.forward(x, y), lambda o: o.forward(x, y, content_axes=img, reduce_axes=everything[1:])),
    }[kind]
    a, b = p2(mk[1](mk[0]())), p2(mk[2](mk[0]()))
    c.note(kind=kind, shape=shape, mode=m)
    c.nontrivial = True
    for u, v in zip(a, b):
        c.close(u, v, f"default_axes/{kind}", rtol=RT)
    c.ev("default_axes")


def lead(c):
    """Bayer operations: leading dimensions are a batch"""
    k = c.index % 4
    mk = [ops.cfa, ops.bayer_conv, ops.demosaic, ops.last_step][k]
    n = c.r.randint(2, 3)
    batch = c.r.choice([(n,), (n, 2), (2, 1, 2)])
    batch = gen.many(c, batch, 0.08)
    op = mk(c, lead=batch)
    t = {a: v.float() if k == 2 else v for a, v in tens(op).items()}
    d = torch.float32 if k == 2 else torch.float64
    obj = op.build(d)
    with torch.no_grad():
        full = op.call(obj, t)
        idx = tuple(c.r.randrange(b) for b in batch)
        one = op.call(obj, {a: v[idx] for a, v in t.items()})
    c.note(op=op.name, desc=op.desc, idx=idx)
    c.nontrivial = True
    for f, o in zip(full, one):
        c.close(f[idx], o, f"{op.name}/lead", rtol=1e-5 if k == 2 else RT, scale=scale_of(o, list(t.values())[0]))
    if k != 1:
        bad = {a: torch.full_like(v, float("nan")) for a, v in t.items()}
        for a in t:
            bad[a][idx] = t[a][idx]
        with torch.no_grad():
            leak = op.call(obj, bad)
        for f, o in zip(leak, one):
            c.close(f[idx], o, f"{op.name}/lead_leak", rtol=1e-5 if k == 2 else RT, scale=scale_of(o, list(t.values())[0]))
        c.ev("poisoned_neighbour")
    c.ev("lead_dims")


def empty_batch(c):
    """a stack of no images gives a stack of no results, of the shape the others would have"""
    if c.r.random() < 0.75:
        op = pick(c, c.index, MAKERS)
        t = tens(op)
        skip = per_image(op.name)
        main = "a" if "a" in t else "x"
        nd = t[main].ndim
        j = c.r.randint(0, nd)
        single = run(op, t)
        red = kinds(op, len(single))
        got = run(op, {k: (v if k in skip else v.unsqueeze(j)[(slice(None),) * j + (slice(0, 0),)]) for k, v in t.items()}, [a + (a >= j) for a in op.axes])
        want = []
        for o, rd in zip(single, red):
            sh = list(o.shape)
            sh.insert(j - sum(a < j for a in op.axes) if rd else j, 0)
            want.append(sh)
    else:
        k = c.index % 4
        mk = [ops.cfa, ops.bayer_conv, ops.demosaic, ops.last_step][k]
        op = mk(c, lead=(1,))
        single = op.call(op.build(torch.float32), tens32(op))
        got = op.call(op.build(torch.float32), {k: v[:0] for k, v in tens32(op).items()})
        want = [[0] + list(o.shape)[1:] for o in single]
        j = 0
    c.note(op=op.name, desc=op.desc, axes=op.axes, at=j)
    c.nontrivial = True
    c.check([list(g.shape) for g in got] == want, f"{op.name}/empty_batch", got=[list(g.shape) for g in got], want=want)
    c.check(all(g.dtype == o.dtype for g, o in zip(got, single)), f"{op.name}/empty_batch_dtype")
    c.ev("empty_batch_" + op.name)


def tens32(op):
    return op.tensors(torch.float32)


WORKLOADS = [Workload("permute", permute, 1500, 20000), Workload("stack", stack, 1200, 15000), Workload("layout", layout, 900, 9000),
             Workload("notation", notation, 1200, 12000), Workload("default_axes", default_axes, 400, 4000), Workload("lead", lead, 400, 4000),
             Workload("empty_batch", empty_batch, 500, 4000)]
