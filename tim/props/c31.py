"""C31: invalid arguments are rejected.

Fault-injection monitor: a valid random call (which is also made, and must
succeed) is corrupted in exactly one argument; construction + first use must
raise and must not return a result.
"""
import numpy as np
import torch

from .. import gen, ops, padcase
from ..core import Workload
from ..models import padm

RULE = "a case counts when a valid call succeeded and at least one corrupted variant of it was judged; identity = (operation, arguments, corruption)"
FAMILIES = ["axes_range", "negative_pad", "unknown_mode", "stride", "edge_axes", "edge_kernels", "grad_axes", "list_lengths", "alignment",
            "channels", "odd_size", "few_dims", "not_a_tensor", "metric_shape", "reduction", "metric_small", "metric_axes", "crop_size", "empty_axis"]
REQUIRED_EVENTS = ["reject_" + f for f in FAMILIES] + ["valid_call"] + \
    ["axes_" + n for n in ("Padder", "Padder.pad_axis", "SeparablePoolNd", "AvgPoolNd", "GaussianPoolNd", "to_filter", "any_conv_1d", "EdgeFilter.component",
                           "EdgeFilter.all_components", "EdgeFilter.magnitude", "Laplace", "LaplacianOfGaussian", "UnsharpMask", "MSE", "PSNR",
                           "SSIM", "MS_SSIM", "random_crop")]


def reject(c, fam, what, fn, **detail):
    """fn = construction + first use"""
    c.ev("reject_" + fam)
    c.nontrivial = True
    try:
        with torch.no_grad():
            r = fn()
    except Exception:
        return True
    rs = r if isinstance(r, (list, tuple)) else [r]
    c.fail(f"accepted/{fam}/{what}", result=[list(v.shape) if torch.is_tensor(v) else repr(v)[:80] for v in rs], **detail)
    return False


def valid(c, fn):
    with torch.no_grad():
        fn()
    c.ev("valid_call")


def spell(c, ax, nd):
    opts = [list(ax), tuple(ax), [np.int64(a) for a in ax]]
    if len(ax) == 1:
        opts.append(ax[0])
    return c.r.choice(opts)


AXES_MAKERS = ops.AXES_OPS + [ops.crop]


def axes_range(c):
    op = AXES_MAKERS[c.index % len(AXES_MAKERS)](c)
    t = op.tensors()
    main = "a" if "a" in t else "x"
    nd = t[main].ndim
    valid(c, lambda: op.call(op.build(), t))
    fixed = op.name in ("EdgeFilter.component", "Padder.pad_axis", "any_conv_1d")
    for _ in range(3):
        ax = list(op.axes)
        k = c.r.randrange(len(ax))
        bad = c.r.choice([nd, nd + 1, nd + 7, -nd - 1, -nd - 2, -2 * nd, -2 * nd - 1, 10 ** 6, -10 ** 6])
        if -nd <= bad < nd:
            continue
        if not fixed and c.r.random() < 0.4:
            others = [a for a in range(nd) if a not in ax]
            c.r.shuffle(ax)
            k = c.r.randrange(len(ax))
        ax[k] = bad
        if not fixed:
            ax = spell(c, ax, nd)
        reject(c, "axes_range", op.name, lambda: op.call(op.build(), t, ax), axes=ax, nd=nd, desc=op.desc)
        c.ev("axes_" + op.name)
    c.note(op=op.name, axes=op.axes, bad=repr(ax))


def negative_pad(c):
    from torchimage.padding import Padder
    shape = gen.shape(c, lo=2)
    p = padcase.make(c, shape, padm.ALL_MODES)
    x = torch.from_numpy(gen.values(c, shape))
    valid(c, lambda: padcase.build(p).forward(x, axes=p["axes"]))
    neg = -c.r.choice([1, 1, 2, 3, 7])
    k = len(p["axes"])
    pairs = [(c.r.randint(0, 3), c.r.randint(0, 3)) for _ in range(k)]
    i = c.r.randrange(k)
    pairs[i] = c.r.choice([(neg, pairs[i][1]), (pairs[i][0], neg), (neg, neg), (neg, -neg), (-neg, neg)])
    m = c.r.choice(padm.ALL_MODES)
    mode = c.r.choice([m, [m] * k])
    for w in (neg, [neg], pairs[i], pairs, np.array(pairs), [list(q) for q in pairs]):
        reject(c, "negative_pad", "Padder", lambda: Padder(w, mode=mode).forward(x, axes=p["axes"]), width=w, mode=mode)
    c.note(shape=shape, axes=p["axes"], pairs=pairs, mode=mode)


BADMODES = ["reflection", "edge", "wrap", "same", "", "Reflect", "ZEROS", "zero", "const", "constant ", "sym", "none", "odd", "edges", "mirror", "periodic"]


def unknown_mode(c):
    from torchimage.padding import Padder
    from torchimage.pooling import SeparablePoolNd, AvgPoolNd, GaussianPoolNd
    from torchimage.filtering import Sobel, Laplace, LaplacianOfGaussian, GaussianGrad, EdgeFilter, UnsharpMask
    from torchimage.metrics import SSIM, MS_SSIM
    nd = c.r.choice([2, 3, 4])
    shape = tuple(c.r.randint(8, 10) for _ in range(nd)) if nd < 4 else (1, 2, 9, 8)
    x = torch.from_numpy(c.g.random(shape))
    ax = list(range(nd))[-2:]
    k = len(ax)
    bad = c.r.choice(BADMODES)
    ok = "reflect"
    use = {
        "Padder": lambda m: Padder(1, mode=m).forward(x, axes=ax),
        "Padder_list": lambda m: Padder([(1, 1)] * k, mode=[ok] * (k - 1) + [m]).forward(x, axes=ax),
        "Padder_list_first": lambda m: Padder(1, mode=[m] + [ok] * (k - 1)).forward(x, axes=ax),
        "Padder_zero_width": lambda m: Padder(0, mode=m).forward(x, axes=ax),
        "Padder_before": lambda m: Padder((1, 0), mode=m).forward(x, axes=ax),
        "Padder_after": lambda m: Padder((0, 1), mode=m).forward(x, axes=ax),
        "Padder.pad_axis": lambda m: Padder(2, mode=m).pad_axis(x, -1, ax[0]),
        "Separable": lambda m: SeparablePoolNd([1.0, 2.0, 1.0], 1, same_padder=m).forward(x, axes=ax),
        "Separable_padder": lambda m: SeparablePoolNd([1.0, 2.0, 1.0], 1, same_padder=Padder(mode=m)).forward(x, axes=ax),
        "Avg": lambda m: AvgPoolNd(3, 1, same_padder=m).forward(x, axes=ax),
        "Gauss": lambda m: GaussianPoolNd(3, 1.0, 0, 1, same_padder=m).forward(x, axes=ax),
        "to_filter": lambda m: AvgPoolNd(3).to_filter(m).forward(x, axes=ax),
        "Sobel": lambda m: Sobel(same_padder=m).component(x, ax[0], ax[1]),
        "EdgeFilter": lambda m: EdgeFilter([1.0, -2.0, 0.5], [1.0, 1.0], same_padder=m).magnitude(x, ax),
        "GaussianGrad": lambda m: GaussianGrad(3, 1.0, same_padder=m).all_components(x, ax),
        "Laplace": lambda m: Laplace(same_padder=m).forward(x, ax),
        "LoG": lambda m: LaplacianOfGaussian(3, 1.0, same_padder=m).forward(x, ax),
        "Unsharp": lambda m: UnsharpMask(GaussianPoolNd(3, 1.0), padder=m).forward(x, ax),
        "SSIM": lambda m: SSIM(GaussianPoolNd(3, 1.0), padder=m).forward(x, x, ax, ax),
        "MS_SSIM": lambda m: MS_SSIM([0.5, 0.5], blur=GaussianPoolNd(3, 1.0), padder=m).forward(x, x, ax, ax),
    }
    names = c.r.sample(sorted(use), 6)
    for n in names:
        valid(c, lambda: use[n](ok))
        reject(c, "unknown_mode", n, lambda: use[n](bad), mode=bad)
    odd = c.r.choice([None, 0, 3, 1.5])
    reject(c, "unknown_mode", "Padder_nonstring", lambda: Padder(1, mode=odd).forward(x, axes=ax), mode=odd)
    c.note(shape=shape, bad=bad, names=names)


def stride(c):
    from torchimage.pooling import SeparablePoolNd, AvgPoolNd, GaussianPoolNd
    from torchimage.pooling.operator import any_conv_1d
    nd = c.r.randint(1, 3)
    x = torch.from_numpy(c.g.random(tuple(c.r.randint(5, 8) for _ in range(nd))))
    ax = list(range(nd))
    bad = -c.r.choice([0, 0, 1, 2, 5])
    okl = [c.r.randint(1, 3) for _ in ax]
    badl = list(okl)
    badl[c.r.randrange(nd)] = bad
    ks = c.r.randint(1, 3)
    for n, mk in {"Separable": lambda s: SeparablePoolNd([1.0] * ks, s), "Avg": lambda s: AvgPoolNd(ks, s), "Gauss": lambda s: GaussianPoolNd(ks, 1.0, 0, s),
                  "Separable_padder": lambda s: SeparablePoolNd([[1.0] * ks for _ in ax], s, same_padder="reflect")}.items():
        valid(c, lambda: mk(okl).forward(x, axes=ax))
        reject(c, "stride", n, lambda: mk(bad).forward(x, axes=ax), stride=bad)
        reject(c, "stride", n + "_list", lambda: mk(badl).forward(x, axes=ax), stride=badl)
    reject(c, "stride", "any_conv_1d", lambda: any_conv_1d(x, torch.ones(2, dtype=x.dtype), dim=c.r.randrange(nd), stride=bad, dilation=1), stride=bad)
    c.note(shape=list(x.shape), bad=bad, badl=badl, ks=ks)


def edge(c):
    from torchimage.filtering import Sobel, Prewitt, Scharr, Farid, EdgeFilter, GaussianGrad, Laplace, LaplacianOfGaussian
    nd = c.r.randint(2, 4)
    x = torch.from_numpy(c.g.random(tuple(c.r.randint(5, 6) for _ in range(nd))))
    e, s = [c.r.uniform(-1, 1) for _ in range(3)], [c.r.uniform(0.1, 1) for _ in range(c.r.randint(1, 3))]
    mk = c.r.choice([Sobel, Prewitt, Scharr, Farid, lambda: GaussianGrad(3, 1.0), lambda: EdgeFilter(e, s, same_padder="reflect"), lambda: EdgeFilter(e, s)])
    ax = c.r.sample(range(nd), 2)
    valid(c, lambda: mk().component(x, ax[0], ax[1]))
    two = c.r.choice([ax, tuple(ax), [a - nd for a in ax], [], None, slice(None), slice(0, 0)])
    reject(c, "edge_axes", "component", lambda: mk().component(x, two, ax[1]), edge_axis=repr(two))
    one = c.r.choice([ax[0], [ax[0]], (ax[1] - nd,), [], slice(0, 1), slice(0, 0)])
    reject(c, "grad_axes", "all_components", lambda: mk().all_components(x, one), axes=repr(one))
    reject(c, "grad_axes", "magnitude", lambda: mk().magnitude(x, one), axes=repr(one))
    reject(c, "grad_axes", "Laplace", lambda: Laplace().forward(x, one), axes=repr(one))
    reject(c, "grad_axes", "LoG", lambda: LaplacianOfGaussian(3, 1.0).forward(x, one), axes=repr(one))
    ek = [[c.r.uniform(-1, 1) for _ in range(c.r.choice([3, 3, 2]))] for _ in range(c.r.randint(1, 3))]
    reject(c, "edge_kernels", "EdgeFilter", lambda: EdgeFilter(ek, s, same_padder="reflect").component(x, ax[0], ax[1]), edge_kernel=ek)
    if len(set(map(len, ek))) == 1:
        reject(c, "edge_kernels", "EdgeFilter_array", lambda: EdgeFilter(np.array(ek), s, same_padder="reflect").component(x, ax[0], ax[1]), edge_kernel=ek)
    reject(c, "edge_kernels", "GaussianGrad", lambda: GaussianGrad([3, 5], 1.0).component(x, ax[0], ax[1]))
    reject(c, "edge_kernels", "GaussianGrad_sigma", lambda: GaussianGrad(3, [1.0, 2.0]).component(x, ax[0], ax[1]))
    c.note(shape=list(x.shape), two=repr(two), one=repr(one), ek=ek)


def list_lengths(c):
    from torchimage.padding import Padder
    from torchimage.pooling import SeparablePoolNd, AvgPoolNd, GaussianPoolNd
    from torchimage.filtering import EdgeFilter, UnsharpMask
    from torchimage.metrics import SSIM
    from torchimage.random import random_crop
    nd = c.r.randint(2, 4)
    x = torch.from_numpy(c.g.random(tuple(c.r.randint(6, 7) for _ in range(nd))))
    k = c.r.randint(2, nd)
    ax = sorted(c.r.sample(range(nd), k))
    bad = c.r.choice([n for n in (k - 1, k + 1, k + 2) if n >= 1])
    ks = lambda n: [c.r.randint(1, 3) for _ in range(n)]
    ke = lambda n: [[c.r.uniform(-1, 1) for _ in range(c.r.randint(1, 3))] for _ in range(n)]
    modes = lambda n: [c.r.choice(["reflect", "zeros", "symmetric"]) for _ in range(n)]
    R = lambda what, fn: reject(c, "list_lengths", what, fn, k=k, bad=bad)
    valid(c, lambda: SeparablePoolNd(ke(k), ks(k), same_padder=Padder(mode=modes(k))).forward(x, axes=ax))
    valid(c, lambda: GaussianPoolNd(ks(k), [1.0] * k, [0] * k, ks(k)).forward(x, axes=ax))
    # lists against each other (unequal lengths, both longer than one item or not)
    o = c.r.choice([n for n in (1, 2, 3, 4) if n != bad])
    R("Padder_width_mode", lambda: Padder([(1, 1)] * bad, mode=modes(o)).forward(x, axes=ax))
    R("Padder_cv_mode", lambda: Padder(1, mode=["constant"] * bad, constant_values=[(0, 1)] * o).forward(x, axes=ax))
    R("Padder_ev", lambda: Padder([(1, 1)] * bad, mode="linear_ramp", end_values=[(0, 1)] * o).forward(x, axes=ax))
    R("Padder_sl", lambda: Padder(1, mode=["mean"] * bad, stat_length=[(1, 1)] * o).forward(x, axes=ax))
    # a one-item list is a list too
    big = c.r.randint(2, k + 1)
    R1 = lambda what, fn: reject(c, "list_lengths", what, fn, k=k, long=big)
    one = c.r.random() < 0.5
    la, lb = (1, big) if one else (big, 1)
    R1("one_item_width_mode", lambda: Padder([(1, 1)] * la, mode=modes(lb)).forward(x, axes=ax))
    R1("one_item_cv", lambda: Padder([(1, 1)] * la, mode="constant", constant_values=[(0, 1)] * lb).forward(x, axes=ax))
    R1("one_item_kernel_stride", lambda: SeparablePoolNd(ke(la), ks(lb)).forward(x, axes=ax))
    R1("one_item_avg_stride", lambda: AvgPoolNd(ks(la), ks(lb)).forward(x, axes=ax))
    R1("one_item_gauss_sigma", lambda: GaussianPoolNd(ks(la), [1.0] * lb).forward(x, axes=ax))
    R1("one_item_gauss_order", lambda: GaussianPoolNd(3, [1.0] * la, [0] * lb).forward(x, axes=ax))
    R1("one_item_kernel_axes", lambda: SeparablePoolNd(ke(1)).forward(x, axes=ax))
    R1("one_item_stride_axes", lambda: SeparablePoolNd([1.0, 2.0], ks(1)).forward(x, axes=ax))
    R("kernel_stride", lambda: SeparablePoolNd(ke(bad), ks(o)).forward(x, axes=ax))
    R("avg_stride", lambda: AvgPoolNd(ks(bad), ks(o)).forward(x, axes=ax))
    R("gauss_sigma", lambda: GaussianPoolNd(ks(bad), [1.0] * o).forward(x, axes=ax))
    R("gauss_order", lambda: GaussianPoolNd(3, [1.0] * bad, [0] * o).forward(x, axes=ax))
    # lists against the number of axes
    R("kernel_axes", lambda: SeparablePoolNd(ke(bad)).forward(x, axes=ax))
    R("stride_axes", lambda: SeparablePoolNd([1.0, 2.0], ks(bad)).forward(x, axes=ax))
    R("kernel_axes_padder", lambda: SeparablePoolNd(ke(bad), 1, same_padder="reflect").forward(x, axes=ax))
    R("padder_axes", lambda: SeparablePoolNd([1.0, 2.0], 1, same_padder=Padder(mode=modes(bad))).forward(x, axes=ax))
    R("avg_axes", lambda: AvgPoolNd(ks(bad)).forward(x, axes=ax))
    R("avg_noncounted_axes", lambda: AvgPoolNd(ks(bad), 1, count_include_pad=False, same_padder="zeros").forward(x, axes=ax))
    R("gauss_axes", lambda: GaussianPoolNd(ks(bad), 1.0).forward(x, axes=ax))
    R("smooth_axes", lambda: EdgeFilter([1.0, -1.0], ke(bad + 1), same_padder="reflect").component(x, ax[0], ax[1:]) if bad + 1 != k - 1 else 1 / 0)
    R("unsharp_axes", lambda: UnsharpMask(AvgPoolNd(ks(bad)), padder="reflect").forward(x, axes=ax))
    R("ssim_axes", lambda: SSIM(AvgPoolNd(ks(bad)), padder="reflect").forward(x, x, ax, ax))
    R("crop", lambda: random_crop(x, ax, [2] * bad))
    c.note(shape=list(x.shape), axes=ax, bad=bad, other=o)


BADSA = ["RGBG", "GGRB", "RBGG", "RGG", "RGGBB", "", "XYZW", "RRGB", "GRGB", "BGRG", "RG GB", None, 3, ["R", "G", "G", "B"], "RGGA", b"RGGB",
         " RGGB", "RGGB ", "RGGB\n", " BGGR ", "GR-BG", "GB/RG", "R,G,G,B", "rg_gb", "RGGBRGGB", "BGGR0", "\uff32\uff27\uff27\uff22", "RGG", "GG", "BAYER_RGGB", 0, ("RGGB",)]


def bayer(c):
    from torchimage.cfa import utils as U
    from torchimage.cfa.bayer_conv import BayerConv2d, demosaic, last_step_demosaic
    from torchimage.cfa.bayer_conv.bayer_conv_2d import BayerConv2dUnshuffle
    lead = tuple(c.r.randint(1, 2) for _ in range(c.r.choice([0, 1])))
    h, w = 2 * c.r.randint(2, 4), 2 * c.r.randint(2, 4)
    sa = c.r.choice(ops.SA)
    T = lambda ch, hh=h, ww=w: torch.from_numpy(c.g.random(lead + (ch, hh, ww))).float()
    oh, ow = c.r.choice([(h + 1, w), (h, w + 1), (h + 1, w + 1), (3, w), (h, 3), (3, 3), (h - 1, w), (5, 5), (5, w)])
    cin = c.r.randint(1, 2)
    conv, unsh = BayerConv2d(cin, 2, 3, True), BayerConv2dUnshuffle(cin, 2, 3, False)
    fns = {   # name -> (channels, function, checks odd)
        "rgb_to_1c": (3, lambda x, s: U.rgb_to_1c_bayer(x, s), True), "rgb_to_4c": (3, lambda x, s: U.rgb_to_4c_bayer(x, s), True),
        "1c_to_4c": (1, lambda x, s: U.bayer_1c_to_4c(x), True), "4c_to_1c": (4, lambda x, s: U.bayer_4c_to_1c(x), False),
        "down_1c": (1, lambda x, s: U.downsample_1c_bayer_to_rgb(x, s), True), "down_4c": (4, lambda x, s: U.downsample_4c_bayer_to_rgb(x, s), False),
        "demosaic": (1, lambda x, s: demosaic(x, s), True), "BayerConv2d": (cin, lambda x, s: conv(x, s), True),
        "forward_unshuffle": (cin, lambda x, s: conv.forward_unshuffle(x, s), True), "BayerConv2dUnshuffle": (cin, lambda x, s: unsh(x, s), True),
        "last_step": (1, lambda x, s: last_step_demosaic(x, torch.zeros(x.shape[:-3] + (2,) + x.shape[-2:]), s), True),
    }
    bad = c.r.choice(BADSA) if c.r.random() < 0.7 else "".join(c.r.choice("RGBrgb") for _ in range(4))
    if isinstance(bad, str) and bad.upper() in ("RGGB", "BGGR", "GRBG", "GBRG"):
        bad = "RGBG"
    for n, (ch, f, odd) in fns.items():
        valid(c, lambda: f(T(ch), sa))
        if "1c_to_4c" != n and "4c_to_1c" != n:
            reject(c, "alignment", n, lambda: f(T(ch), bad), sa=repr(bad))
        wrong = c.r.choice([v for v in (1, 2, 3, 4, 5) if v != ch])
        reject(c, "channels", n, lambda: f(T(wrong), sa), channels=wrong, shape=[h, w])
        if odd:
            reject(c, "odd_size", n, lambda: f(T(ch, oh, ow), sa), size=[oh, ow])
        reject(c, "few_dims", n, lambda: f(torch.zeros(c.r.choice([(h, w), (h,), ()])), sa))
        if n not in ("last_step",):
            reject(c, "not_a_tensor", n, lambda: f(c.r.choice([np.zeros(lead + (ch, h, w), np.float32), [[0.0]], None]), sa))
    yc = c.r.choice([1, 3, 4])
    reject(c, "channels", "last_step_y", lambda: last_step_demosaic(T(1), T(yc), sa), y_channels=yc)
    reject(c, "channels", "last_step_size", lambda: last_step_demosaic(T(1), T(2, h + 2, w), sa))
    reject(c, "channels", "last_step_batch", lambda: last_step_demosaic(T(1), T(2).unsqueeze(0), sa))
    c.note(lead=lead, h=h, w=w, sa=sa, bad=repr(bad), odd=(oh, ow), yc=yc, cin=cin)


def metrics(c):
    from torchimage.metrics import MSE, PSNR, SSIM, MS_SSIM
    from torchimage.pooling import GaussianPoolNd, AvgPoolNd
    n, ch, h, w = c.r.randint(2, 3), c.r.randint(2, 3), c.r.randint(8, 10), c.r.randint(8, 10)
    sh = (n, ch, h, w)
    x = torch.from_numpy(c.g.random(sh))
    blur = lambda: c.r.choice([lambda: GaussianPoolNd(3, 1.0), lambda: AvgPoolNd(3)])()
    use = {"MSE": lambda a, b, **k: MSE().forward(a, b, **k), "PSNR": lambda a, b, **k: PSNR(1.0).forward(a, b, **k),
           "SSIM": lambda a, b, **k: SSIM(blur(), padder="reflect").forward(a, b, **k),
           "MS_SSIM": lambda a, b, **k: MS_SSIM([0.5, 0.5], blur=blur(), padder="reflect").forward(a, b, **k)}
    bads = [(1, ch, h, w), (n, 1, h, w), (ch, h, w), (n, ch, h, 1), (n, ch, 1, w), (1, 1, 1, 1), (n, ch, h, w - 1), (n, ch, w + 1, h), (1, n, ch, h, w), (n, ch, h, w, 1)]
    b = c.r.choice(bads)
    if b == sh:
        b = (1, ch, h, w)
    y = torch.from_numpy(c.g.random(b))
    for k, f in use.items():
        valid(c, lambda: f(x, x * 0.9))
        reject(c, "metric_shape", k, lambda: f(x, y), shapes=[sh, b])
        reject(c, "metric_shape", k + "_swapped", lambda: f(y, x), shapes=[b, sh])
        ax = c.r.choice([[4], [2, 4], [-5], (0, 1, 2, 3, 4), [17], 4, -5])
        reject(c, "metric_axes", k, lambda: f(x, x * 0.9, reduce_axes=ax), axes=ax)
        if "SSIM" in k:
            reject(c, "metric_axes", k + "_content", lambda: f(x, x * 0.9, content_axes=ax), axes=ax)
    red = c.r.choice(["max", "Mean", "", None, "average", 1])
    reject(c, "reduction", "MSE", lambda: MSE(reduction=red).forward(x, x), reduction=red)
    reject(c, "reduction", "PSNR", lambda: PSNR(1.0, reduction=red).forward(x, x * 0.9), reduction=red)
    lv, ks = c.r.randint(2, 4), c.r.randint(2, 5)
    # level images no larger than the window
    size = c.r.randint(1, ks * 2 ** (lv - 1))
    big = 64
    s2 = c.r.choice([(1, 1, size, big), (1, 1, big, size), (1, 1, size, size)])
    z = torch.from_numpy(c.g.random(s2))
    reject(c, "metric_small", "MS_SSIM", lambda: MS_SSIM([1.0 / lv] * lv, blur=GaussianPoolNd(ks, 1.0), padder="reflect").forward(z, z), shape=s2, ks=ks, levels=lv)
    reject(c, "metric_small", "blur", lambda: SSIM(c.r.choice(["gauss", "box", "median"]), padder="reflect").forward(x, x))
    c.note(sh=sh, b=b, red=repr(red), s2=s2, lv=lv, ks=ks)


def crop(c):
    from torchimage.random import random_crop
    op = ops.crop(c)
    x = op.tensors()["x"]
    valid(c, lambda: op.call(op.build(), {"x": x}))
    ax = op.axes
    k = c.r.randrange(len(ax))
    size = [c.r.choice([None, c.r.randint(1, x.shape[a])]) for a in ax]
    bad = x.shape[ax[k]] + c.r.choice([1, 1, 2, 5])
    neg = -c.r.randint(1, 3)
    for v in (bad, neg):
        s = list(size)
        s[k] = v
        reject(c, "crop_size", "too_long" if v > 0 else "negative", lambda: random_crop(x, ax, s), size=s, shape=list(x.shape), axes=ax)
    reject(c, "crop_size", "scalar", lambda: random_crop(x, ax, max(x.shape[a] for a in ax) + 1))
    c.note(shape=list(x.shape), axes=ax, bad=bad)


def empty_axis(c):
    """there is nothing to extend along an axis of length 0, except by constants"""
    from torchimage.padding import Padder
    nd = c.r.randint(1, 3)
    shape = [c.r.randint(1, 4) for _ in range(nd)]
    ax = c.r.randrange(nd)
    mode = c.r.choice([m for m in padm.ALL_MODES if m not in padm.CONST_MODES])
    w = c.r.choice([(0, 1), (1, 0), (1, 1), (3, 2), 2])
    valid(c, lambda: Padder(w, mode=mode).forward(torch.zeros(shape, dtype=torch.float64), axes=ax))
    shape[ax] = 0
    x = torch.zeros(shape, dtype=torch.float64)
    axn = ax - nd if c.r.random() < 0.5 else ax
    reject(c, "empty_axis", "forward", lambda: Padder(w, mode=mode).forward(x, axes=axn), mode=mode, width=w, shape=shape)
    reject(c, "empty_axis", "pad_axis", lambda: Padder(w, mode=mode).pad_axis(x, -1, axn), mode=mode, width=w, shape=shape)
    if nd > 1:
        axes = c.r.sample([a for a in range(nd) if a != ax], c.r.randint(1, nd - 1))
        axes.insert(c.r.randint(0, len(axes)), ax)
        modes = [c.r.choice(padm.ALL_MODES) for _ in axes]
        modes[axes.index(ax)] = mode
        reject(c, "empty_axis", "forward_nd", lambda: Padder(w, mode=modes).forward(x, axes=axes), modes=modes, width=w, shape=shape, axes=axes)
    c.note(shape=shape, ax=ax, mode=mode, w=w)


WORKLOADS = [Workload("axes_range", axes_range, 900, 9000), Workload("negative_pad", negative_pad, 300, 3000), Workload("unknown_mode", unknown_mode, 250, 2500),
             Workload("stride", stride, 250, 2500), Workload("edge", edge, 250, 2500), Workload("list_lengths", list_lengths, 250, 2500),
             Workload("bayer", bayer, 250, 2500), Workload("metrics", metrics, 200, 2000), Workload("crop", crop, 200, 2000),
             Workload("empty_axis", empty_axis, 300, 3000)]
