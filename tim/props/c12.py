"""C12: edge components correlate the edge kernel on one axis and smooth the others."""
import numpy as np
import torch

from .. import gen
from ..core import Workload
from ..models import corr, padm
from .c10 import kernel as gk

RULE = "a case counts when the edge kernel has more than one tap; identity = (workload, filter, kernels, normalize, padder, shape, axes)"
REQUIRED_EVENTS = ["filter_" + f for f in ("Sobel", "Prewitt", "Scharr", "Farid", "GaussianGrad", "custom")] + [
    "horizontal", "vertical", "all_components", "normalized", "no_padder", "default_padder", "smooth_none", "near_discrete_kernel", "exact_discrete_kernel",
    "per_axis_smooth", "edge_axis_among_smooth", "edge_axis_among_smooth_per_axis", "edge_only_any_mode", "one_filter_many_images", "repeated_smooth_axis", "nearly_discrete_constant", "narrow_kernels_normalized", "narrow_kernels"]

# padding modes that are linear operators, so that the order of padding and filtering of different axes is immaterial
LINEAR = padm.COPY_MODES[:2] + ["symmetric", "antisymmetric", "reflect", "odd_reflect", "odd_symmetric", "smooth", "zeros", "mean", "linear_ramp", "constant"]

FARID_S = [0.0376593171958126, 0.249153396177344, 0.426374573253687, 0.249153396177344, 0.0376593171958126]
FARID_E = [-0.109603762960254, -0.276690988455557, 0, 0.276690988455557, 0.109603762960254]

# no padding, or padding that grows with the distance and with it the rounding
UNBOUNDED = (None, "smooth", "odd_reflect", "odd_symmetric")


def padded(x, axes, ks, mode):
    if mode is None:
        return x
    w = [corr.same_width(k, 1, x.shape[a]) if k else (0, 0) for a, k in zip(axes, ks)]
    return padm.padn(x, [dict(axis=a, before=b, after=e, mode=mode) for a, (b, e) in zip(axes, w)])


def component(x, ea, sa, ek, sk, mode):
    """sk: list of kernels, one per smooth axis"""
    y = corr.dense(padded(x, [ea], [len(ek)], mode), [ea], [ek], [1])
    if sa:
        y = corr.dense(padded(y, sa, [len(k) for k in sk], mode), sa, sk, [1] * len(sa))
    return y


def make_filter(c, n_smooth=None, only=None):
    """-> (factory, edge kernel, smooth kernel(s) [shared list or list of lists], mode, description)"""
    from torchimage.filtering import EdgeFilter, Sobel, Prewitt, Scharr, Farid, GaussianGrad
    from torchimage.padding import Padder
    f = only or c.r.choice(["Sobel", "Prewitt", "Scharr", "Farid", "GaussianGrad", "custom", "custom", "custom"])
    mode = c.r.choice(LINEAR + ["default", None])
    pk = {}
    if mode == "default":
        mode = "reflect" if f != "custom" else None
        c.ev("default_padder" if f != "custom" else "no_padder")
    else:
        pk["same_padder"] = mode if mode is None or c.r.random() < 0.5 else "P"
        if mode is None:
            c.ev("no_padder")
    mkpad = lambda: {} if not pk else dict(same_padder=Padder(mode=mode) if pk["same_padder"] == "P" else pk["same_padder"])
    nrm = c.r.random() < 0.5
    if f == "GaussianGrad":
        ks, s, eo = c.r.choice([1, 2, 3, 3, 4, 5, 5, 6, 7]), round(c.r.uniform(0.5, 2), 2), c.r.choice([0, 1, 1, 1, 2, 2, 3])
        if mode not in UNBOUNDED and c.r.random() < 0.04:
            ks, s = c.r.randint(8, 60), round(c.r.uniform(0.5, 12), 2)
            c.ev("wide_kernel")
        eks, es = c.r.choice([(None, None), (c.r.choice([2, 3, 4, 5]), None), (None, round(c.r.uniform(0.5, 2), 2))])
        nk = {} if c.r.random() < 0.5 else {"normalize": nrm}
        if n_smooth and c.r.random() < 0.35:      # smoothing kernels per axis
            kl = [c.r.randint(1, 6) for _ in range(n_smooth)] if c.r.random() < 0.7 else c.r.randint(1, 6)
            sl = [round(c.r.uniform(0.5, 2), 2) for _ in range(n_smooth)] if c.r.random() < 0.7 or not isinstance(kl, list) else s
            ek_, es_ = eks or c.r.choice([1, 3, 4, 5]), es or s
            mk = lambda: GaussianGrad(kl, sl, edge_kernel_size=ek_, edge_sigma=es_, edge_order=eo, **nk, **mkpad())
            c.ev("per_axis_smooth")
            at = lambda v, i: v[i] if isinstance(v, list) else v
            return (mk, gk(ek_, es_, eo), [list(gk(at(kl, i), at(sl, i), 0)) for i in range(n_smooth)], mode,
                    dict(f=f, ks=kl, s=sl, eo=eo, eks=ek_, es=es_, mode=mode, per=True))
        mk = lambda: GaussianGrad(ks, s, edge_kernel_size=eks, edge_sigma=es, edge_order=eo, **nk, **mkpad())
        return mk, gk(eks or ks, es or s, eo), gk(ks, s, 0), mode, dict(f=f, ks=ks, s=s, eo=eo, eks=eks, es=es, mode=mode)
    if f == "custom":
        q = c.r.random()
        if q < 0.2:
            ek = c.r.choice([[-1, 0, 1], [1, -2, 1], [-1.0, 0.0, 1.0], [1.0, -2.0, 1.0]])
            c.ev("exact_discrete_kernel")
        elif q < 0.5:
            base = c.r.choice([[-1, 0, 1], [1, -2, 1]])
            ek = [v + (1 if v > 0 else -1 if v < 0 else c.r.choice([-1, 1])) * round(c.r.uniform(0.01, 0.95), 3) * c.r.choice([0, 1, 1]) for v in base]
            if ek == base:
                ek[c.r.randrange(3)] += 0.5
            c.ev("near_discrete_kernel")
        elif q < 0.53:
            base = c.r.choice([[-1, 0, 1], [1, -2, 1]])
            ek = [v + c.r.uniform(-1, 1) * 10.0 ** c.r.uniform(-9, -2) * c.r.choice([0, 1, 1]) for v in base]
            c.ev("nearly_discrete_kernel")
        elif q < 0.6:
            base = c.r.choice([[-1, 0, 1], [1, -2, 1]])
            ek = c.r.choice([base + [0], [0] + base, [v * 2 for v in base], base[::-1], [-v for v in base], base[:2]])
            c.ev("near_discrete_kernel")
        else:
            ek = [round(c.r.uniform(-2, 2), 3) for _ in range(c.r.randint(1, 6))]
        wide = mode not in UNBOUNDED and c.r.random() < 0.04
        if wide:
            c.ev("wide_kernel")
            if c.r.random() < 0.5:
                ek = [round(c.r.uniform(-2, 2), 3) for _ in range(c.r.randint(8, 60))]
        one = lambda: [round(c.r.uniform(0.1, 3), 3) * c.r.choice([1, 1, 1, -0.2]) for _ in range(c.r.randint(8, 60) if wide else c.r.choice([0, 1, 2, 3, 3, 4, 5]))]
        per = n_smooth and c.r.random() < 0.4
        sk = [one() for _ in range(n_smooth)] if per else one()
        if nrm and any(abs(sum(k)) < 0.05 for k in (sk if per else [sk]) ):
            nrm = False
        spell = c.r.choice([list, tuple, np.array])
        if spell is np.array and per:
            spell = list
        if c.r.random() < 0.12:
            # narrow number types holding the taps exactly, with sums they cannot hold
            ek = [float(np.float16(v)) for v in ek]
            sk = [[float(np.float16(v)) for v in k] for k in sk] if per else [float(np.float16(v)) for v in sk]
            t = c.r.choice([np.float16, np.float32])
            spell, c_edge = (lambda v: [np.array(k, dtype=t) for k in v] if per else np.array(v, dtype=t)), (lambda v: np.array(v, dtype=t))
            if not per and len(sk) and c.r.random() < 0.4:
                k8 = c.r.random() < 0.5
                sk = [c.r.randint(60, 127) if k8 else c.r.choice([40000.0, 60000.0, 50016.0]) for _ in sk]
                spell = (lambda v: np.array(v, dtype=c.r.choice([np.int8, np.uint8]) if k8 else np.float16))
            if nrm and any(abs(sum(k)) < 0.05 for k in (sk if per else [sk])):
                nrm = False
            c.ev("narrow_kernels_normalized" if nrm else "narrow_kernels")
        else:
            c_edge = c.r.choice([list, tuple, np.array])
        e2 = c_edge(ek)
        s2 = spell(sk)
        nm = (lambda k: (np.array(k) / np.sum(k)).tolist()) if nrm else (lambda k: k)
        mk = lambda: EdgeFilter(e2, s2, normalize=nrm, **mkpad())
        eff = [nm(k) for k in sk] if per else nm(sk)
        if per:
            c.ev("per_axis_smooth")
        if nrm:
            c.ev("normalized")
        return mk, ek, eff, mode, dict(f=f, edge=ek, smooth=sk, normalize=nrm, mode=mode, per=bool(per))
    cls = dict(Sobel=Sobel, Prewitt=Prewitt, Scharr=Scharr, Farid=Farid)[f]
    ek, sk = {"Sobel": ([-1, 0, 1], [1, 2, 1]), "Prewitt": ([-1, 0, 1], [1, 1, 1]), "Scharr": ([-1, 0, 1], [3, 10, 3]), "Farid": (FARID_E, FARID_S)}[f]
    nk = {} if not nrm and c.r.random() < 0.5 else {"normalize": nrm}
    if nrm:
        sk = (np.array(sk) / np.sum(sk)).tolist()
        c.ev("normalized")
    mk = lambda: cls(**nk, **mkpad())
    return mk, ek, sk, mode, dict(f=f, normalize=nrm, mode=mode)


def shape_for(c, nd_lo, ek, sk, mode):
    """room for the kernels when nothing is padded"""
    need = max([len(ek)] + [len(k) for k in (sk if len(sk) and isinstance(sk[0], list) else [sk])])
    lo = 1 if mode is not None else need
    return gen.shape(c, ndim_lo=nd_lo, ndim_hi=4, lo=lo, hi=max(lo + 2, 7), max_elems=1500)


def scale(a, ek, sk, n):
    s = np.abs(a).max() + 1
    s *= max(1, np.abs(ek).sum())
    for k in (sk if len(sk) and isinstance(sk[0], (list, np.ndarray)) else [sk] * n):
        s *= max(1, np.abs(k).sum() if len(k) else 1)
    return s * 4


def comp(c):
    ns = c.r.randint(0, 3)
    mk, ek, sk, mode, d = make_filter(c, n_smooth=ns)
    shp = shape_for(c, ns + 1, ek, sk, mode)
    nd = len(shp)
    axes = c.r.sample(range(nd), ns + 1)
    ea, sa = axes[0], axes[1:]
    per = d.get("per")
    if not per and c.r.random() < 0.25:
        note, sa = None, [i for i in range(nd) if i != ea]
        c.ev("smooth_none")
    elif sa and c.r.random() < 0.3:
        note = list(sa)           # the edge axis among the smooth axes is ignored
        note.insert(c.r.randint(0, len(note)), ea)
        note = gen.spell_axes(c, note, nd)[1]
        c.ev("edge_axis_among_smooth")
        if per:
            c.ev("edge_axis_among_smooth_per_axis")
    else:
        note = gen.spell_axes(c, sa, nd)[1] if sa else c.r.choice([(), []])
    a = gen.values(c, shp)
    x, lay = gen.layout(c, a)
    c.note(shape=shp, edge_axis=ea, smooth_axes=sa, **d)
    c.ev("filter_" + d["f"])
    c.nontrivial = len(ek) > 1
    sks = sk if per else [sk] * len(sa)
    f = mk()
    y = f.component(x, edge_axis=c.r.choice([ea, ea - nd, (ea,), [ea - nd]]), smooth_axes=note)
    c.close(y, component(a, ea, sa, ek, sks, mode), "component/" + d["f"], "component", rtol=1e-11, scale=scale(a, ek, sk, len(sa)))
    if c.r.random() < 0.3:
        # the same filter object on another image, after the first one
        shp2 = tuple(max(v, 1) + c.r.randint(0, 3) for v in shp)
        a2 = gen.values(c, shp2)
        y = f.component(torch.from_numpy(a2), edge_axis=ea, smooth_axes=note)
        c.close(y, component(a2, ea, sa, ek, sks, mode), "component_again/" + d["f"], "one_filter_many_images", rtol=1e-11, scale=scale(a2, ek, sk, len(sa)))


def hv(c):
    mk, ek, sk, mode, d = make_filter(c)
    shp = shape_for(c, 2, ek, sk, mode)
    a = gen.values(c, shp)
    x, lay = gen.layout(c, a)
    n = len(shp)
    c.note(shape=shp, layout=lay, **d)
    c.nontrivial = len(ek) > 1
    c.ev("filter_" + d["f"])
    f = mk()
    sc = scale(a, ek, sk, 1)
    c.close(f.horizontal(x), component(a, n - 2, [n - 1], ek, [sk], mode), "horizontal", "horizontal", rtol=1e-11, scale=sc)
    c.close(f.vertical(x), component(a, n - 1, [n - 2], ek, [sk], mode), "vertical", "vertical", rtol=1e-11, scale=sc)


def all_comp(c):
    ns = c.r.randint(1, 3)
    mk, ek, sk, mode, d = make_filter(c, n_smooth=ns)
    shp = shape_for(c, ns + 1, ek, sk, mode)
    n = len(shp)
    axes = gen.axes_subset(c, n, kmin=ns + 1, kmax=ns + 1)
    a = gen.values(c, shp)
    c.note(shape=shp, axes=axes, **d)
    c.nontrivial = len(ek) > 1
    c.ev("filter_" + d["f"])
    r = mk().all_components(torch.from_numpy(a), axes=gen.spell_axes(c, axes, n)[1])
    c.ev("all_components")
    if not c.check(len(r) == len(axes), "all_components/count", got=len(r)):
        return
    for y, ea in zip(r, axes):
        sa = [i for i in axes if i != ea]
        c.close(y, component(a, ea, sa, ek, sk if d.get("per") else [sk] * len(sa), mode), "all_components", rtol=1e-11, scale=scale(a, ek, sk, len(sa)), axis=ea)


def edge_only(c):
    """no smoothing: the padding mode may be anything"""
    from torchimage.filtering import EdgeFilter
    mode = c.r.choice([m for m in padm.ALL_MODES if m != "periodize"])
    ek = c.r.choice([[-1, 0, 1], [1, -2, 1], [round(c.r.uniform(-2, 2), 2) for _ in range(c.r.randint(1, 6))]])
    shp = gen.shape(c, ndim_hi=4)
    ea = c.r.randrange(len(shp))
    a = gen.values(c, shp)
    c.note(shape=shp, ea=ea, edge=ek, mode=mode)
    c.nontrivial = len(ek) > 1
    y = EdgeFilter(ek, [1, 2, 1], same_padder=mode).component(torch.from_numpy(a), edge_axis=ea, smooth_axes=())
    c.close(y, component(a, ea, [], ek, [], mode), "edge_only/" + mode, "edge_only_any_mode", rtol=1e-11, scale=scale(a, ek, [1], 0) * 4)


def repeated(c):
    """a smooth axis listed more than once is smoothed that often (no padding)"""
    from torchimage.filtering import EdgeFilter
    ek = c.r.choice([[-1, 0, 1], [1, -2, 1], [round(c.r.uniform(-2, 2), 2) for _ in range(c.r.randint(1, 4))]])
    one = lambda: [round(c.r.uniform(0.1, 2), 2) for _ in range(c.r.randint(1, 3))]
    shp = gen.shape(c, ndim_lo=2, ndim_hi=4, lo=9, hi=11, max_elems=1500)
    nd = len(shp)
    ea = c.r.randrange(nd)
    rest = [i for i in range(nd) if i != ea]
    sa = [c.r.choice(rest) for _ in range(c.r.randint(1, 2))]
    sa.insert(c.r.randint(0, len(sa)), sa[0])
    sk = [one() for _ in sa] if c.r.random() < 0.4 else one()
    sks = sk if isinstance(sk[0], list) else [sk] * len(sa)
    if any(shp[i] < 9 for i in [ea] + sa):
        return
    note = list(sa)
    if c.r.random() < 0.3:
        note.insert(c.r.randint(0, len(note)), ea)
    a = gen.values(c, shp)
    c.note(shape=shp, ea=ea, smooth_axes=note, ek=ek, sk=sk)
    c.nontrivial = True
    y = EdgeFilter(ek, sk).component(torch.from_numpy(a), edge_axis=ea, smooth_axes=[i - nd if c.r.random() < 0.3 else i for i in note])
    e = corr.dense(a, [ea], [ek], [1])
    for i, k in zip(sa, sks):
        e = corr.dense(e, [i], [k], [1])
    c.close(y, e, "repeated_smooth_axis", "repeated_smooth_axis", rtol=1e-11, scale=scale(a, ek, sk, len(sa)))


def nearly(c):
    """an edge kernel a hair away from a discrete derivative is not that derivative: seen on a constant image, where the kernel's sum is all that is left"""
    from torchimage.filtering import EdgeFilter
    base = c.r.choice([[-1, 0, 1], [1, -2, 1]])
    dl = [c.r.uniform(0.2, 1) * c.r.choice([-1, 1]) * 10.0 ** c.r.uniform(-12, -1) * c.r.choice([0, 1, 1]) for _ in base]
    if not any(dl):
        dl[c.r.randrange(3)] = 3e-9
    ek = [b + v for b, v in zip(base, dl)]
    v = c.r.choice([1.0, 1e3, -1e6])
    shp = (c.r.randint(1, 3), c.r.randint(3, 9))
    c.note(edge=ek, value=v, shape=shp)
    c.nontrivial = True
    y = EdgeFilter(ek, [], same_padder="replicate").component(torch.full(shp, v, dtype=torch.float64), edge_axis=1, smooth_axes=())
    e = np.full(shp, v * ek[0] + v * ek[1] + v * ek[2])
    c.close(y, e, "nearly_discrete", "nearly_discrete_constant", rtol=8 * 2.3e-16, scale=4 * abs(v))


WORKLOADS = [
    Workload("nearly_discrete", nearly, 300, 3000),
    Workload("repeated_smooth_axis", repeated, 300, 3000),
    Workload("component", comp, 2500, 40000),
    Workload("horizontal_vertical", hv, 1000, 15000),
    Workload("all_components", all_comp, 1000, 15000),
    Workload("edge_only", edge_only, 800, 10000),
]
