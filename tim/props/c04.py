"""C04: constant and statistic pad modes use exactly the stated value on each side."""
import numpy as np
import torch

from .. import gen, padcase
from ..core import Workload
from ..models import padm

MODES = padm.CONST_MODES + padm.STAT_MODES
RULE = "a case counts when padding is non-empty; identity = (workload, shape, axes, per-axis (before, after, mode), parameters, dtype, layout)"
REQUIRED_EVENTS = ["elements_" + m for m in MODES] + ["stat_clipped", "stat_zero_length", "stat_sides_differ", "stat_none", "constants_differ", "integer_dtype", "statlen_grid", "empty_axis", "nan_statistic", "infinite_statistic", "big_integers"]


def judge(c, p, a, y, mech):
    e = padm.padn(a, p["meaning"])
    act = [s for s in p["meaning"] if s["before"] or s["after"]]
    modes = "+".join(sorted({s["mode"] for s in act}) or ["none"])
    if "mean" in modes or y.dtype == torch.float32:
        c.close(y, e, f"{mech}/{modes}", rtol=1e-12 if y.dtype == torch.float64 else 3e-6, pad=padcase.describe(p))
    else:
        c.exact(y, e, f"{mech}/{modes}", pad=padcase.describe(p))
    for s in act:
        n = p["shape"][s["axis"]]
        c.ev("elements_" + s["mode"], s["before"] + s["after"])
        if s["mode"] in padm.STAT_MODES:
            for L, w in zip(s["sl"], (s["before"], s["after"])):
                if w:
                    c.ev("stat_none" if L is None else "stat_zero_length" if L == 0 else "stat_clipped" if L > n else "stat_inside")
            if s["sl"][0] != s["sl"][1]:
                c.ev("stat_sides_differ")
        if s["mode"] == "constant" and s["cv"][0] != s["cv"][1]:
            c.ev("constants_differ")


def nd_mixture(c, dtypes=(torch.float64, torch.float64, torch.float32), modes=MODES):
    shp = gen.shape(c, ndim_hi=4)
    ints = not dtypes[0].is_floating_point
    p = padcase.make(c, shp, list(modes), int_params=ints)
    dt = c.r.choice(dtypes)
    a = gen.values(c, shp, "int" if ints else None)
    if dt == torch.uint8:
        a = np.abs(a)
    if c.r.random() < 0.2 and a.size > 1:       # ties and plateaus
        a = np.round(a)
    x, lay = gen.layout(c, a, dt)
    if ints:
        c.ev("integer_dtype")
    c.note(**padcase.describe(p), dtype=str(dt), layout=lay)
    c.nontrivial = padcase.nontrivial(p)
    y = padcase.build(p).forward(x, axes=p["notation"])
    judge(c, p, x.numpy(), y, "value")


def empty_axis(c):
    """constants also extend an axis of length 0"""
    from torchimage.padding import Padder
    nd = c.r.randint(1, 3)
    shp = [c.r.randint(0, 3) for _ in range(nd)]
    axes = gen.axes_subset(c, nd)
    shp[c.r.choice(axes)] = 0
    specs = []
    for a in axes:
        m = c.r.choice(padm.CONST_MODES if shp[a] == 0 else MODES)
        specs.append(dict(axis=a, before=c.r.randint(0, 3), after=c.r.randint(0, 3), mode=m, cv=(round(c.r.uniform(-9, 9), 2), c.r.choice([0, 1.5, -3])),
                          ev=(0.0, 0.0), sl=(c.r.choice([None, 1, 2]), c.r.choice([None, 1, 2]))))
    x = torch.zeros(shp, dtype=torch.float64)
    y = Padder(pad_width=[(s["before"], s["after"]) for s in specs], mode=[s["mode"] for s in specs], constant_values=[s["cv"] for s in specs],
               stat_length=[s["sl"] for s in specs]).forward(x, axes=axes)
    c.note(shape=shp, axes=axes, specs=[(s["before"], s["after"], s["mode"], s["cv"]) for s in specs])
    c.nontrivial = y.numel() > 0
    c.close(y, padm.padn(x.numpy(), specs), "value/empty_axis", "empty_axis", rtol=1e-12)


def nd_integer(c):
    nd_mixture(c, (torch.int64, torch.int32, torch.int16), ["zeros", "constant", "maximum", "minimum", "median"])


def big_integers(c):
    """integer images keep integer constants and statistics to the last bit"""
    from torchimage.padding import Padder
    shp = gen.shape(c, ndim_hi=3)
    ax = c.r.randrange(len(shp))
    big = lambda: c.r.choice([-1, 1]) * (2 ** c.r.randint(50, 61) + c.r.randint(-9, 9))
    a = c.g.integers(-99, 99, shp) + big()
    m = c.r.choice(["constant", "constant", "maximum", "minimum", "median", "zeros"])
    cv = (big(), big() if c.r.random() < 0.7 else c.r.randint(-3, 3))
    b, e = c.r.randint(0, 3), c.r.randint(0, 3)
    sl = (c.r.choice([None, 1, 2]), c.r.choice([None, 1, 2]))
    c.note(shape=shp, axis=ax, mode=m, cv=cv, before=b, after=e)
    c.nontrivial = bool(b or e)
    spell = c.r.choice([lambda p: p, list, np.array, lambda p: [p] * 3])
    y = Padder((b, e), m, constant_values=spell(cv), stat_length=sl).forward(torch.from_numpy(a), axes=(ax,))
    c.exact(y, padm.pad1(a, ax, b, e, m, cv=cv, sl=sl), "big_integers/" + m, "big_integers")


def statlen_grid(c):
    """every stat length around the axis length on both sides, along one axis"""
    from torchimage.padding import Padder
    m = padm.STAT_MODES[c.index % 4]
    n = 1 + (c.index // 4) % 7
    pre, post = c.r.choice([((), ()), ((2,), ()), ((), (3,)), ((2,), (2,))])
    a = gen.values(c, pre + (n,) + post)
    ax = len(pre)
    c.note(mode=m, n=n, shape=list(a.shape))
    c.nontrivial = True
    opts = [None] + list(range(0, n + 3))
    for s0 in opts:
        for s1 in opts:
            b, e = c.r.choice([(2, 3), (1, 0), (0, 2), (4, 1)])
            if s0 == s1 and c.r.random() < 0.5:
                sl = s0
            else:
                sl = (s0, s1)
            y = Padder(pad_width=(b, e), mode=m, stat_length=sl).forward(torch.from_numpy(a), axes=ax)
            want = padm.pad1(a, ax, b, e, m, sl=(s0, s1))
            c.ev("statlen_grid")
            if not c.close(y, want, f"grid/{m}", rtol=1e-12, n=n, stat_length=[s0, s1], before=b, after=e):
                return


def special(c):
    """NaN and infinite samples: a statistic is that of all its samples"""
    from torchimage.padding import Padder
    shp = gen.shape(c, ndim_hi=3)
    ax = c.r.randrange(len(shp))
    n = shp[ax]
    a = gen.values(c, shp)
    for v in (np.nan, np.inf, -np.inf):
        a = np.where(c.g.random(shp) < c.r.choice([0, 0.1, 0.3]), v, a)
    m = c.r.choice(padm.STAT_MODES)
    b, e = c.r.randint(0, 3), c.r.randint(0, 3)
    sl = (c.r.choice([None, 1, 2, n]), c.r.choice([None, 1, 2, n]))
    c.note(shape=shp, axis=ax, mode=m, before=b, after=e, stat_length=sl)
    c.nontrivial = bool(b or e) and not np.isfinite(a).all()
    want = [np.moveaxis(a, ax, 0)]
    for side, L, w in ((0, sl[0], b), (1, sl[1], e)):
        L = n if L is None else max(1, min(L, n))
        blk = want[0][:L] if side == 0 else np.moveaxis(a, ax, 0)[n - L:]
        with np.errstate(invalid="ignore"):
            v = blk.sum(0) / L if m == "mean" else {"maximum": blk.max, "minimum": blk.min, "median": lambda axis: np.sort(blk, axis)[(L - 1) // 2]}[m](axis=0)
        v = np.where(np.isnan(blk).any(0), np.nan, v)
        if w and np.isnan(v).any():
            c.ev("nan_statistic")
        if w and np.isinf(v).any():
            c.ev("infinite_statistic")
        if side == 0:
            head = [v[None]] * w
        else:
            tail = [v[None]] * w
    e_ = np.moveaxis(np.concatenate(head + want + tail), 0, ax)
    y = Padder((b, e), m, stat_length=sl).forward(gen.layout(c, a)[0], axes=(ax,)).numpy()
    if c.check(y.shape == e_.shape, "special/shape", got=list(y.shape), want=list(e_.shape)):
        c.check(bool(np.array_equal(np.isnan(y), np.isnan(e_)) and np.allclose(y, e_, rtol=1e-11, atol=1e-11, equal_nan=True)), "special/" + m, stat_length=sl)


WORKLOADS = [Workload("big_integers", big_integers, 500, 5000), Workload("special", special, 800, 8000), 
    Workload("nd_mixture", nd_mixture, 3500, 60000),
    Workload("nd_integer", nd_integer, 1200, 15000),
    Workload("empty_axis", empty_axis, 300, 3000),
    Workload("statlen_grid", statlen_grid, 56, 560),
]
