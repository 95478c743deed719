"""C03: extrapolating pad modes follow their documented formulas at every distance."""
import numpy as np
import torch

from .. import gen, padcase
from ..core import Workload
from ..models import padm

RULE = "a case counts when padding is non-empty; identity = (workload, shape, axes, per-axis (before, after, mode, end values), dtype, layout)"
REQUIRED_EVENTS = ["elements_" + m for m in padm.EXTRA_MODES] + ["multi_wrap", "length_1_axis", "length_2_axis", "outermost_is_end_value", "exhaustive_1d", "ramp_end_extreme"]
RT = 1e-10


def nd_mixture(c):
    shp = gen.shape(c, ndim_hi=4)
    extra = c.r.random() < 0.3
    p = padcase.make(c, shp, padm.EXTRA_MODES + (padm.COPY_MODES if extra else []))
    a = gen.values(c, shp)
    x, lay = gen.layout(c, a)
    c.note(**padcase.describe(p), layout=lay)
    c.nontrivial = padcase.nontrivial(p)
    y = padcase.build(p).forward(x, axes=p["notation"])
    e = padm.padn(a, p["meaning"])
    modes = "+".join(sorted({s["mode"] for s in p["meaning"] if s["before"] or s["after"]}) or ["none"])
    c.close(y, e, "extra/" + modes, rtol=RT, pad=padcase.describe(p)["pad"])
    for s in p["meaning"]:
        n = shp[s["axis"]]
        if s["before"] or s["after"]:
            c.ev("elements_" + s["mode"], s["before"] + s["after"])
            if max(s["before"], s["after"]) > 2 * n:
                c.ev("multi_wrap")
            if n <= 2:
                c.ev(f"length_{n}_axis")


GRID = [(m, n) for m in padm.EXTRA_MODES for n in range(1, 9)]


def exhaustive_1d(c):
    from torchimage.padding import Padder
    m, n = GRID[c.index % len(GRID)]
    top = 3 * n + 2
    pre, post = c.r.choice([((), ()), ((2,), ()), ((), (2,)), ((2,), (2,)), ((1, 2), (3,))])
    shp = pre + (n,) + post
    a = gen.values(c, shp, "int" if c.r.random() < 0.5 else "normal")
    ev = (float(c.r.randint(-5, 5)), float(c.r.uniform(-5, 5)))
    x = torch.from_numpy(a)
    ax = len(pre)
    c.note(mode=m, n=n, shape=list(shp), top=top, ev=ev)
    c.nontrivial = True
    for b in range(top + 1):
        for e in range(top + 1):
            if top >= 12 and (b * 31 + e * 17 + c.index) % 4:
                continue
            y = Padder(pad_width=(b, e), mode=m, end_values=ev).forward(x, axes=(ax,))
            c.ev("exhaustive_1d")
            if not c.close(y, padm.pad1(a, ax, b, e, m, ev=ev), f"exhaustive/{m}", rtol=RT, n=n, before=b, after=e):
                return
            if m == "linear_ramp":
                if b:
                    c.close(y.select(ax, 0), np.full(pre + post, ev[0]), "ramp_outermost", "outermost_is_end_value", rtol=RT)
                if e:
                    c.close(y.select(ax, y.shape[ax] - 1), np.full(pre + post, ev[1]), "ramp_outermost", "outermost_is_end_value", rtol=RT)


def straight_line(c):
    """on an affine signal every mode except the ramp continues the line exactly"""
    from torchimage.padding import Padder
    m = c.r.choice(["odd_reflect", "smooth", "odd_symmetric"])
    n = c.r.randint(2, 9)
    b, e = c.r.randint(0, 5 * n), c.r.randint(0, 5 * n)
    s, o = c.r.uniform(-3, 3), c.r.uniform(-50, 50)
    j = np.arange(-b, n + e, dtype=np.float64)
    x = torch.from_numpy(o + s * np.arange(n, dtype=np.float64))
    y = Padder(pad_width=(b, e), mode=m).forward(x, axes=None)
    c.note(mode=m, n=n, before=b, after=e)
    c.nontrivial = b + e > 0
    if m == "odd_symmetric":
        want = padm.pad1(x.numpy(), 0, b, e, m)
    else:
        want = o + s * j
    c.close(y, want, f"line/{m}", "affine_continued", rtol=RT)


def ramp_ends(c):
    """the outermost padded element is the end value, whatever the size of the border samples"""
    from torchimage.padding import Padder
    dt = c.r.choice([torch.float64, torch.float32])
    shp = gen.shape(c, ndim_hi=3, hi=4)
    ax = c.r.randrange(len(shp))
    a = c.g.standard_normal(shp) * 10.0 ** c.r.uniform(-20, 20)
    ev = (c.r.choice([0.0, 1.0, c.r.uniform(-5, 5)]), c.r.uniform(-5, 5))
    b, e = c.r.randint(0, 9), c.r.randint(0, 9)
    x = torch.from_numpy(a).to(dt)
    c.note(shape=shp, axis=ax, before=b, after=e, ev=ev, dtype=str(dt), v=float(a.flat[0]))
    c.nontrivial = b + e > 0
    y = Padder(pad_width=(b, e), mode="linear_ramp", end_values=ev).forward(x, axes=ax)
    for w, k, v in ((b, 0, ev[0]), (e, y.shape[ax] - 1, ev[1])):
        if w:
            z = y.select(ax, k)
            c.close(z.double(), np.full(tuple(z.shape), v), "ramp_end", "ramp_end_extreme", rtol=1e-6 if dt is torch.float32 else 1e-14, scale=abs(v) + 1e-30)


WORKLOADS = [
    Workload("ramp_ends", ramp_ends, 500, 8000),
    Workload("nd_mixture", nd_mixture, 3500, 60000),
    Workload("exhaustive_1d", exhaustive_1d, len(GRID), len(GRID) * 6),
    Workload("straight_line", straight_line, 600, 10000),
]
