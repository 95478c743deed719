"""C02: copying pad modes follow their periodic/mirror extension at every distance."""
import numpy as np
import torch

from .. import gen, padcase
from ..core import Workload
from ..models import padm

RULE = "a case counts when padding is non-empty; identity = (workload, shape, axes, per-axis (before, after, mode), dtype, layout)"
REQUIRED_EVENTS = ["elements_" + m for m in padm.COPY_MODES] + ["complex_dtype", "bool_dtype", "multi_wrap", "length_1_axis", "length_2_axis", "exhaustive_1d", "very_far"]


def expect(c, p, x, y, mech, where=None):
    e = padm.padn(x.detach().numpy(), p["meaning"])
    ok = c.exact(y, e, mech + "/" + "+".join(sorted({s["mode"] for s in p["meaning"] if s["before"] or s["after"]}) or ["none"]), pad=padcase.describe(p)["pad"])
    for s in p["meaning"]:
        n = p["shape"][s["axis"]]
        if s["before"] or s["after"]:
            c.ev("elements_" + s["mode"], s["before"] + s["after"])
            if max(s["before"], s["after"]) > 2 * n:
                c.ev("multi_wrap")
            if n <= 2:
                c.ev(f"length_{n}_axis")
    return ok


def nd_mixture(c):
    shp = gen.shape(c, ndim_hi=4)
    p = padcase.make(c, shp, padm.COPY_MODES)
    a = gen.values(c, shp)
    dt = c.r.choice([torch.float64, torch.float64, torch.float32, torch.int64, torch.int32, torch.float16, torch.int8, torch.uint8, torch.bool, torch.complex64])
    if dt in (torch.uint8, torch.bool) and any(s["mode"] == "antisymmetric" for s in p["meaning"]):
        dt = torch.float64          # a sign change needs signed numbers
    if dt.is_complex:
        a = a + 1j * gen.values(c, shp)
        c.ev("complex_dtype")
    elif dt == torch.bool:
        a = a > np.median(a)
        c.ev("bool_dtype")
    elif dt in (torch.uint8, torch.int8):
        a = np.abs(np.trunc(a)) % 100
    elif not dt.is_floating_point:
        a = np.trunc(a)
    elif c.r.random() < 0.15:
        a.reshape(-1)[c.r.randrange(a.size)] = np.nan
    x, lay = gen.layout(c, a, dt)
    c.note(**padcase.describe(p), dtype=str(dt), layout=lay)
    c.nontrivial = padcase.nontrivial(p)
    expect(c, p, x, padcase.build(p).forward(x, axes=p["notation"]), "copy")


GRID = [(m, n) for m in padm.COPY_MODES for n in range(1, 10)]


def exhaustive_1d(c):
    """every (before, after) up to 3n+2 for one mode and one axis length, embedded in a random position"""
    from torchimage.padding import Padder
    m, n = GRID[c.index % len(GRID)]
    top = 3 * n + 2 if c.tier == "quick" else 5 * n + 3
    pre, post = c.r.choice([((), ()), ((2,), ()), ((), (2,)), ((2,), (2,)), ((1, 2), ())])
    shp = pre + (n,) + post
    a = np.arange(1, 1 + int(np.prod(shp)), dtype=np.float64).reshape(shp) * c.r.choice([1.0, -1.5])
    x = torch.from_numpy(a)
    ax = len(pre)
    c.note(mode=m, n=n, shape=list(shp), top=top)
    c.nontrivial = True
    for b in range(top + 1):
        for e in range(top + 1):
            if (b * 31 + e * 17 + c.index) % (1 if top < 12 else 4):
                continue
            y = Padder(pad_width=(b, e), mode=m).forward(x, axes=(ax,))
            want = padm.pad1(a, ax, b, e, m)
            c.ev("exhaustive_1d")
            if not c.exact(y, want, f"exhaustive/{m}", n=n, before=b, after=e):
                return


def long_axis(c):
    """larger axes and widths around the multiples of the fold period"""
    m = c.r.choice(padm.COPY_MODES)
    n = c.r.choice([1, 2, 3, 4, 5, 8, 13, 31, 64, 100])
    period = {"replicate": n, "circular": n, "periodize": n + n % 2, "symmetric": n, "antisymmetric": n, "reflect": max(1, n - 1)}[m]
    far = c.r.random() < 0.1
    if far:        # very far from the image
        c.ev("very_far")
    near = lambda: max(0, (max(1, int(2 ** c.r.uniform(9, 15)) // period) if far else c.r.choice([1, 2, 3, 4, 7])) * period + c.r.choice([-2, -1, 0, 1, 2]))
    b, e = c.r.choice([(near(), near()), (near(), 0), (0, near()), (near(), 1)])
    from torchimage.padding import Padder
    shp = c.r.choice([(n,), (2, n), (n, 2), (2, n, 3)])
    ax = shp.index(n) if n != 2 else len(shp) - 1
    shp = list(shp)
    a = gen.values(c, shp)
    n = shp[ax]
    c.note(mode=m, shape=shp, ax=ax, before=b, after=e)
    c.nontrivial = b + e > 0
    y = Padder(pad_width=(b, e), mode=m).forward(torch.from_numpy(a), axes=c.r.choice([ax, (ax,), ax - len(shp)]))
    c.exact(y, padm.pad1(a, ax, b, e, m), f"long/{m}", "long_axis")


WORKLOADS = [
    Workload("nd_mixture", nd_mixture, 2500, 60000),
    Workload("exhaustive_1d", exhaustive_1d, len(GRID), len(GRID) * 6),
    Workload("long_axis", long_axis, 1500, 30000),
]
