"""C18: Bayer mosaicking and layout conversions, site by site."""
import numpy as np
import torch

from .. import gen
from ..core import Workload
from ..models import cfam

RULE = "a case counts when all samples are distinct (a misplaced sample is visible); identity = (workload, shape, alignment, spelling, dtype, layout)"
REQUIRED_EVENTS = ["mosaic1", "mosaic4", "agree", "to4", "to1", "roundtrip_1", "roundtrip_4", "downsample1", "downsample4", "lower_case",
                   "unbatched", "many_leading", "empty_batch", "integer_dtype", "rectangular", "big_integers", "large_batch"] + ["RGGB", "BGGR", "GRBG", "GBRG"]
DTYPES = [torch.float64, torch.float32, torch.float16, torch.uint8, torch.int16, torch.int32, torch.int64]


def image(c, ch, hw_even=True, huge=True):
    lead = tuple(c.r.randint(1, 3) for _ in range(c.r.choice([0, 1, 1, 2, 3])))
    lead = gen.many(c, lead)
    if c.r.random() < 0.03:
        lead = (0,) + lead[1:]
        c.ev("empty_batch")
    if not lead:
        c.ev("unbatched")
    if len(lead) > 1:
        c.ev("many_leading")
    f = 2 if hw_even else 1
    h, w = f * gen.dim(c, 1, 5), f * gen.dim(c, 1, 5)
    if h != w:
        c.ev("rectangular")
    shp = lead + (ch, h, w)
    dt = c.r.choice(DTYPES)
    n = int(np.prod(shp))
    if dt in (torch.uint8,):
        a = (c.g.permutation(n) % 256) if n <= 256 else c.g.integers(0, 256, n)
        c.ev("integer_dtype")
    elif dt == torch.float16:
        a = c.g.permutation(n) % 2048
    else:
        a = c.g.permutation(n)
        if not dt.is_floating_point:
            c.ev("integer_dtype")
    if dt == torch.int16 and c.r.random() < 0.5:
        a = a % 1000 + 31000
    a = np.asarray(a).reshape(shp)
    if huge and dt in (torch.int32, torch.int64) and c.r.random() < 0.5:
        a = a + (1 << (30 if dt == torch.int32 else 60))       # no detour through a floating-point type is exact
        c.ev("big_integers")
    t, lay = gen.layout(c, a, dtype=dt)
    sa = c.r.choice(cfam.ALIGNMENTS)
    c.ev(sa)
    sp = c.r.choice([sa, sa, sa.lower(), sa.capitalize(), sa[:2] + sa[2:].lower()])
    if sp != sa:
        c.ev("lower_case")
    c.note(shape=shp, dtype=str(dt), layout=lay, alignment=sp)
    c.nontrivial = n > 0
    return a, t, sp, dt


def same(c, y, e, dt, mech, kind):
    c.exact(y, e.astype(gen.DT.get(dt, np.float16)), mech, kind)
    c.check(y.dtype == dt, mech + "/dtype", got=str(y.dtype), want=str(dt))


def mosaic(c):
    from torchimage.cfa.utils import rgb_to_1c_bayer, rgb_to_4c_bayer, bayer_1c_to_4c, bayer_4c_to_1c
    a, t, sa, dt = image(c, 3)
    y1, y4 = rgb_to_1c_bayer(t, sa), rgb_to_4c_bayer(t, sa)
    m = cfam.mosaic(a, sa)
    same(c, y1, m, dt, "mosaic1", "mosaic1")
    same(c, y4, cfam.to4(m), dt, "mosaic4", "mosaic4")
    c.check(torch.equal(bayer_1c_to_4c(y1), y4) and torch.equal(bayer_4c_to_1c(y4), y1), "agree")
    c.ev("agree")


def layout(c):
    from torchimage.cfa.utils import bayer_1c_to_4c, bayer_4c_to_1c
    if c.r.random() < 0.5:
        a, t, sa, dt = image(c, 1)
        y = bayer_1c_to_4c(t)
        same(c, y, cfam.to4(a), dt, "to4", "to4")
        same(c, bayer_4c_to_1c(y), a, dt, "roundtrip_1", "roundtrip_1")
    else:
        a, t, sa, dt = image(c, 4, hw_even=False)
        y = bayer_4c_to_1c(t)
        same(c, y, cfam.to1(a), dt, "to1", "to1")
        same(c, bayer_1c_to_4c(y), a, dt, "roundtrip_4", "roundtrip_4")


def down(c):
    from torchimage.cfa.utils import downsample_1c_bayer_to_rgb, downsample_4c_bayer_to_rgb
    one = c.r.random() < 0.5
    a, t, sa, dt = image(c, 1 if one else 4, hw_even=one, huge=False)
    y = (downsample_1c_bayer_to_rgb if one else downsample_4c_bayer_to_rgb)(t, sa)
    # judge against the values the tensor holds
    a = t.numpy().astype(np.float64)
    e = cfam.downsample(cfam.to4(a) if one else a, sa)
    eps = {torch.float64: 1e-15, torch.float16: 2e-3}.get(dt, 1e-6)
    c.close(y, e, "downsample", "downsample1" if one else "downsample4", rtol=eps)
    if dt.is_floating_point:
        c.check(y.dtype == dt, "downsample/dtype", got=str(y.dtype), want=str(dt))


WORKLOADS = [
    Workload("mosaic", mosaic, 3000, 40000),
    Workload("layout", layout, 3000, 40000),
    Workload("down", down, 2500, 30000),
]
