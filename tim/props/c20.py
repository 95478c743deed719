"""C20: demosaicing keeps measured samples and applies the Malvar-He-Cutler filters."""
import copy

import numpy as np
import torch

from .. import gen
from ..core import Workload
from ..models import cfam

RULE = "a case counts when the mosaic is not constant; identity = (workload, shape, alignment, precision, clamp, content)"
REQUIRED_EVENTS = ["demosaic", "measured_kept", "clamped_low", "clamped_high", "default_clamp", "constant_colour", "flip_rows", "flip_cols", "transpose",
                   "last_step", "last_step_integer", "float32_shipped", "double", "unbatched", "batched", "several_batch_axes", "custom_filters", "lower_case", "smallest_image", "large_batch"] + cfam.ALIGNMENTS


def demosaicer(c):
    from torchimage.cfa.bayer_conv import demosaic
    if c.r.random() < 0.4:
        c.ev("float32_shipped")
        return demosaic, torch.float32, 2e-6
    c.ev("double")
    return copy.deepcopy(demosaic).double(), torch.float64, 1e-13


def spell(c, sa):
    if c.r.random() < 0.2:
        c.ev("lower_case")
        return sa.lower()
    return sa


def mosaic(c):
    h, w = 2 * gen.dim(c, 2, 6, 32, 0.03), 2 * gen.dim(c, 2, 6, 32, 0.03)
    if (h, w) == (4, 4):
        c.ev("smallest_image")
    lead = c.r.choice([(), (1,), (2,), (3,), (2, 2), (1, 3), (2, 1, 2)])
    lead = gen.many(c, lead)
    c.ev("batched" if lead else "unbatched")
    if len(lead) > 1:
        c.ev("several_batch_axes")
    sa = c.r.choice(cfam.ALIGNMENTS)
    c.ev(sa)
    kind = c.r.choice(["uniform", "uniform", "binary", "wide", "impulse"])
    shp = lead + (1, h, w)
    if kind == "uniform":
        a = c.g.random(shp)
    elif kind == "binary":
        a = c.g.integers(0, 2, shp).astype(float)
    elif kind == "impulse":
        a = np.full(shp, 0.5)
        a[..., 0, c.r.randrange(h), c.r.randrange(w)] = 0.75
    else:
        a = c.g.standard_normal(shp) * 2
    clamp = c.r.choice([None, 1.0, 0.75, 255.0, 1e6])
    c.note(shape=shp, alignment=sa, content=kind, clamp=clamp)
    c.nontrivial = True
    return a, sa, clamp


def run(c, m, a, dt, sa, clamp):
    x, _ = gen.layout(c, a, dtype=dt)
    if clamp is None:
        c.ev("default_clamp")
        return m(x, spell(c, sa))
    return m(x, spell(c, sa), clamp=clamp) if c.r.random() < 0.5 else m(x, spell(c, sa), clamp)


def dem(c):
    m, dt, tol = demosaicer(c)
    a, sa, clamp = mosaic(c)
    c.note(dtype=str(dt))
    if dt == torch.float32:
        a = a.astype(np.float32).astype(np.float64)
    y = run(c, m, a, dt, sa, clamp)
    cl = 1.0 if clamp is None else clamp
    e = cfam.malvar(a, sa, cl)
    c.close(y, e, "demosaic", "demosaic", rtol=tol, scale=np.abs(a).max() * 4 + 1)
    # measured samples pass through bit for bit (inside the clamp range)
    yn = y.detach().numpy()
    bad = 0
    for i in range(a.shape[-2]):
        for j in range(a.shape[-1]):
            k = "RGB".index(cfam.colour(sa, i, j))
            bad += int((yn[..., k, i, j] != np.clip(a[..., 0, i, j], 0, cl).astype(yn.dtype)).sum())
    c.check(bad == 0, "measured_changed", n=bad)
    c.ev("measured_kept")
    if c.r.random() < 0.15:
        # an undefined sample stays where it is: other measured samples and whatever lies more than two sites away do not change
        i, j = c.r.randrange(a.shape[-2]), c.r.randrange(a.shape[-1])
        a2, free = a.copy(), np.ones(yn.shape, dtype=bool)
        a2[..., i, j] = np.nan
        sites = np.arange(a.shape[-2])[:, None], np.arange(a.shape[-1])[None, :]
        free &= np.maximum(np.abs(sites[0] - i), np.abs(sites[1] - j)) > 2
        for p in range(a.shape[-2]):
            for q in range(a.shape[-1]):
                free[..., "RGB".index(cfam.colour(sa, p, q)), p, q] = (p, q) != (i, j)
        y2 = m(torch.from_numpy(a2).to(dt), sa, clamp=cl).detach().numpy()
        c.close(np.where(free, y2, 0), np.where(free, e, 0), "undefined_spreads", "undefined_sample", rtol=tol, scale=np.abs(a).max() * 4 + 1)
        c.check(bool(np.isnan(y2[..., "RGB".index(cfam.colour(sa, i, j)), i, j]).all()), "undefined_replaced")
    if (e == 0).any():
        c.ev("clamped_low")
    if (e == cl).any():
        c.ev("clamped_high")


def constant(c):
    from torchimage.cfa.utils import rgb_to_1c_bayer
    m, dt, tol = demosaicer(c)
    h, w = 2 * gen.dim(c, 2, 6, 32, 0.03), 2 * gen.dim(c, 2, 6, 32, 0.03)
    # the gradient corrections vanish only if all colours are equally far from their own neighbours: any constant colour does
    col = np.round(c.g.random(3) if c.r.random() < 0.7 else np.full(3, c.g.random()), 6)
    sa = c.r.choice(cfam.ALIGNMENTS)
    rgb = np.broadcast_to(col[:, None, None], (1, 3, h, w)).copy()
    c.note(shape=[h, w], colour=col, alignment=sa, dtype=str(dt))
    c.nontrivial = True
    x = torch.from_numpy(rgb).to(dt)
    y = m(rgb_to_1c_bayer(x, sa), spell(c, sa))
    c.close(y, rgb, "constant_colour", "constant_colour", rtol=max(tol, 1e-13) * 10)


def symmetry(c):
    m, dt, tol = demosaicer(c)
    a, sa, clamp = mosaic(c)
    y = run(c, m, a, dt, sa, clamp).detach().numpy()
    t = c.r.choice(["flip_rows", "flip_cols", "transpose"])
    c.note(transform=t)
    if t == "transpose":
        y2 = run(c, m, a.swapaxes(-1, -2), dt, cfam.transpose(sa), clamp).detach().numpy().swapaxes(-1, -2)
    else:
        d = -2 if t == "flip_rows" else -1
        y2 = np.flip(run(c, m, np.flip(a, d).copy(), dt, cfam.flip(sa, t == "flip_rows", t == "flip_cols"), clamp).detach().numpy(), d)
    c.close(y2.copy(), y, t, t, rtol=tol * 4, scale=np.abs(a).max() * 4 + 1)


def custom(c):
    """an interpolator built from other filters applies each of them at its own site"""
    from torchimage.cfa.bayer_conv.bayer_conv_2d import PreTrainedBilinearInterpolator
    k = c.r.choice([1, 3, 3, 5, 7])
    kind = c.r.choice(["normal", "impulse", "positive"])
    wd = {}
    for key in ["GR", "GB", "RGR", "BGR", "RGB", "BGB", "RB", "BR"]:
        if kind == "impulse":
            w = np.zeros((k, k))
            w[c.r.randrange(k), c.r.randrange(k)] = 1
        else:
            w = c.g.standard_normal((k, k)) if kind == "normal" else c.g.random((k, k)) / k
        wd[key] = w
    m = PreTrainedBilinearInterpolator(dict(sorted(wd.items(), key=lambda _: c.r.random())))
    dt = c.r.choice([torch.float32, torch.float64])
    m = m.to(dt)
    w32 = {key: w.astype(np.float32).astype(np.float64) for key, w in wd.items()}     # the layers are created in single precision
    lo = max(1, (k // 2 + 2) // 2)
    lead = c.r.choice([(), (1,), (2,), (2, 2)])
    shp = lead + (1, 2 * c.r.randint(lo, lo + 3), 2 * c.r.randint(lo, lo + 3))
    sa = c.r.choice(cfam.ALIGNMENTS)
    clamp = c.r.choice([None, 1.0, 0.5, 1e6])
    a = c.g.random(shp).astype(np.float32).astype(np.float64)
    c.note(shape=shp, alignment=sa, k=k, filters=kind, clamp=clamp, dtype=str(dt))
    c.nontrivial = True
    y = run(c, m, a, dt, sa, clamp)
    c.check(y.dtype == dt, "custom/dtype", got=str(y.dtype))
    sc = max(np.abs(w).sum() for w in wd.values()) + 1
    c.close(y, cfam.interpolate(a, sa, w32, 1.0 if clamp is None else clamp), "custom", "custom_filters", rtol=1e-13 if dt == torch.float64 else 1e-6, scale=sc)
    c.ev(sa)


def last_step(c):
    from torchimage.cfa.bayer_conv import last_step_demosaic
    lead = tuple(c.r.randint(1, 3) for _ in range(c.r.choice([0, 1, 1, 2])))
    h, w = 2 * gen.dim(c, 1, 5), 2 * gen.dim(c, 1, 5)
    sa = c.r.choice(cfam.ALIGNMENTS)
    c.ev(sa)
    dt = c.r.choice([torch.float64, torch.float32, torch.int32, torch.uint8])
    if not dt.is_floating_point:
        c.ev("last_step_integer")
    n = int(np.prod(lead + (h, w)))
    v = c.g.permutation(3 * n) % (256 if dt == torch.uint8 else 1 << 20)
    x, y = v[:n].reshape(lead + (1, h, w)), v[n:].reshape(lead + (2, h, w))
    c.note(shape=lead + (h, w), alignment=sa, dtype=str(dt))
    c.nontrivial = True
    tx, _ = gen.layout(c, x, dtype=dt)
    ty, _ = gen.layout(c, y, dtype=dt)
    r = last_step_demosaic(tx, ty, spell(c, sa))
    c.exact(r, cfam.fill(x, y, sa).astype(gen.DT[dt]), "last_step", "last_step")
    c.check(r.dtype == dt, "last_step/dtype", got=str(r.dtype))


WORKLOADS = [
    Workload("dem", dem, 1200, 15000),
    Workload("constant", constant, 400, 4000),
    Workload("symmetry", symmetry, 800, 10000),
    Workload("custom", custom, 600, 6000),
    Workload("last_step", last_step, 1500, 15000),
]
