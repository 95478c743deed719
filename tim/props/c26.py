"""C26: random crops are contiguous windows, every window possible, none out of range."""
import numpy as np
import torch

from .. import gen
from ..core import Workload

RULE = "a case counts when at least one axis has more than one admissible offset; identity = (workload, shape, axes, sizes, generator kind)"
REQUIRED_EVENTS = ["window", "untouched_none", "untouched_unlisted", "full_length", "size_1", "size_0", "same_state_same_crop", "generator", "global_rng", "single_size", "first_offset",
                   "last_offset", "distribution", "joint_distribution", "all_offsets_seen", "global_rng_untouched", "many_offsets"]


def config(c, hi=7, nd_hi=4):
    shp = gen.shape(c, hi=hi, ndim_hi=nd_hi)
    axes = gen.axes_subset(c, len(shp))
    if c.r.random() < 0.25:
        n = min(shp[a] for a in axes)
        v = c.r.randint(1, n)
        size, sizes = v, [v] * len(axes)
        c.ev("single_size")
    else:
        sizes = []
        for a in axes:
            k = c.r.random()
            sizes.append(None if k < 0.2 else shp[a] if k < 0.4 else 1 if k < 0.5 else 0 if k < 0.53 else c.r.randint(1, shp[a]))
        size = sizes if c.r.random() < 0.5 else tuple(sizes)
        if len(axes) == 1 and c.r.random() < 0.3:
            size = sizes[0]
    return shp, axes, size, sizes


def ident(shp):
    return np.arange(int(np.prod(shp)), dtype=np.float64).reshape(shp)


def offsets(c, y, a, axes, sizes, mech="window"):
    """judge that y is the contiguous window and return its offsets"""
    y = y.numpy()
    want = [s if i not in axes or sizes[axes.index(i)] is None else sizes[axes.index(i)] for i, s in enumerate(a.shape)]
    if list(y.shape) != want:
        c.fail(mech + "/shape", got=list(y.shape), want=want)
        return None
    if not y.size:
        c.ev("size_0")
        return [0] * a.ndim
    beg = np.unravel_index(int(y.reshape(-1)[0]), a.shape)
    sl = tuple(slice(int(b), int(b) + n) for b, n in zip(beg, want))
    if a[sl].shape != y.shape or not np.array_equal(a[sl], y):
        c.fail(mech, want_shape=want, beg=[int(b) for b in beg])
        return None
    return [int(b) for b in beg]


def crop(c):
    from torchimage.random import random_crop
    shp, axes, size, sizes = config(c)
    a = ident(shp)
    x, lay = gen.layout(c, a)
    note = gen.spell_axes(c, axes, len(shp))
    sd = c.r.randrange(1 << 40)
    useg = c.r.random() < 0.7
    c.note(shape=shp, axes=axes, sizes=sizes, spelled=note[0], gen=useg, layout=lay)
    if useg:
        g = torch.Generator().manual_seed(sd)
        st = torch.random.get_rng_state()
        y = random_crop(x, note[1], size, generator=g)
        c.check(torch.equal(st, torch.random.get_rng_state()), "global_rng_consumed")
        c.ev("global_rng_untouched")
        torch.rand(3)
        y2 = random_crop(x, note[1], size, generator=torch.Generator().manual_seed(sd))
        c.ev("generator")
    else:
        torch.manual_seed(sd)
        y = random_crop(x, note[1], size)
        torch.manual_seed(sd)
        y2 = random_crop(x, note[1], size)
        c.ev("global_rng")
    beg = offsets(c, y, a, axes, sizes)
    if y.numel() == 0:
        return
    c.ev("window")
    c.check(torch.equal(y, y2), "same_state_different_crop")
    c.ev("same_state_same_crop")
    if beg is None:
        return
    for i, n in enumerate(shp):
        if i not in axes:
            c.ev("untouched_unlisted")
            continue
        s = sizes[axes.index(i)]
        if s is None:
            c.ev("untouched_none")
        elif s == n:
            c.ev("full_length")
        else:
            c.nontrivial = True
            if s == 1:
                c.ev("size_1")
            if beg[i] == 0:
                c.ev("first_offset")
            if beg[i] == n - s:
                c.ev("last_offset")


def _chi2_bound(k, t=36.0):
    # P(chi2_k > k + 2 sqrt(k t) + 2 t) <= exp(-t)   (Laurent and Massart)
    return k + 2 * np.sqrt(k * t) + 2 * t


def dist(c):
    """uniform and independent offsets over a run of calls sharing one generator"""
    from torchimage.random import random_crop
    nd = c.r.randint(1, 3)
    shp = tuple(c.r.randint(2, 5) for _ in range(nd))
    axes = gen.axes_subset(c, nd)
    sizes = [max(1, shp[a] - c.r.choice([1, 1, 2, 3, 4])) for a in axes]
    cells = int(np.prod([shp[a] - s + 1 for a, s in zip(axes, sizes)]))
    if c.r.random() < 0.3:
        # the same size on every axis, as a single number
        v = c.r.randint(1, min(shp[a] for a in axes))
        sizes = [v] * len(axes)
        cells = int(np.prod([shp[a] - s + 1 for a, s in zip(axes, sizes)]))
    if cells == 1:
        return
    n = max(1500, 60 * cells)
    g = torch.Generator().manual_seed(c.r.randrange(1 << 40)) if c.r.random() < 0.7 else None
    a = ident(shp)
    x = torch.from_numpy(a)
    cnt = {}
    for _ in range(n):
        beg = offsets(c, random_crop(x, axes, sizes, generator=g), a, axes, sizes, "dist/window")
        if beg is None:
            return
        k = tuple(beg)
        cnt[k] = cnt.get(k, 0) + 1
    c.note(shape=shp, axes=axes, sizes=sizes, n=n, cells=cells)
    c.nontrivial = True
    c.ev("window", n)
    # marginal per axis
    for ax, s in zip(axes, sizes):
        K = shp[ax] - s + 1
        m = np.zeros(K)
        for k, v in cnt.items():
            m[k[ax]] += v
        c.check(bool((m > 0).all()), "offset_never_seen", axis=ax, counts=m)
        c.ev("all_offsets_seen")
        if K > 1:
            e = n / K
            chi = float(((m - e) ** 2 / e).sum())
            c.check(chi < _chi2_bound(K - 1), "not_uniform", axis=ax, counts=m, chi2=chi)
            c.ev("distribution")
    if len(axes) > 1:
        e = n / cells
        chi = sum((v - e) ** 2 / e for v in cnt.values()) + (cells - len(cnt)) * e
        c.check(chi < _chi2_bound(cells - 1, 45.0), "axes_dependent", chi2=chi, cells=cells, seen=len(cnt))
        c.ev("joint_distribution")


def long_axis(c):
    """an axis with very many admissible offsets: position, parity and low digits of the offset are all uniform"""
    from torchimage.random import random_crop
    n = int(10 ** c.r.uniform(1.5, 5))
    s = c.r.choice([1, 2, n // 2, n // 3, c.r.randint(1, n - 1)])
    s = max(1, min(s, n - 20))
    K = n - s + 1
    N = 1200
    g = torch.Generator().manual_seed(c.r.randrange(1 << 40))
    x = torch.arange(n)
    ax = c.r.randrange(2)
    x = x.unsqueeze(1 - ax)
    off = np.empty(N, dtype=np.int64)
    for i in range(N):
        y = random_crop(x, (ax,), (s,), generator=g).reshape(-1)
        if not c.check(len(y) == s and int(y[-1] - y[0]) == s - 1, "long/window", n=n, s=s):
            return
        off[i] = int(y[0])
    c.note(n=n, size=s)
    c.nontrivial = True
    c.check(0 <= off.min() and off.max() < K, "long/range", lo=int(off.min()), hi=int(off.max()), K=K)
    for m in (2, 3, 4, 5, 7, 8, 10, 16):
        p = np.array([len(range(r, K, m)) for r in range(m)]) / K
        cnt = np.bincount(off % m, minlength=m)
        chi = float(((cnt - N * p) ** 2 / (N * p)).sum())
        c.check(chi < _chi2_bound(m - 1), "long/residues", modulus=m, counts=cnt, chi2=chi, n=n, s=s)
    bins = min(K, 16)
    b = off * bins // K
    p = np.array([((r + 1) * K + bins - 1) // bins - (r * K + bins - 1) // bins for r in range(bins)]) / K
    cnt = np.bincount(b, minlength=bins)
    chi = float(((cnt - N * p) ** 2 / (N * p)).sum())
    c.check(chi < _chi2_bound(bins - 1), "long/position", counts=cnt, chi2=chi, n=n, s=s)
    c.ev("many_offsets")


WORKLOADS = [Workload("long_axis", long_axis, 30, 300), Workload("crop", crop, 4000, 50000), Workload("dist", dist, 60, 700)]
