"""Workload generators shared by the property modules."""
import numpy as np
import torch


def dim(c, lo, hi, many=64, p=0.04):
    """lo..hi, now and then far beyond (a threshold on the size is invisible to small images)"""
    if c.r.random() < p:
        c.ev("large_dim")
        if c.r.random() < 0.04:
            c.ev("huge_dim")
            return c.r.randint(many, many * 12)
        return c.r.randint(hi + 1, many)
    return c.r.randint(lo, hi)


def many(c, lead, p=0.03):
    """now and then a batch of dozens of images instead of the given leading dimensions"""
    if c.r.random() > p:
        return lead
    c.ev("large_batch")
    n = c.r.randint(9, 80)
    return c.r.choice([(n,), (n,), (n, 1), (1, n), (3, n // 3 + 1), (n // 2 + 1, 2)])


def shape(c, ndim_lo=1, ndim_hi=4, lo=1, hi=7, max_elems=600, big=0.04):
    nd = c.r.randint(ndim_lo, ndim_hi)
    if ndim_hi >= 4 and hi <= 12 and c.r.random() < 0.025:
        c.ev("deep_shape")
        nd = c.r.randint(5, 6)
        return tuple(max(lo, v) for v in (c.r.choice([1, 2, 2, 3]) for _ in range(nd)))
    if c.r.random() < 0.01 and lo <= 2 and hi >= 5 and max_elems >= 300:
        s = [c.r.randint(max(lo, 1), 2) for _ in range(nd)]
        s[c.r.randrange(nd)] = c.r.randint(hi * 5, max(hi * 5, min(300, 2 * max_elems // 2 ** (nd - 1))))
        c.ev("large_dim")
        return tuple(s)
    if c.r.random() < 0.003 and lo <= 2 and hi >= 5 and max_elems >= 300:
        # thousands to hundreds of thousands of elements, in one long axis or in several
        nd = min(nd, 4)
        n = 10 ** c.r.uniform(3, 5.3)
        cut = sorted([c.r.random() for _ in range(nd - 1)] + [0.0, 1.0]) if c.r.random() < 0.7 else [0.0] * nd + [1.0]
        s = [max(lo, 1, int(n ** (q - p))) for p, q in zip(cut, cut[1:])]
        c.r.shuffle(s)
        c.ev("huge_shape")
        return tuple(s)
    s = []
    for _ in range(nd):
        p = c.r.random()
        if p < 0.12:
            v = lo
        elif p < 0.12 + big:
            v = c.r.randint(hi, hi * 5)
        else:
            v = c.r.randint(lo, hi)
        s.append(v)
    while int(np.prod(s)) > max_elems:
        k = int(np.argmax(s))
        s[k] = max(lo, s[k] // 2)
        if all(v <= lo for v in s):
            break
    return tuple(s)


def values(c, shp, kind=None):
    """float64 array; several value regimes so that no result can be right by coincidence"""
    kind = kind or c.r.choice(["normal", "normal", "uniform", "int", "offset", "large"])
    g = c.g
    if kind == "normal":
        a = g.standard_normal(shp)
    elif kind == "uniform":
        a = g.random(shp)
    elif kind == "int":
        a = g.integers(-9, 10, shp).astype(np.float64)
    elif kind == "offset":
        a = g.standard_normal(shp) + 100.0
    else:
        a = g.standard_normal(shp) * 1e3
    a = np.asarray(a, dtype=np.float64)
    if a.ndim >= 2 and a.size and c.r.random() < 0.08:
        # the same values all along one axis (a grey image repeated over its channels)
        i = c.r.randrange(a.ndim)
        a = np.repeat(a.take([0], axis=i), a.shape[i], axis=i)
    return a


def undefined(c, a, p=0.08):
    """now and then a copy of `a` with a few undefined (NaN) samples"""
    if not a.size or c.r.random() > p:
        return a
    a = a.copy()
    for _ in range(c.r.randint(1, 3)):
        a[tuple(c.r.randrange(n) for n in a.shape)] = np.nan
    c.ev("undefined_sample")
    return a


def _repeats(t, i):
    first = t.narrow(i, 0, 1)
    return bool((t == first).all()) and (not t.is_floating_point() or bool((t.signbit() == first.signbit()).all()))


def layout(c, a, dtype=None, kinds=("contig", "contig", "perm", "strided", "offset", "expand")):
    """A tensor equal to `a`, in one of several memory layouts."""
    t = torch.from_numpy(np.array(a, order="C"))
    if dtype is not None:
        t = t.to(dtype)
    k = c.r.choice(kinds)
    if t.ndim == 0 or t.numel() == 0:
        return t, "contig"
    if k == "perm" and t.ndim > 1:
        p = list(range(t.ndim))
        c.r.shuffle(p)
        inv = list(np.argsort(p))
        t = t.permute(p).contiguous().permute([int(i) for i in inv])
    elif k == "strided":
        big = torch.full([d * 2 for d in t.shape], -77, dtype=t.dtype)
        sl = tuple(slice(None, None, 2) for _ in t.shape)
        big[sl] = t
        t = big[sl]
    elif k == "offset":
        big = torch.full([d + 3 for d in t.shape], -77, dtype=t.dtype)
        sl = tuple(slice(1, 1 + d) for d in t.shape)
        big[sl] = t
        t = big[sl]
    elif k == "expand":
        # an axis along which the values repeat becomes a stride-0 axis (what expand and broadcast_to return);
        # axes of length 1 may have any stride at all
        st, k = list(t.stride()), "contig"
        for i, d in enumerate(t.shape):
            if d == 1:
                st[i] = c.r.choice([st[i], 0, 1, 7])
            elif t.numel() <= 20000 and not t.is_complex() and _repeats(t, i):
                st[i], k = 0, "expand"
        t = t.as_strided(t.shape, st)
        if k == "expand":
            c.ev("stride_0")
    return t, k


def axes_subset(c, ndim, kmin=1, kmax=None, ordered=None):
    kmax = min(ndim, kmax or ndim)
    kmin = min(kmin, kmax)
    k = c.r.randint(kmin, kmax)
    ax = c.r.sample(range(ndim), k)
    if ordered is None:
        ordered = c.r.random() < 0.5
    return sorted(ax) if ordered else ax


def spell_axes(c, axes, ndim):
    """One of the equivalent notations of an explicit axes list -> (notation, label)"""
    opts = [("tuple", tuple(axes)), ("list", list(axes)),
            ("neg", tuple(a - ndim for a in axes)),
            ("mixed", [a - ndim if c.r.random() < 0.5 else a for a in axes]),
            ("npint", [np.int64(a) for a in axes]), ("nparray", np.array([a - ndim if c.r.random() < 0.3 else a for a in axes]))]
    if len(axes) == 1:
        opts += [("int", axes[0]), ("negint", axes[0] - ndim)]
    if list(axes) == list(range(ndim)):
        opts += [("None", None), ("slice_all", slice(None))]
    if len(axes) >= 1 and list(axes) == list(range(axes[0], axes[-1] + 1)):
        opts += [("slice", slice(axes[0], axes[-1] + 1)), ("slice_neg", slice(axes[0] - ndim, None if axes[-1] + 1 == ndim else axes[-1] + 1 - ndim))]
    if len(axes) >= 2:
        d = axes[1] - axes[0]
        if d not in (0, 1) and all(q - p == d for p, q in zip(axes, axes[1:])):
            stop = axes[-1] + (1 if d > 0 else -1)
            opts += [("slice_step", slice(axes[0], stop if stop >= 0 else None, d))] * 3
            if d < 0 and axes[0] == ndim - 1 and axes[-1] == 0:
                opts += [("slice_step", slice(None, None, d))]
    return c.r.choice(opts)


def width(c, n, many=0.25):
    p = c.r.random()
    if p < 0.18:
        return 0
    if p < 1 - many:
        return c.r.randint(1, max(1, n))
    return c.r.randint(1, 3 * n + 3)


DT = {torch.float64: np.float64, torch.float32: np.float32, torch.int64: np.int64, torch.int32: np.int32,
      torch.uint8: np.uint8, torch.int16: np.int16}
