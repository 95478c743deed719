"""Random Padder configurations and their meaning (per-axis parameters)."""
import numpy as np
import torch

from . import gen
from .models import padm


def narrow(c, pairs):
    """the same numbers as numpy scalars or arrays of a narrower type that holds them exactly"""
    flat = [v for p in (pairs if isinstance(pairs, list) else [pairs]) for v in p]
    if any(v is None for v in flat):
        return None
    ts = [np.int16, np.int32, np.int64] if all(isinstance(v, int) for v in flat) else [np.float16, np.float32, np.float32, np.float64]
    ts = [t for t in ts if all(np.isfinite(t(v)) and float(t(v)) == v for v in flat)]
    if not ts:
        return None
    t = c.r.choice(ts)
    c.ev("numpy_" + t.__name__)
    if c.r.random() < 0.5:
        return np.array(pairs, dtype=t).reshape(-1, 2) if isinstance(pairs, list) else [t(v) for v in pairs]
    return [tuple(t(v) for v in p) for p in pairs] if isinstance(pairs, list) else np.array(pairs, dtype=t)


def spell_pairs(c, pairs, k, none_ok=False):
    """pairs: per-item (a, b) values for a list of items, or a single pair (item).
    -> one of the notations that mean the same"""
    if isinstance(pairs, tuple):       # one item for every axis
        a, b = pairs
        opts = [(a, b), [a, b]]
        if a is b or a == b:
            opts += [a, a, [a]]
        if a is not None and b is not None:
            opts.append(np.array([a, b]))
            opts.append(torch.from_numpy(np.array([a, b])))
    else:
        opts = [list(map(tuple, pairs)), tuple(map(list, pairs)), tuple(map(tuple, pairs))]
        if all(a is b or a == b for a, b in pairs):
            opts += [[[a] for a, _ in pairs], [(a,) for a, _ in pairs]]
        if all(v is not None for p in pairs for v in p):
            opts.append(np.array(pairs))
    v = c.r.choice(opts)
    if c.r.random() < 0.15:
        w = narrow(c, pairs)
        v = v if w is None else w
    if c.r.random() < 0.12:
        from torchimage.utils import NdSpec
        v = NdSpec(v, item_shape=[2])
    return v


def one_spec(c, n, modes):
    """parameters for one axis of length n"""
    m = c.r.choice(modes)
    cap = 3 if c.r.random() < 0.6 else None
    b = gen.width(c, n) if cap is None else c.r.randint(0, cap)
    a = gen.width(c, n) if cap is None else c.r.randint(0, cap)
    q = c.r.random()
    if q < 0.12:
        b = 0
    elif q < 0.24:
        a = 0
    elif q < 0.4:
        a = b
    num = lambda: c.r.choice([0, 1, -2, 2.5, -0.75, c.r.uniform(-9, 9)])
    sl = lambda: c.r.choice([None, 0, 1, 2, 3, n, n + 4])
    cv = (num(), num())
    ev = (float(num()), float(num()))
    return dict(before=b, after=a, mode=m, cv=cv, ev=ev, sl=(sl(), sl()))


KEYS = ("pad_width", "mode", "constant_values", "end_values", "stat_length")


def make(c, shape, modes=padm.ALL_MODES, axes=None, force_list=None, int_params=False, repeat=0.0):
    """repeat: probability that one of the axes is listed twice"""
    if axes is None and repeat and c.r.random() < repeat:
        axes = gen.axes_subset(c, len(shape), kmax=3)
        axes.insert(c.r.randint(0, len(axes)), c.r.choice(axes))
        c.ev("repeated_axis")
    while True:
        p = _make(c, shape, modes, axes, force_list, int_params)
        if np.prod([float(n) for n in out_shape(p)]) <= 400_000:
            return p


def _make(c, shape, modes, axes, force_list, int_params):
    """-> dict(kwargs for Padder, axes list, notation of axes, meaning=[spec with axis])

    Right-justified semantics: with per-axis lists of length L over k axes, the
    last min(L, k) axes are padded.
    """
    nd = len(shape)
    if axes is None:
        axes = gen.axes_subset(c, nd)
    k = len(axes)
    nmin = min(shape[a] for a in axes)
    is_list = {}
    for key in KEYS:
        is_list[key] = c.r.random() < 0.5 if force_list is None else force_list
    if not any(is_list.values()):
        L = k
    else:
        L = c.r.choice([k, k, k, max(1, k - 1), k + 1, k + 2])
    specs = []
    for i in range(max(L, k)):
        pos = i - max(L, k)          # negative position
        n = shape[axes[pos]] if -pos <= k else nmin
        s = one_spec(c, n, modes)
        if int_params:
            s["cv"] = tuple(int(v) for v in s["cv"])
        specs.append(s)
    items = specs[-L:]
    common = items[-1]
    fld = {"pad_width": ("before", "after"), "mode": "mode", "constant_values": "cv", "end_values": "ev", "stat_length": "sl"}
    kw = {}
    for key in KEYS:
        f = fld[key]
        if not is_list[key]:
            for s in specs:
                if isinstance(f, tuple):
                    s[f[0]], s[f[1]] = common[f[0]], common[f[1]]
                else:
                    s[f] = common[f]
        if key == "mode":
            v = [s["mode"] for s in items] if is_list[key] else common["mode"]
            if is_list[key] and c.r.random() < 0.3:
                v = tuple(v)
            kw[key] = v
        else:
            get = (lambda s: (s["before"], s["after"])) if isinstance(f, tuple) else (lambda s: tuple(s[f]))
            kw[key] = spell_pairs(c, [get(s) for s in items] if is_list[key] else get(common), k)
    used = set(s["mode"] for s in items if isinstance(s["mode"], str))
    # leave out parameters that no mode in use reads, half of the time
    for key, need in (("constant_values", {"constant"}), ("end_values", {"linear_ramp"}), ("stat_length", set(padm.STAT_MODES))):
        if not (used & need) and c.r.random() < 0.6:
            del kw[key]
            is_list[key] = False
    # removing list parameters may leave no list at all: then there is no length
    any_list = any(is_list[key] for key in KEYS)
    npad = min(L, k) if any_list else k
    meaning = []
    for i in range(-npad, 0):
        s = dict(items[i] if any_list else common)
        s["axis"] = axes[i]
        meaning.append(s)
    lab, notation = gen.spell_axes(c, axes, nd)
    return dict(kwargs=kw, axes=axes, notation=notation, axes_label=lab, meaning=meaning, shape=shape)


def describe(p):
    from .core import jsonable
    return dict(shape=list(p["shape"]), axes=p["axes"], spelled=p["axes_label"],
                pad=[(s["axis"], s["before"], s["after"], s["mode"] if isinstance(s["mode"], str) else "fn") for s in p["meaning"]],
                kw={k: jsonable(v) for k, v in p["kwargs"].items() if k in ("constant_values", "end_values", "stat_length")})


def build(p):
    from torchimage.padding import Padder
    return Padder(**p["kwargs"])


def nontrivial(p):
    return any(s["before"] or s["after"] for s in p["meaning"])


def out_shape(p):
    sh = list(p["shape"])
    for s in p["meaning"]:
        sh[s["axis"]] = padm.out_len(s["mode"], sh[s["axis"]], s["before"], s["after"])
    return tuple(sh)


def inner(p):
    idx = [slice(None)] * len(p["shape"])
    for s in p["meaning"]:
        a = s["axis"]
        first = (idx[a].start or 0) + s["before"]      # an axis listed twice is padded twice
        idx[a] = slice(first, first + p["shape"][a])
    return tuple(idx)
