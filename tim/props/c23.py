"""C23: ragged arrays report their true shape and expand like broadcasting."""
import numpy as np
import torch

from ..core import Workload
from ..models import rag

RULE = "a case counts when the data has at least two levels or is broadcast; identity = (workload, data, target)"
REQUIRED_EVENTS = ["zero_target_rejected", "strict_shape", "lifted", "ragged", "uneven", "unchanged_data", "expand", "expand_rejected", "expand_repeat", "expand_leading", "expand_keep",
                   "expand_array", "numpy_agrees", "apply", "apply_bad_depth", "empty_level", "nested_lift", "object_array_of_data", "look_alikes"]


def _get(data, strict):
    from torchimage.utils.ragged import get_ragged_ndarray
    return get_ragged_ndarray(data, strict=strict)


def shape_strict(c):
    from torchimage.utils.ragged import get_ragged_ndarray
    d = rag.data(c, c.r.randint(0, 4), uneven=c.r.choice([0, 0, 0.3]))
    t = rag.norm(d)
    c.note(data=rag.show(d))
    dep = rag.sdepth(t)
    c.nontrivial = dep > 1
    if rag.has_empty(t):
        c.ev("empty_level")
    out, shp = get_ragged_ndarray(d) if c.r.random() < 0.5 else _get(d, True)
    want = rag.lengths(t, dep)
    c.ev("strict_shape")
    if -1 in want:
        c.ev("ragged")
    if rag.lift(t)[1] > dep:
        c.ev("uneven")
    c.check(tuple(shp) == want, "strict_shape", got=list(shp), want=list(want))
    c.check(rag.plain(rag.norm(out)) == rag.plain(t), "strict_data_changed", got=rag.show(out), want=rag.show(d))
    c.check(type(out) is type(d), "strict_type_changed")
    c.ev("unchanged_data")


def shape_lift(c):
    d = rag.data(c, c.r.randint(1, 4), uneven=c.r.choice([0, 0.4, 0.7]), arrays=c.r.choice([0, 0.3]))
    t = rag.norm(d)
    c.note(data=rag.show(d))
    out, shp = _get(d, False)
    want, dep = rag.lift(t)
    c.nontrivial = dep > 1
    c.ev("lifted")
    if isinstance(t, tuple) and any(rag.plain(rag.lift(v)[0]) != rag.plain(v) for v in t):
        c.ev("nested_lift")
    c.check(rag.plain(rag.norm(out)) == rag.plain(want), "lift_data", got=rag.show(out), want=repr(want)[:300])
    wl = rag.lengths(want, dep)
    c.check(tuple(shp) == wl, "lift_shape", got=list(shp), want=list(wl))


def _target(c, lens, k):
    tgt = []
    for i in range(k):
        j = len(lens) - k + i
        cur = lens[j] if j >= 0 else None
        p = c.r.random()
        if cur is None:
            v = c.r.choice([-1, 1, 2, 3])
        elif p < 0.3:
            v = -1
        elif p < 0.65:
            v = cur
        else:
            v = c.r.choice([1, 2, 3, 4])
        if c.r.random() < 0.06:
            v = 0
        tgt.append(v)
    return tuple(tgt)


def expand(c):
    from torchimage.utils.ragged import expand_ragged_ndarray
    d = rag.data(c, c.r.randint(0, 3), uneven=c.r.choice([0, 0, 0.2]), zero=0.05)
    t = rag.norm(d)
    dep = rag.sdepth(t)
    lens = rag.lengths(t, dep)
    k = c.r.randint(0, dep + 2)
    tgt = _target(c, lens, k)
    c.note(data=rag.show(d), target=tgt)
    c.nontrivial = True
    if isinstance(d, np.ndarray) or torch.is_tensor(d):
        c.ev("expand_array")
    out0, shp0 = _get(d, True)
    if any(v == 0 for v in tgt) or (rag.has_empty(t) and dep > 1):
        # zero-length levels: only the rejection rule is checked
        try:
            want = rag.expand(t, dep, tgt)
        except rag.Mismatch:
            want = None
        if want is None:
            if any(v == 0 for v in tgt):
                c.ev("zero_target_rejected")
            c.raises(lambda: expand_ragged_ndarray(out0, shp0, tgt), "expand_accepted", "expand_rejected", exc=Exception)
        return
    try:
        want = rag.expand(t, dep, tgt)
    except rag.Mismatch as m:
        c.raises(lambda: expand_ragged_ndarray(out0, shp0, tgt), "expand_accepted", "expand_rejected", exc=Exception, why=str(m))
        return
    out, shp = expand_ragged_ndarray(out0, old_shape=shp0, new_shape=tgt)
    c.ev("expand")
    if rag.plain(want) != rag.plain(t):
        c.ev("expand_repeat")
    if k > dep:
        c.ev("expand_leading")
    if -1 in tgt:
        c.ev("expand_keep")
    c.check(rag.plain(rag.norm(out)) == rag.plain(want), "expand_data", got=rag.show(out), want=repr(want)[:300])
    wl = rag.lengths(want, max(dep, k))
    c.check(tuple(shp) == wl, "expand_shape", got=list(shp), want=list(wl))


def numpy_agrees(c):
    """rectangular data expands to exactly what numpy.broadcast_to gives"""
    from torchimage.utils.ragged import expand_ragged_ndarray, get_ragged_ndarray
    shp = [c.r.choice([1, 1, 2, 3]) for _ in range(c.r.randint(0, 4))]
    a = c.g.integers(-99, 99, shp)
    tgt = [c.r.choice([1, 2, 3]) for _ in range(c.r.randint(0, 2))] + [c.r.choice([1, 2, 3, 4]) if v == 1 else (v if c.r.random() < 0.93 else v + 1) for v in shp]
    kind = c.r.choice(["list", "tuple", "array", "tensor", "mixed"])
    d = {"list": lambda: a.tolist(), "tuple": lambda: rag.plain(rag.norm(a)), "array": lambda: a, "tensor": lambda: torch.from_numpy(np.asarray(a)),
         "mixed": lambda: [v if c.r.random() < 0.5 else np.asarray(v).tolist() for v in a] if a.ndim else int(a)}[kind]()
    c.note(shape=shp, target=tgt, kind=kind)
    c.nontrivial = True
    r, s = get_ragged_ndarray(d)
    c.check(tuple(s) == tuple(shp), "rect_shape", got=list(s), want=shp)
    try:
        e = np.broadcast_to(a, tgt)
    except ValueError:
        c.raises(lambda: expand_ragged_ndarray(r, s, tgt), "expand_accepted", "expand_rejected")
        return
    out, fs = expand_ragged_ndarray(r, s, tgt)
    c.ev("numpy_agrees")
    c.check(tuple(fs) == tuple(tgt), "rect_final_shape", got=list(fs), want=tgt)
    c.check(rag.plain(rag.norm(out)) == rag.plain(rag.norm(e)), "rect_data")


def apply(c):
    from torchimage.utils.ragged import apply_ragged_ndarray
    d = rag.data(c, c.r.randint(0, 3))
    t = rag.norm(d)
    k = c.r.randint(0, rag.sdepth(t))
    c.note(data=rag.show(d), depth=k)
    c.nontrivial = k > 0
    seen = []

    def f(item):
        seen.append(rag.plain(rag.norm(item)))
        return len(seen)
    out = apply_ragged_ndarray(d, f, k)
    items = []

    def walk(n, j):
        if j == 0:
            items.append(rag.plain(n))
            return len(items)
        return tuple(walk(v, j - 1) for v in n)
    want = walk(t, k)
    c.ev("apply")
    c.check(seen == items, "apply_items")
    c.check(rag.plain(rag.norm(out)) == want, "apply_result")
    if c.r.random() < 0.2:
        c.raises(lambda: apply_ragged_ndarray(d, f, c.r.choice([-1, 1.5, "1", None])), "apply_depth_accepted", "apply_bad_depth")


WORKLOADS = [
    Workload("shape_strict", shape_strict, 6000, 80000),
    Workload("shape_lift", shape_lift, 6000, 80000),
    Workload("expand", expand, 8000, 100000),
    Workload("numpy_agrees", numpy_agrees, 4000, 40000),
    Workload("apply", apply, 3000, 30000),
]
