"""C06: no result depends on uninitialised memory.

Sanitizer: every allocation of uninitialised memory that reaches torch's
dispatcher (empty, empty_like, new_empty, empty_strided, resize_, ...) or numpy's
empty/empty_like is filled with a poison before the library sees it.  The same
call is executed under different poisons, and once more with torch's own
fill-uninitialised-memory mode; all results must be bit-identical.
"""
import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode

from .. import gen, ops, padcase
from ..core import Workload, to_np
from ..models import padm

RULE = "a case counts when the call allocated at least one poisoned buffer; identity = (operation, arguments, poison order)"
REQUIRED_EVENTS = ["poisoned_allocations", "aten_fill_mode"] + ["op_" + n for n in ops.NAMES] + ["pad_mode_" + m for m in padm.ALL_MODES] + ["empty_mode_interior", "empty_axis_raised", "empty_axis_result"]

_ALLOC = {"empty", "empty_like", "new_empty", "empty_strided", "new_empty_strided", "empty_permuted", "resize_", "resize"}
POISONS = [(float("nan"), 77), (1.0e33, 19), (-12345.678, 3), (0.0, 0), (float("-inf"), 113)]


class Poison(TorchDispatchMode):
    def __init__(self, poison):
        super().__init__()
        self.f, self.i = poison
        self.n = 0

    def fill(self, t):
        if t.numel():
            self.n += 1
            if t.dtype == torch.bool:
                t.fill_(bool(self.i & 1))
            else:
                t.fill_(self.f if t.dtype.is_floating_point or t.dtype.is_complex else self.i)

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        out = func(*args, **(kwargs or {}))
        if func._schema.name.split("::")[-1] in _ALLOC and torch.is_tensor(out):
            if func._schema.name.endswith("resize_"):
                return out
            self.fill(out.detach())
        return out


class NpPoison:
    def __init__(self, poison):
        self.p = poison

    def __enter__(self):
        self.saved = np.empty, np.empty_like

        def wrap(fn):
            def g(*a, **k):
                r = fn(*a, **k)
                if r.dtype.kind == "f":
                    r.fill(self.p[0])
                elif r.dtype.kind in "iu":
                    r.fill(self.p[1])
                return r
            return g
        np.empty, np.empty_like = wrap(np.empty), wrap(np.empty_like)

    def __exit__(self, *a):
        np.empty, np.empty_like = self.saved


def run(op, t, poison, dtype):
    with NpPoison(poison), Poison(poison) as m:
        r = op.call(op.build(dtype), t)
    return r, m.n


def same(c, rs, mech, op):
    base = [to_np(t) for t in rs[0]]
    for r in rs[1:]:
        for a, b in zip(base, r):
            c.exact(b, a, mech, op=op.name)


def catalogue(c):
    mk = ops.ALL_OPS[c.index % len(ops.ALL_OPS)]
    op = mk(c)
    dtype = c.r.choice([torch.float64, torch.float32])
    t = op.tensors(dtype)
    two = c.r.sample(POISONS, 2)
    rs, n = [], 0
    for p in two:
        r, k = run(op, t, p, dtype)
        rs.append(r)
        n += k
    old = torch.are_deterministic_algorithms_enabled(), torch.is_deterministic_algorithms_warn_only_enabled()
    torch.use_deterministic_algorithms(True, warn_only=True)
    torch.utils.deterministic.fill_uninitialized_memory = True
    try:
        rs.append(op.call(op.build(dtype), t))
        c.ev("aten_fill_mode")
    finally:
        torch.use_deterministic_algorithms(old[0], warn_only=old[1])
    c.note(op=op.name, dtype=str(dtype), poisons=[repr(p) for p in two], **op.desc)
    c.ev("op_" + op.name)
    c.ev("poisoned_allocations", n)
    c.nontrivial = n > 0
    same(c, rs, "uninitialised/" + op.name, op)


def padding(c):
    """every padding mode, mixed over axes"""
    shp = gen.shape(c, ndim_hi=4)
    p = padcase.make(c, shp, padm.ALL_MODES)
    x = torch.from_numpy(gen.values(c, shp))
    two = c.r.sample(POISONS, 2)
    c.note(**padcase.describe(p), poisons=[repr(v) for v in two])
    rs, n = [], 0
    for po in two:
        with NpPoison(po), Poison(po) as m:
            rs.append(padcase.build(p).forward(x, axes=p["notation"]))
        n += m.n
    c.nontrivial = n > 0
    c.ev("poisoned_allocations", n)
    for s in p["meaning"]:
        if s["before"] or s["after"]:
            c.ev("pad_mode_" + s["mode"])
    c.exact(rs[1], to_np(rs[0]), "uninitialised/pad", pad=padcase.describe(p)["pad"])


def padding_with_empty(c):
    """mode 'empty' leaves its own border undefined and nothing else"""
    shp = gen.shape(c, ndim_lo=2, ndim_hi=3)
    p = padcase.make(c, shp, padm.ALL_MODES + ["empty"] * 6)
    x = torch.from_numpy(gen.values(c, shp))
    two = c.r.sample(POISONS, 2)
    c.note(**padcase.describe(p), poisons=[repr(v) for v in two])
    idx = [slice(None)] * len(shp)
    has = False
    for s in p["meaning"]:
        if s["mode"] == "empty" and (s["before"] or s["after"]):
            has = True
            idx[s["axis"]] = slice(s["before"], s["before"] + shp[s["axis"]])
    rs = []
    for po in two:
        with Poison(po):
            rs.append(padcase.build(p).forward(x, axes=p["notation"]))
    c.nontrivial = has
    c.ev("empty_mode_interior" if has else "no_empty_axis")
    c.exact(rs[1][tuple(idx)], to_np(rs[0][tuple(idx)]), "uninitialised/outside_empty_border", pad=padcase.describe(p)["pad"])


def empty_axis(c):
    """an axis of length 0: padding raises or is determined by the arguments"""
    shp = list(gen.shape(c, ndim_lo=1, ndim_hi=3))
    p = padcase.make(c, tuple(shp), padm.ALL_MODES)
    shp[c.r.choice(p["axes"])] = 0
    x = torch.zeros(shp, dtype=torch.float64)
    rs = []
    two = c.r.sample(POISONS, 2)
    for po in two:
        try:
            with NpPoison(po), Poison(po) as m:
                rs.append(padcase.build(p).forward(x, axes=p["notation"]))
        except Exception as e:
            rs.append(type(e).__name__)
    c.note(**padcase.describe(p), poisons=[repr(v) for v in two], empty=shp)
    c.ev("empty_axis")
    if isinstance(rs[0], str) or isinstance(rs[1], str):
        c.check(isinstance(rs[0], str) and isinstance(rs[1], str), "uninitialised/empty_axis_raises")
        c.ev("empty_axis_raised")
        return
    c.nontrivial = rs[0].numel() > 0
    c.exact(rs[1], to_np(rs[0]), "uninitialised/empty_axis", "empty_axis_result", pad=padcase.describe(p)["pad"])


WORKLOADS = [
    Workload("catalogue", catalogue, len(ops.ALL_OPS) * 45, len(ops.ALL_OPS) * 700),
    Workload("padding", padding, 1200, 15000),
    Workload("padding_with_empty", padding_with_empty, 500, 6000),
    Workload("empty_axis", empty_axis, 500, 5000),
]
