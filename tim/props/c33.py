"""C33: padding-width formats."""
import numpy as np
import torch
import torch.nn.functional as F

from .. import gen
from ..core import Workload

RULE = "a case counts when some width is non-zero; identity = (widths, rank, container types)"
REQUIRED_EVENTS = ["numpy_to_torch", "torch_to_numpy", "round_trip_numpy", "round_trip_torch", "partial_spec", "fpad_agrees", "nppad_agrees", "identity",
                   "unknown_format", "missing_ndim", "empty_spec"]


def pairs_of(v):
    return [tuple(int(q) for q in p) for p in v]


def box(c, seq):
    return c.r.choice([tuple, list])(seq)


def case(c):
    from torchimage.padding.utils import pad_width_format as f
    nd = c.r.randint(1, 6)
    w = [(c.r.randint(0, 4), c.r.randint(0, 4)) for _ in range(nd)]
    if c.r.random() < 0.3:
        w = [(i * 2 + 1, i * 2 + 2) for i in range(nd)]       # all different
    c.note(w=w)
    c.nontrivial = any(v for p in w for v in p)
    arg = c.r.choice([lambda: tuple(w), lambda: [list(p) for p in w], lambda: np.array(w), lambda: [tuple(p) for p in w], lambda: tuple(list(p) for p in w)])()
    flat = [v for p in reversed(w) for v in p]
    got = f(arg, "numpy", "torch") if c.r.random() < 0.6 else f(arg)
    c.check([int(v) for v in got] == flat, "numpy_to_torch", got=repr(got), want=flat)
    c.ev("numpy_to_torch")
    back = f(got, "torch", "numpy", ndim=nd)
    c.check(pairs_of(back) == w, "round_trip_numpy", got=repr(back), want=w)
    c.ev("round_trip_numpy")
    # partial torch spec of the last m axes
    m = c.r.randint(0, nd)
    part = flat[:2 * m]
    full = f(box(c, part), "torch", "numpy", ndim=nd)
    want = [(0, 0)] * (nd - m) + w[nd - m:]
    c.check(pairs_of(full) == want, "torch_to_numpy", got=repr(full), want=want, m=m)
    c.ev("torch_to_numpy")
    if m < nd:
        c.ev("partial_spec")
    if m == 0:
        c.ev("empty_spec")
    again = [int(v) for v in f(full, "numpy", "torch")]
    c.check(again == part + [0] * (2 * (nd - m)), "round_trip_torch", got=again)
    c.ev("round_trip_torch")
    # the converted widths pad the same axes in the other library
    shape = tuple(c.r.randint(1, 3) for _ in range(nd))
    if nd <= 4:
        a = c.g.standard_normal(shape)
        x = torch.from_numpy(a)
        c.exact(F.pad(x, [int(v) for v in got]), np.pad(a, w), "fpad")
        c.ev("fpad_agrees")
        c.exact(np.pad(a, pairs_of(full)), F.pad(x, part).numpy() if part else a, "nppad")
        c.ev("nppad_agrees")
    same = f(arg, "numpy", "numpy")
    c.check(pairs_of(same) == w, "identity_numpy", got=repr(same))
    c.check([int(v) for v in f(got, "torch", "torch")] == flat, "identity_torch")
    c.ev("identity")
    s, t = c.r.choice([("numpy", "tf"), ("tensorflow", "torch"), ("torch", "jax"), ("Numpy", "torch"), ("torch", "Numpy"), ("numpy", ""), ("", "torch"), ("numpy", None), (None, "torch"),
                       ("pytorch", "numpy"), ("numpy", "pytorch"), ("np", "torch")])
    c.raises(lambda: f(arg if s == "numpy" else got, s, t, ndim=nd), "unknown_accepted", "unknown_format", formats=[s, t])
    c.raises(lambda: f(got, "torch", "numpy"), "missing_ndim_accepted", "missing_ndim")


WORKLOADS = [Workload("formats", case, 3000, 40000)]
