"""C25: polynomial, outer product and summary statistics match their definitions."""
import math

import numpy as np
import torch

from .. import gen
from ..core import Workload

RULE = "a case counts for degree >= 1 / rank >= 1 operands / at least two elements; identity = (workload, shapes, dtype, coefficients, kind)"
REQUIRED_EVENTS = ["poly_deg0", "poly_deg1", "poly_deg2", "poly_high", "poly_float32", "poly_array", "poly_tuple", "poly_int", "outer_tensor", "outer_array",
                   "outer_scalar_rank", "outer_high_rank", "describe", "describe_two", "describe_large", "describe_16M", "poly_zero_coefficient", "poly_gradient", "poly_long", "poly_tiny_coefficients"]


def poly(c):
    from torchimage.misc import poly1d
    shp = gen.shape(c, hi=5, max_elems=120) if c.r.random() < 0.9 else ()
    n = c.r.choice([1, 2, 3, 4, 5, 6, 9, c.r.randint(10, 40)])
    p = [c.r.choice([0.0, 1.0, round(c.r.uniform(-4, 4), 3), round(c.r.uniform(-4, 4), 3)]) for _ in range(n)]
    if c.r.random() < 0.2:
        p = [int(v) for v in p]
        c.ev("poly_int")
    if n >= 10:
        c.ev("poly_long")
    if c.r.random() < 0.1 and isinstance(p[0], float):
        # coefficients of very different sizes; the leading one may be tiny
        p = [v * 10.0 ** c.r.uniform(-13, 2) for v in p]
        c.ev("poly_tiny_coefficients")
    if 0 in p:
        c.ev("poly_zero_coefficient")
    k = c.r.choice(["list", "tuple", "array", "array32"])
    arr = {"list": list(p), "tuple": tuple(p), "array": np.array(p), "array32": np.array(p, dtype=np.float64 if isinstance(p[0], float) else np.int64)}[k]
    c.ev({"list": "poly_list", "tuple": "poly_tuple"}.get(k, "poly_array"))
    dt = c.r.choice([torch.float64, torch.float64, torch.float32])
    a = c.g.standard_normal(shp) * (c.r.choice([0.5, 1]) if n >= 10 else c.r.choice([0.5, 1, 2, 300, 1e-4]))
    x, lay = gen.layout(c, np.asarray(a, np.float64), dtype=dt)
    if dt == torch.float32:
        c.ev("poly_float32")
    a = x.double().numpy()
    grad = c.r.random() < 0.3 and n > 1
    if grad:
        x = x.detach().clone().requires_grad_(True)
    c.note(shape=shp, p=p, kind=k, dtype=str(dt), layout=lay)
    c.ev({1: "poly_deg0", 2: "poly_deg1", 3: "poly_deg2"}.get(n, "poly_high"))
    c.nontrivial = n > 1
    y = poly1d(x, arr)
    if not torch.is_tensor(y):
        c.fail("poly/type", got=type(y).__name__, kind=k)
        return
    e = sum(p[i] * a ** (n - 1 - i) for i in range(n)) + np.zeros(shp)
    sc = sum(abs(p[i]) * np.abs(a) ** (n - 1 - i) for i in range(n)) + (1e-300 if dt == torch.float64 else 1e-30)
    c.close(y, e, "poly", rtol=1e-12 if dt == torch.float64 else 2e-5, scale=sc)
    c.check(y.dtype == dt, "poly/dtype", got=str(y.dtype), want=str(dt), kind=k)
    if grad:
        y.sum().backward()
        d = sum(p[i] * (n - 1 - i) * a ** max(n - 2 - i, 0) for i in range(n)) + np.zeros(shp)
        ds = sum(abs(p[i]) * (n - 1 - i) * np.abs(a) ** max(n - 2 - i, 0) for i in range(n)) + np.zeros(shp)
        c.close(x.grad, d, "poly/gradient", "poly_gradient", rtol=1e-11 if dt == torch.float64 else 2e-4, scale=np.abs(d).max(initial=0) + sc.max(initial=0) * 10 + ds.max(initial=0))


def outer(c):
    from torchimage.misc import outer as f
    s1 = gen.shape(c, ndim_lo=0, ndim_hi=3, hi=4, max_elems=30)
    s2 = gen.shape(c, ndim_lo=0, ndim_hi=3, hi=4, max_elems=30)
    a, b = gen.values(c, s1), gen.values(c, s2)
    kind = c.r.choice(["tensor", "tensor", "array"])
    if kind == "tensor":
        u, v = gen.layout(c, a)[0], gen.layout(c, b)[0]
    else:
        u, v = a, b
    if c.r.random() < 0.2:
        a, b = np.round(a), np.round(b)
        u = torch.tensor(a, dtype=torch.int64) if kind == "tensor" else a.astype(np.int64)
        v = torch.tensor(b, dtype=torch.int64) if kind == "tensor" else b.astype(np.int64)
    c.note(s1=s1, s2=s2, kind=kind)
    c.ev("outer_" + kind)
    if not s1 or not s2:
        c.ev("outer_scalar_rank")
    if len(s1) + len(s2) >= 5:
        c.ev("outer_high_rank")
    c.nontrivial = len(s1) + len(s2) > 1
    y = f(u, v)
    e = np.empty(s1 + s2)
    for i in np.ndindex(*s1):
        for j in np.ndindex(*s2):
            e[i + j] = a[i] * b[j]
    c.exact(y, e, "outer")


def describe(c, big=None):
    from torchimage.misc import describe as f
    shp = gen.shape(c, hi=6)
    n = int(np.prod(shp))
    if n < 2:
        shp = (2,)
    dt = c.r.choice([torch.float64, torch.float32])
    if big is None:
        a = gen.values(c, shp)
        x, lay = gen.layout(c, a, dtype=dt)
    else:
        a = c.g.standard_normal(big) ** c.r.choice([1, 2, 3])
        shp, lay, x = a.shape, "contig", torch.from_numpy(a).to(dt)
    v = np.sort(x.double().numpy().ravel())
    n = v.size
    c.note(shape=shp, dtype=str(dt), layout=lay, v0=float(v[0]))
    c.nontrivial = True
    if n == 2:
        c.ev("describe_two")

    def q(t):
        h = (n - 1) * t
        lo = math.floor(h)
        hi = min(lo + 1, n - 1)
        return v[lo] + (h - lo) * (v[hi] - v[lo])
    mean = v.sum() / n
    e = {"mean": mean, "std": math.sqrt(((v - mean) ** 2).sum() / (n - 1)), "min": v[0], "25%": q(0.25), "50%": q(0.5), "75%": q(0.75), "max": v[-1]}
    d = f(x)
    c.check(set(d) == set(e), "describe/keys", got=sorted(d))
    rt = 1e-11 if dt == torch.float64 else 2e-5
    for k, w in e.items():
        c.close(d[k], w, "describe/" + k, "describe", rtol=rt, scale=np.abs(v).max() + 1e-6)


def describe_large(c):
    big = [(70001,), (3, 311, 331), (1100003,), (1 << 11, 1033), (257, 257), ((1 << 24) + 5,)][c.index % 6]
    describe(c, big)
    c.ev("describe_large")
    if a_lot(big):
        c.ev("describe_16M")


def a_lot(s):
    return int(np.prod(s)) > 1 << 24


WORKLOADS = [Workload("poly", poly, 5000, 60000), Workload("outer", outer, 3000, 30000), Workload("describe", describe, 2500, 25000), Workload("describe_large", describe_large, 6, 30)]
