"""C24: safe power is real, finite and differentiable where plain power is not."""
import numpy as np
import torch

from .. import gen
from ..core import Workload

RULE = "a case counts when a base is zero or negative with a fractional exponent; identity = (operand kinds, shapes, dtypes, epsilon, values)"
REQUIRED_EVENTS = ["value", "gradient", "neg_fractional", "zero_fractional", "neg_integral", "zero_integral", "mixed_exponents", "broadcast", "number_base", "number_exponent",
                   "integer_base", "float32", "custom_epsilon", "tiny_epsilon", "epsilon_zero", "exponent_zero", "negative_exponent", "scalar_tensor", "zero_dim_dtype", "integer_exponent", "finite", "base_unchanged", "near_integral"]


def bases(c, shp, ints=False):
    if ints:
        return c.g.integers(-6, 7, shp).astype(np.float64)
    a = c.g.standard_normal(shp) * c.r.choice([0.3, 2.0, 6.0])
    a = np.where(np.abs(a) < 0.02, 0.5, a)
    p = c.r.choice([0.0, 0.1, 0.4])
    a = np.where(c.g.random(shp) < p, 0.0, a)
    if c.r.random() < 0.3:
        a = np.round(a)
    return np.asarray(a, np.float64)


def exps(c, shp, double):
    k = c.r.choice(["frac", "int", "mixed", "mixed", "near"])
    fr = c.g.choice([0.5, 1.5, 1 / 3, 2.2, 0.25, 3.75, -0.5, -1.25, 1e-3, 2.9], shp)
    it = c.g.choice([0.0, 1.0, 2.0, 3.0, 4.0, 1.0, 2.0], shp)
    if k == "near":  # close to, or far beyond, the integers met elsewhere
        c.ev("near_integral")
        if double:
            return np.asarray(c.g.choice([3.000001, 2 - 1e-9, 1 + 1e-12, 0.9999999, 4 - 1e-6, 40.5, 3.0, 11.0], shp))
        return np.asarray(np.asarray(c.g.choice([3.000002, 1.9999995, 0.9999998, 12.5, 3.0], shp), np.float32), np.float64)
    if k == "frac":
        return np.asarray(fr)
    if k == "int":
        return np.asarray(it)
    return np.asarray(np.where(c.g.random(shp) < 0.5, fr, it))


def reference(x, e, eps):
    """(value, derivative with respect to the base), elementwise on broadcast float64 arrays"""
    v, d = np.empty(x.shape), np.empty(x.shape)
    for i in np.ndindex(*x.shape):
        b, p = float(x[i]), float(e[i])
        if p == np.floor(p):
            v[i] = b ** p
            d[i] = 0.0 if p == 0 else p * b ** (p - 1)
        else:
            if b == 0:
                b = eps
            s = 1.0
            if b < 0:
                s, b = -1.0, -b
            v[i] = s * b ** p if b else (0.0 if p > 0 else np.inf)
            d[i] = p * b ** (p - 1) if b else np.nan
    return v, d


def unbroadcast(a, shp):
    while a.ndim > len(shp):
        a = a.sum(0)
    for i, n in enumerate(shp):
        if n == 1 and a.shape[i] != 1:
            a = a.sum(i, keepdims=True)
    return a


def power(c):
    from torchimage.misc import safe_power
    mode = c.r.choice(["tt", "tt", "tn", "tn", "nt"])
    shp = gen.shape(c, hi=5, max_elems=60) if c.r.random() < 0.9 else ()
    if c.r.random() < 0.004:
        n = 10 ** c.r.uniform(2, 5.3)
        h = n ** c.r.random()
        shp = c.r.choice([(int(n),), (int(h), int(n / h) or 1)])
        c.ev("huge_shape")
    sx = se = shp
    if mode == "tt" and c.r.random() < 0.6 and shp:
        sx = tuple(1 if c.r.random() < 0.35 else v for v in shp)[c.r.choice([0, 0, len(shp) // 2]):]
        se = tuple(1 if c.r.random() < 0.35 else v for v in shp)[c.r.choice([0, 0, len(shp) // 2]):]
        if sx != se:
            c.ev("broadcast")
    if shp == ():
        c.ev("scalar_tensor")
    if mode == "tt" and c.r.random() < 0.25:  # one 0-dimensional operand
        if c.r.random() < 0.7:
            sx, se = shp, ()
        else:
            sx, se = (), shp
    ints = c.r.random() < 0.2 and mode != "nt"
    dx = c.r.choice([torch.int64, torch.int32]) if ints else c.r.choice([torch.float64, torch.float64, torch.float32])
    de = c.r.choice([torch.float64, torch.float32]) if c.r.random() < 0.3 else (torch.float64 if ints else dx)
    eps = c.r.choice([None, None, None, 1e-3, 1e-4, 0.0, 1e-8, 1e-12, 0.25, 10 ** c.r.uniform(-14, 0)])
    if eps and eps < 1e-7:
        c.ev("tiny_epsilon")
    xa = bases(c, sx if mode != "nt" else (), ints)
    ea = exps(c, se if mode != "tn" else (), dx is torch.float64 and de is torch.float64)
    if not ints and c.r.random() < 0.15:
        # negative integral exponents away from zero
        xa = np.where(xa == 0, 1.5, xa)
        ea = np.where(ea == np.floor(ea), -ea, ea)
        c.ev("negative_exponent")
    if ints and (ea < 0).any():
        ea = np.abs(ea)
    kw = {}
    if eps is not None:
        kw["epsilon"] = eps
        c.ev("epsilon_zero" if eps == 0 else "custom_epsilon")
    epsv = 1e-6 if eps is None else eps
    x, e = xa, ea
    if mode == "nt":
        c.ev("number_base")
        xv = float(xa)
        if xv == int(xv) and c.r.random() < 0.5:
            xv = int(xv)
        if c.r.random() < 0.25:
            de = c.r.choice([torch.int64, torch.int32])
            ea = np.minimum(np.abs(np.round(ea)), 4.0)
            c.ev("integer_exponent")
        e = torch.tensor(ea, dtype=de)
        x = xv
        xa = np.asarray(float(xv))
        ea = e.double().numpy()
        res_dt = torch.result_type(x, e)
    else:
        x = gen.layout(c, xa)[0].to(dx) if c.r.random() < 0.5 else torch.tensor(xa, dtype=dx)
        xa = x.double().numpy()
        if mode == "tn":
            c.ev("number_exponent")
            e = float(ea)
            if e == int(e) and c.r.random() < 0.5:
                e = int(e)
            res_dt = torch.result_type(x, e)
        else:
            e = torch.tensor(ea, dtype=de)
            ea = e.double().numpy()
            res_dt = torch.result_type(x, e)
            if (x.ndim == 0) != (e.ndim == 0) and x.dtype != e.dtype:
                c.ev("zero_dim_dtype")
    if ints:
        c.ev("integer_base")
    grad = torch.is_tensor(x) and x.dtype.is_floating_point
    if grad:
        x = x.detach().clone().requires_grad_(True) if c.r.random() < 0.8 else x.detach().requires_grad_(True)
        keep = x.detach().clone()
    bx, be = np.broadcast_arrays(xa, ea)
    fr = be != np.floor(be)
    if fr.any() and (~fr).any():
        c.ev("mixed_exponents")
    for nm, m in [("neg_fractional", (bx < 0) & fr), ("zero_fractional", (bx == 0) & fr), ("neg_integral", (bx < 0) & ~fr), ("zero_integral", (bx == 0) & ~fr), ("exponent_zero", be == 0)]:
        if m.any():
            c.ev(nm)
    c.nontrivial = bool(((bx <= 0) & fr).any())
    c.note(mode=mode, sx=sx, se=se, dx=str(dx), de=str(de), eps=eps, x0=float(xa.flat[0]) if xa.size else None, e0=float(ea.flat[0]) if ea.size else None)
    v, d = reference(bx, be, epsv)
    y = safe_power(x, e, **kw)
    lo = torch.float32 in (res_dt, x.dtype if torch.is_tensor(x) else de, e.dtype if torch.is_tensor(e) else de) or not res_dt.is_floating_point
    rt = 2e-5 if lo else 1e-11
    c.check(y.dtype == res_dt, "dtype", got=str(y.dtype), want=str(res_dt), mode=mode, dx=str(dx), de=str(de))
    ok = np.isfinite(v)
    yv = y.detach().double().numpy()
    if yv.shape != v.shape:
        c.fail("shape", got=list(yv.shape), want=list(v.shape))
        return
    c.close(yv[ok], v[ok], "value", "value", rtol=rt, scale=np.abs(v[ok]) + 1e-12)
    c.check(bool(np.isfinite(yv[ok]).all()), "not_finite")
    c.ev("finite")
    if lo:
        c.ev("float32")
    if grad:
        c.check(bool(torch.equal(x.detach(), keep)), "base_modified")
        c.ev("base_unchanged")
    if grad and epsv != 0:
        w = c.g.standard_normal(v.shape)
        y.backward(torch.tensor(w, dtype=y.dtype))
        g = unbroadcast(w * d, xa.shape)
        sc = unbroadcast(np.abs(w * d), xa.shape)
        c.check(x.grad is not None and bool(torch.isfinite(x.grad).all()), "gradient_not_finite")
        c.close(x.grad.double(), g, "gradient", "gradient", rtol=rt * 5, scale=sc + 1e-6)


def inf_grad(c):
    """exactly the points where torch.pow's own result or gradient is NaN/infinite"""
    from torchimage.misc import safe_power
    n = c.r.randint(1, 6)
    xa = c.g.choice([0.0, -0.0, -1.0, -2.5, 0.0, 3.0], n)
    ea = c.g.choice([0.5, 0.25, -0.5, 1.5, 2.0, 1.0, 0.0], n)
    number = c.r.random() < 0.4
    e = float(ea[0]) if number else torch.from_numpy(ea)
    if number:
        ea = np.full(n, ea[0])
    x = torch.from_numpy(xa).clone().requires_grad_(True)
    c.note(x=xa, e=ea, number=number)
    c.nontrivial = True
    y = safe_power(x, e)
    y.sum().backward()
    v, d = reference(xa, ea, 1e-6)
    c.close(y, v, "special/value", "value", rtol=1e-12, scale=np.abs(v) + 1e-12)
    c.close(x.grad, d, "special/gradient", "gradient", rtol=1e-10, scale=np.abs(d) + 1e-9)


WORKLOADS = [Workload("power", power, 8000, 100000), Workload("inf_grad", inf_grad, 2000, 20000)]
