"""C36: edge losses compare the Gaussian-gradient components as their formulas state."""
import numpy as np
import torch

from .. import gen
from ..core import Workload
from .c10 import kernel as gk
from .c12 import component

RULE = "a case counts when the two images differ; identity = (loss, kernel size, sigma, order, shape, values kind)"
REQUIRED_EVENTS = ["loss_GaussianEdgeLoss", "loss_WeightedMul", "loss_WeightedDiv", "loss_WeightedSum", "identical_zero", "symmetric", "nonnegative", "even_kernel", "order_0", "order_1",
                   "order_2", "kernel_gt_image", "float32", "gradient", "gradient_GaussianEdgeLoss", "gradient_WeightedMul", "gradient_WeightedDiv", "gradient_WeightedSum", "gradient_true", "reused_module", "overwritten_in_place", "scalar", "permuted_batch"]
NAMES = ["GaussianEdgeLoss", "WeightedMul", "WeightedDiv", "WeightedSum"]


def edges(x, ks, sigma, order):
    ek = gk(ks, sigma, order)
    sk = gk(ks, sigma, 0)
    sk = sk / sk.sum()
    return np.concatenate([component(x, a, [b], ek, [sk], "reflect") for a, b in ((2, 3), (3, 2))], axis=1)


def reference(name, p, t):
    with np.errstate(all="ignore"):
        if name == "GaussianEdgeLoss":
            return np.abs(p - t).mean(), np.abs(p).mean() + np.abs(t).mean()
        if name == "WeightedMul":
            return (np.abs(t - p) * t).mean(), (np.abs(t - p) * np.abs(t)).mean() + (np.abs(t).max() + np.abs(p).max()) * np.abs(t).mean()
        if name == "WeightedDiv":
            m = max(np.abs(t).max(), np.abs(p).max())
            return (np.abs(t - p) / t).mean(), (m / np.abs(t) + m * np.abs(t - p) / t ** 2).mean()
        return np.abs(np.abs(t).mean((2, 3)) - np.abs(p).mean((2, 3))).mean(), np.abs(p).mean() + np.abs(t).mean()


def make(c):
    from torchimage.contrib import edge_loss as E
    name = c.r.choice(NAMES)
    ks, sigma, order = c.r.choice([1, 2, 3, 3, 5, 5, 7, 4]), round(c.r.uniform(0.4, 2.5), 2), c.r.choice([0, 1, 1, 2, 3])
    return name, ks, sigma, order, getattr(E, name)(ks, sigma, order)


def formula(c):
    name, ks, sigma, order, m = make(c)
    n_calls, last = c.r.choice([1, 1, 2]), None
    for call in range(n_calls):
        shape = (c.r.randint(1, 3), c.r.randint(1, 3), gen.dim(c, 1, 8, 40), gen.dim(c, 1, 8, 40))
        shape = gen.many(c, (shape[0],), 0.02)[:1] + shape[1:]
        lo = c.r.random() < 0.15
        dt = torch.float32 if lo else torch.float64
        again = call and c.r.random() < 0.6
        if again:
            shape, dt = tuple(last[0].shape), last[0].dtype
            lo = dt == torch.float32
        a = np.asarray(gen.values(c, shape), np.float64)
        b = a + c.g.standard_normal(shape) * c.r.choice([0.1, 1.0, 5.0])
        kind = c.r.choice(["pair", "pair", "pair", "same", "independent", "scaled"])
        b = a.copy() if kind == "same" else c.g.standard_normal(shape) * 4 if kind == "independent" else a * c.r.choice([-1, 2, 0.5]) if kind == "scaled" else b
        p, t = gen.layout(c, a)[0].to(dt), torch.tensor(b, dtype=dt)
        if again:       # the very tensors of the call before, overwritten in place
            c.ev("overwritten_in_place")
            if 0 not in last[0].stride():
                p = last[0].copy_(p)
            t = last[1].copy_(t)
        last = p, t
        a, b = p.double().numpy().copy(), t.double().numpy().copy()
        c.note(loss=name, ks=ks, sigma=sigma, order=order, shape=shape, kind=kind, f32=lo)
        c.nontrivial = c.nontrivial or kind != "same"
        ep, et = edges(a, ks, sigma, order), edges(b, ks, sigma, order)
        want, scale = reference(name, ep, et)
        got = m.forward(p, t) if c.r.random() < 0.5 else m(p, t)
        c.check(got.shape == (), "not_scalar", got=list(got.shape))
        c.ev("scalar")
        c.check(got.dtype == dt, "dtype", got=str(got.dtype))
        c.ev("loss_" + name)
        c.ev(f"order_{order}")
        if ks % 2 == 0:
            c.ev("even_kernel")
        if ks > min(shape[2:]):
            c.ev("kernel_gt_image")
        if call:
            c.ev("reused_module")
        if lo:
            c.ev("float32")
        amp = max(1.0, np.abs(gk(ks, sigma, order)).sum() * max(np.abs(a).max(), np.abs(b).max()) / max(1e-300, np.abs(et).max() + np.abs(ep).max()))
        rt = (3e-5 if lo else 1e-10) * amp
        if np.isfinite(want) and rt * scale < 1e3 and (name != "WeightedDiv" or np.abs(et).min() > 1e-6 * amp * np.abs(et).max()):
            c.close(got, want, "formula", rtol=rt, scale=scale + 1e-12 * max(np.abs(a).max(), np.abs(b).max(), 1e-3), loss=name)
        if c.r.random() < 0.3:
            continue        # other calls in between would hide what the object remembers
        if kind == "same" and name != "WeightedDiv":
            c.ev("identical_zero")
            c.check(float(m(t, t)) == 0.0, "identical_not_zero", loss=name)
        if name in ("GaussianEdgeLoss", "WeightedSum"):
            c.ev("nonnegative")
            c.check(float(got) >= 0, "negative_loss", got=float(got))
            c.ev("symmetric")
            c.close(m(t, p), float(got), "not_symmetric", rtol=rt, scale=scale + 1e-12 * max(np.abs(a).max(), np.abs(b).max(), 1e-3))
        if shape[0] > 1 and name != "WeightedDiv":
            c.ev("permuted_batch")
            q = torch.tensor(c.g.permutation(shape[0]))
            c.close(m(p[q], t[q]), float(got), "batch_order", rtol=rt, scale=scale + 1e-12 * max(np.abs(a).max(), np.abs(b).max(), 1e-3))


def directional(name, p, t, dp, dt):
    """derivative of the loss along (dp, dt) in component space, and the sum of the absolute terms"""
    n = p.size
    if name == "WeightedSum":
        m = lambda v: v.mean((2, 3))
        s = np.sign(m(np.abs(t)) - m(np.abs(p)))
        return (s * (m(np.sign(t) * dt) - m(np.sign(p) * dp))).mean(), (m(np.abs(dt)) + m(np.abs(dp))).mean()
    s, d = np.sign(t - p), dt - dp
    if name == "GaussianEdgeLoss":
        terms = [s * d]
    elif name == "WeightedMul":
        terms = [s * d * t, np.abs(t - p) * dt]
    else:
        terms = [s * d / t, -np.abs(t - p) * dt / t ** 2] if name != "WeightedDiv" or np.abs(t).min() > 0 else [s * np.nan]
    return sum(v.sum() for v in terms) / n, sum(np.abs(v).sum() for v in terms) / n


def grad(c):
    """directional derivatives of the loss with respect to prediction and target against the formulas'"""
    name, ks, sigma, order, m = make(c)
    shape = (c.r.randint(1, 2), c.r.randint(1, 2), c.r.randint(1 if c.r.random() < 0.2 else 3, 6), c.r.randint(3, 6))
    a, b = c.g.standard_normal(shape) * 2, c.g.standard_normal(shape) * 2
    if name == "WeightedDiv" and order == 0:
        b = np.abs(b) + 0.5   # denominators away from zero
    da, db = c.g.standard_normal(shape), c.g.standard_normal(shape)
    wrt = c.r.choice(["pred", "true", "both", "both"])
    da, db = da * (wrt != "true"), db * (wrt != "pred")
    c.note(loss=name, ks=ks, sigma=sigma, order=order, shape=shape, wrt=wrt)
    ep, et, dp, dt = (edges(v, ks, sigma, order) for v in (a, b, da, db))
    tiny = 1e-9 * max(np.abs(ep).max(), np.abs(et).max(), 1e-300)
    small = lambda k, d: (np.abs(k) < 1e4 * tiny) & (np.abs(d) > tiny)
    # on a kink every subgradient is right; components that vanish identically (reflected borders) do not matter
    kinks = [(ep, dp), (et, dt)] if name == "WeightedSum" else [(ep - et, np.abs(dp) + np.abs(dt))]
    if any(small(k, d).any() for k, d in kinks) or name == "WeightedDiv" and not np.abs(et).min() > 1e-3 * np.abs(et).max():
        return
    if name == "WeightedSum" and np.abs(np.abs(et).mean((2, 3)) - np.abs(ep).mean((2, 3))).min() < 1e4 * tiny:
        return
    want, scale = directional(name, ep, et, dp, dt)
    p, t = (torch.tensor(v, requires_grad=wrt != k) for v, k in ((a, "true"), (b, "pred")))
    m(p, t).backward()
    c.nontrivial = True
    c.ev("gradient")
    c.ev("gradient_" + name)
    if wrt != "pred":
        c.ev("gradient_true")
    parts = [(v.grad.numpy() * d) for v, d in ((p, da), (t, db)) if v.requires_grad]
    an = sum(v.sum() for v in parts)
    sc = sum(np.abs(v).sum() for v in parts) + scale
    c.check(bool(abs(an - want) <= 1e-7 * sc + 1e-12), "gradient", got=float(an), want=float(want), wrt=wrt)


WORKLOADS = [Workload("formula", formula, 4000, 60000), Workload("grad", grad, 1500, 20000)]
