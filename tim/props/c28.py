"""C28: gradients through every operation are those of the function computed.

Oracle: central differences of the very same call along random directions, in
float64, at two step sizes.  Points where the two disagree (a kink within the
step) are not judged.  For random cotangents and directions, agreement of the
directional derivatives determines the whole gradient.
"""
import numpy as np
import torch

from .. import ops
from ..core import Workload

RULE = "a case counts when at least one directional derivative was judged; identity = (operation, arguments)"
SKIP = {"describe"}
GRAD_NAMES = [n for n in ops.NAMES if n not in ("describe", "add_poisson_gauss_noise")]
REQUIRED_EVENTS = ["direction", "second_direction", "attached", "leaf_input", "nonleaf_input", "parameters", "zero_gradient_inputs"] + ["op_" + n for n in GRAD_NAMES] + \
    ["pad_" + m for m in ops.padm.ALL_MODES]
MAKERS = [m for m in ops.ALL_OPS if m not in (ops.describe,)]


def jitter(c, a):
    """same size and scale, no ties (so that max/min/median/clamp are differentiable there)"""
    s = max(float(np.abs(a).max(initial=0)), 1.0)
    return a + c.g.uniform(-0.01, 0.01, a.shape) * s


def judge(c, op, params_of=None):
    diff = list(op.diff)
    if not diff or all(op.arrays[k].size == 0 for k in diff):
        return
    if op.name not in ("safe_power", "safe_power2"):
        for k in diff:
            op.arrays[k] = jitter(c, op.arrays[k])
        if op.name in ("PSNR", "MSE", "SSIM", "MS_SSIM") and "b" in op.arrays:
            op.arrays["b"] = op.arrays["b"] + 0.01
    else:
        x = op.arrays["x"]
        op.arrays["x"] = np.where(np.abs(x) < 0.05, 0.4, x)    # kinks at zero are C24's
    obj = op.build(torch.float64)
    leaf = c.r.random() < 0.5
    t0 = op.tensors(grad=True)
    t = t0 if leaf else {k: (v * 1.0 if v.requires_grad else v) for k, v in t0.items()}
    c.ev("leaf_input" if leaf else "nonleaf_input")
    params = [p for p in obj.parameters() if p.requires_grad] if isinstance(obj, torch.nn.Module) else []
    ys = op.call(obj, t)
    ys = [y for y in ys if y.dtype.is_floating_point]
    live = [y for y in ys if y.numel()]
    if not live:
        return
    if not all(y.requires_grad for y in live):
        c.fail("detached", op=op.name)
        return
    c.ev("attached")
    for y in live:
        if not torch.isfinite(y).all():
            return
    w = [torch.from_numpy(c.g.standard_normal(tuple(y.shape))) for y in live]
    L = sum((a * b).sum() for a, b in zip(live, w))
    leaves = [t0[k] for k in diff] + params
    L.backward()
    grads = []
    for k, v in zip(diff + ["parameter"] * len(params), leaves):
        if v.grad is None and v.numel():
            c.fail("no_gradient", op=op.name, input=k)
            return
        grads.append(v.grad if v.grad is not None else torch.zeros_like(v))
    if not all(torch.isfinite(g).all() for g in grads):
        c.fail("gradient_not_finite", op=op.name)
        return
    if params:
        c.ev("parameters")
    base = {k: v.detach().clone() for k, v in t0.items()}
    pbase = [p.detach().clone() for p in params]

    def F(vs, h):
        with torch.no_grad():
            tt = {k: v.clone() for k, v in base.items()}
            for k, d in zip(diff, vs):
                tt[k] += h * d
            for p, b, d in zip(params, pbase, vs[len(diff):]):
                p.copy_(b + h * d)
            r = [y for y in op.call(obj, tt) if y.dtype.is_floating_point and y.numel()]
            for p, b in zip(params, pbase):
                p.copy_(b)
            val = sum((a * b).sum().item() for a, b in zip(r, w))
            mag = sum((a * b).abs().sum().item() for a, b in zip(r, w))
            return val, mag
    S = max([1.0] + [float(v.abs().max()) for v in base.values() if v.numel()])
    for rep in range(3):
        if rep == 0:
            vs = [torch.from_numpy(c.g.standard_normal(tuple(v.shape))) for v in leaves]
        else:
            # a sparse direction: one element of one input
            vs = [torch.zeros_like(v) for v in leaves]
            j = c.r.choice([i for i, v in enumerate(leaves) if v.numel()])
            vs[j].view(-1)[c.r.randrange(vs[j].numel())] = 1.0
        an = sum((g * d).sum().item() for g, d in zip(grads, vs))
        h = 2e-6 * S
        est = []
        for hh in (h, h / 2):
            (a, m1), (b, m2) = F(vs, hh), F(vs, -hh)
            est.append((a - b) / (2 * hh))
            mag = max(m1, m2)
        if not np.isfinite(est).all():
            continue
        noise = 60 * 2.3e-16 * mag / h
        gsc = sum((g * d).abs().sum().item() for g, d in zip(grads, vs))
        tol = 2e-5 * max(abs(an), abs(est[1])) + 1e-6 * gsc + noise
        spread = abs(est[0] - est[1])
        if spread > tol:
            c.ev("kink_skipped")
            continue
        c.ev("direction")
        c.nontrivial = True
        if an == 0:
            c.ev("zero_gradient_inputs")
        c.check(abs(an - est[1]) <= tol + 4 * spread, "gradient", op=op.name, analytic=an, numeric=est[1], tol=tol, direction="dense" if rep == 0 else "sparse")


def second(c):
    """the gradient is itself differentiable, and its derivative is the Hessian's (central differences of the gradient)"""
    i = c.index % len(MAKERS)
    op = MAKERS[i](c)
    diff = list(op.diff)
    if op.name in ("add_poisson_gauss_noise",) or not diff or sum(op.arrays[k].size for k in diff) in (0,) or any(op.arrays[k].size > 4000 for k in diff):
        return
    c.note(op=op.name, **op.desc)
    if op.name not in ("safe_power", "safe_power2"):
        for k in diff:
            op.arrays[k] = jitter(c, op.arrays[k])
        if "b" in op.arrays:
            op.arrays["b"] = op.arrays["b"] + 0.01
    else:
        op.arrays["x"] = np.where(np.abs(op.arrays["x"]) < 0.05, 0.4, op.arrays["x"])
    obj = op.build(torch.float64)
    base = op.tensors(grad=False)
    wk = c.r.randrange(1 << 30)

    def gradient(vs, h, graph=False):
        t = {k: v.detach().clone() for k, v in base.items()}
        for k, d in zip(diff, vs):
            t[k] = t[k] + h * d
        for k in diff:
            t[k].requires_grad_(True)
        ys = [y for y in op.call(obj, t) if y.dtype.is_floating_point and y.numel()]
        g = np.random.default_rng(wk)
        # squared outputs: the Hessian of a linear operation is not identically zero
        L = sum(((a + a * a) * torch.from_numpy(g.standard_normal(tuple(a.shape)))).sum() for a in ys)
        if not ys or not all(bool(torch.isfinite(y).all()) for y in ys):
            return None, None
        return torch.autograd.grad(L, [t[k] for k in diff], create_graph=graph, allow_unused=True), [t[k] for k in diff]
    vs = [torch.from_numpy(c.g.standard_normal(tuple(op.arrays[k].shape))) for k in diff]
    us = [torch.from_numpy(c.g.standard_normal(tuple(op.arrays[k].shape))) for k in diff]
    zero = [torch.zeros_like(v) for v in vs]
    gr, leaves = gradient(zero, 0.0, True)
    if gr is None or any(g is None for g in gr) or not all(bool(torch.isfinite(g).all()) for g in gr):
        return
    J = sum((g * u).sum() for g, u in zip(gr, us))
    # a constant gradient need not be attached
    H = torch.autograd.grad(J, leaves, allow_unused=True) if J.requires_grad else [None] * len(leaves)
    H = [torch.zeros_like(l) if h is None else h for h, l in zip(H, leaves)]
    if not all(bool(torch.isfinite(h).all()) for h in H):
        return      # e.g. powers at the edge of their domain
    an = sum((h * v).sum().item() for h, v in zip(H, vs))
    S = max([1.0] + [float(v.abs().max()) for v in base.values() if v.numel()])
    est, h = [], 2e-5 * S
    for hh in (h, h / 2):
        a, b = gradient(vs, hh)[0], gradient(vs, -hh)[0]
        if a is None or b is None or any(g is None for g in a) or any(g is None for g in b):
            return
        est.append(sum(((x - y) * u).sum().item() for x, y, u in zip(a, b, us)) / (2 * hh))
        mag = sum(((x.abs() + y.abs()) * u.abs()).sum().item() for x, y, u in zip(a, b, us))
    if not np.isfinite(est).all():
        return
    hsc = sum((x * v).abs().sum().item() for x, v in zip(H, vs))
    tol = 2e-5 * max(abs(an), abs(est[1])) + 1e-6 * hsc + 300 * 2.3e-16 * mag / h
    spread = abs(est[0] - est[1])
    if spread > tol:
        c.ev("kink_skipped_second")
        return
    c.ev("second_direction")
    c.nontrivial = True
    c.check(abs(an - est[1]) <= tol + 4 * spread, "second_derivative", op=op.name, analytic=an, numeric=est[1], tol=tol)


def catalogue(c):
    i = c.index % len(MAKERS)
    op = MAKERS[i](c)
    if op.name in ("add_poisson_gauss_noise",):
        return
    c.ev("op_" + op.name)
    c.note(op=op.name, **op.desc)
    judge(c, op)


def pads(c):
    """every padding mode in turn"""
    from .. import padcase, gen
    m = ops.padm.ALL_MODES[c.index % len(ops.padm.ALL_MODES)]
    shape = gen.shape(c, hi=6, ndim_hi=3, max_elems=120)
    p = padcase.make(c, shape, [m])
    op = ops.Op("Padder", {"x": gen.values(c, shape, "normal")}, lambda d, dev: padcase.build(p), lambda o, t, ax: o.forward(t["x"], axes=ax), axes=p["axes"])
    c.note(mode=m, **padcase.describe(p))
    c.ev("pad_" + m)
    judge(c, op)


WORKLOADS = [Workload("catalogue", catalogue, 3100, 40000), Workload("pads", pads, 1400, 15000), Workload("second", second, 800, 10000)]
