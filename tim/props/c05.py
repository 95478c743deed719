"""C05: n-d padding is 1-d padding applied axis by axis with right-justified specs."""
import numpy as np
import torch

from .. import gen, padcase
from ..core import Workload
from ..models import padm

RULE = ("a case counts when padding is non-empty; identity = (workload, shape, axes and notation, per-axis parameters)")
REQUIRED_EVENTS = ["model", "sequential", "respelled", "custom_calls", "surplus_leading", "missing_leading", "unordered_axes", "order_matters", "repeated_axis", "pad_axis_chain"]


class Custom:
    """A user padding function together with its meaning; logs what it was handed."""
    def __init__(self, al, be, name):
        self.al, self.be, self.name, self.log = al, be, name, []

    def __call__(self, x, idx, dim):
        h, t = idx[dim].start, idx[dim].stop
        self.log.append((x[idx].clone().numpy(), len(idx), dim, h, x.shape[dim] - t))
        v = x.movedim(dim, 0)
        rest = [s for i, s in enumerate(idx) if i != dim % x.ndim]
        first, last = v[(slice(h, h + 1), *rest)].clone(), v[(slice(t - 1, t), *rest)].clone()
        n = v.shape[0]
        for j in range(h):
            v[(slice(j, j + 1), *rest)] = self.al * first + (h - j)
        for j in range(t, n):
            v[(slice(j, j + 1), *rest)] = self.be * last - (j - t + 1)
        return x

    def ref(self, v, j, n):
        return self.al * v[0] + (-j) if j < 0 else self.be * v[n - 1] - (j - n + 1)

    def __repr__(self):
        return self.name


def gen_case(c, custom=False, need=True):
    shp = gen.shape(c, ndim_lo=2, ndim_hi=4, hi=6)
    fns = [Custom(c.r.uniform(-2, 2), c.r.uniform(-2, 2), f"fn{i}") for i in range(2)] if custom else []
    modes = padm.ALL_MODES + fns * (5 if custom else 0)
    p = padcase.make(c, shp, modes, repeat=0.12)
    a = gen.values(c, shp)
    x, lay = gen.layout(c, a)
    c.note(**padcase.describe(p), layout=lay)
    c.nontrivial = padcase.nontrivial(p)
    nm, k = len(p["meaning"]), len(p["axes"])
    pl = max((len(v) for key, v in p["kwargs"].items() if key == "mode" and not isinstance(v, str) and hasattr(v, "__len__")), default=0)
    if nm < k:
        c.ev("missing_leading")
    if pl > k:
        c.ev("surplus_leading")
    if p["axes"] != sorted(p["axes"]):
        c.ev("unordered_axes")
    return p, a, x, fns


def model(c):
    p, a, x, _ = gen_case(c)
    y = padcase.build(p).forward(x, axes=p["notation"])
    e = padm.padn(a, p["meaning"])
    c.close(y, e, "model", "model", rtol=1e-10, pad=padcase.describe(p))
    if len(p["meaning"]) > 1:
        e2 = padm.padn(a, p["meaning"][::-1])
        if e2.shape == e.shape and not np.allclose(e, e2):
            c.ev("order_matters")


def custom(c):
    p, a, x, fns = gen_case(c, custom=True)
    y = padcase.build(p).forward(x, axes=p["notation"])
    c.close(y, padm.padn(a, p["meaning"]), "custom/result", "model", rtol=1e-10, pad=padcase.describe(p))
    # what the functions were handed, call by call
    cur, want = a, {id(f): [] for f in fns}
    for s in p["meaning"]:
        if (s["before"] or s["after"]) and not isinstance(s["mode"], str):
            want[id(s["mode"])].append((cur, s))
        cur = padm.padn(cur, [s])
    for f in fns:
        if not c.check(len(f.log) == len(want[id(f)]), "custom/call_count", got=len(f.log), want=len(want[id(f)])):
            continue
        for (seen, ln, dim, b, e), (content, s) in zip(f.log, want[id(f)]):
            c.ev("custom_calls")
            c.check(ln == len(p["shape"]) and dim % len(p["shape"]) == s["axis"], "custom/args", dim=dim, axis=s["axis"], idx_len=ln)
            c.check((b, e) == (s["before"], s["after"]), "custom/reserved", got=[b, e], want=[s["before"], s["after"]])
            c.close(seen, content, "custom/ground_truth_region", rtol=1e-10)


def sequential(c):
    """library n-d padding == library padding one axis at a time in that order"""
    from torchimage.padding import Padder
    p, a, x, fns = gen_case(c, custom=c.r.random() < 0.3)
    y = padcase.build(p).forward(x, axes=p["notation"])
    z = x
    for s in p["meaning"]:
        z = Padder(pad_width=(s["before"], s["after"]), mode=s["mode"], constant_values=s["cv"], end_values=s["ev"], stat_length=s["sl"]).forward(z, axes=(s["axis"],))
    c.close(y, z.numpy(), "sequential/forward", "sequential", rtol=1e-12, pad=padcase.describe(p))
    pd = padcase.build(p)
    z = x
    n = len(p["meaning"])
    for j, s in enumerate(p["meaning"]):
        z = pd.pad_axis(z, j - n, s["axis"])
    c.close(z, y.numpy(), "sequential/pad_axis", "pad_axis_chain", rtol=1e-12, pad=padcase.describe(p))


def respelled(c):
    """two notations of the same parameters and axes"""
    from torchimage.padding import Padder
    p, a, x, _ = gen_case(c)
    y = padcase.build(p).forward(x, axes=p["notation"])
    m = p["meaning"]
    k = len(p["axes"])
    lead = k - len(m)
    kw = {}
    full = c.r.random() < 0.5
    # explicit per-axis lists, optionally with explicit no-op leading entries
    items = ([dict(before=0, after=0, mode=m[-1]["mode"], cv=(0, 0), ev=(0., 0.), sl=(None, None))] * lead if full else []) + m
    kw["pad_width"] = padcase.spell_pairs(c, [(s["before"], s["after"]) for s in items], k)
    kw["mode"] = [s["mode"] for s in items]
    kw["constant_values"] = padcase.spell_pairs(c, [s["cv"] for s in items], k)
    kw["end_values"] = padcase.spell_pairs(c, [s["ev"] for s in items], k)
    kw["stat_length"] = padcase.spell_pairs(c, [s["sl"] for s in items], k)
    lab, note = gen.spell_axes(c, p["axes"], len(p["shape"]))
    c.note(second_spelling=lab, full=full)
    z = Padder(**kw).forward(x, axes=note)
    c.exact(z, y.numpy(), "respelled", "respelled", pad=padcase.describe(p))


WORKLOADS = [
    Workload("model", model, 2500, 50000),
    Workload("custom", custom, 1000, 15000),
    Workload("sequential", sequential, 1200, 20000),
    Workload("respelled", respelled, 1200, 20000),
]
