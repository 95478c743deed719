"""C29: a module's output never depends on what was processed before.

History checker: a pool of long-lived library objects (some sharing one padder,
one blur or the shipped demosaicer) is driven through a random call sequence;
every call is replayed on freshly constructed objects and must agree bit for bit
(or raise as the fresh object does).
"""
import copy

import numpy as np
import torch

from .. import gen, ops, padcase
from ..core import Workload
from ..models import padm

RULE = "a case counts when some object is called at least twice with different shapes or axes; identity = (object configurations, call sequence)"
QUICK_SCALE = 2
REQUIRED_EVENTS = ["call", "repeat_call", "shape_change", "ndim_change", "dtype_change", "axes_change", "failed_call", "shared_padder", "padder_also_called", "shared_blur",
                   "bayer_call", "demosaic_call", "replayed_same_input", "to_same_interleaved", "in_process_fresh", "order_permuted",
                   "one_thing_changed", "gradient_compared", "axis_count_changed", "buffer_refilled", "earlier_result_kept", "result_overwritten"] + ["buffer_" + n for n in ops.NAMES if n != "describe"]

_PRISTINE = None


def pristine_demosaic():
    global _PRISTINE
    if _PRISTINE is None:
        from torchimage.cfa.bayer_conv import demosaic
        _PRISTINE = copy.deepcopy(demosaic)
    return _PRISTINE


# ---- object pool -----------------------------------------------------------
def padder_kw(c, k):
    """Padder arguments valid for any number of axes k (scalar specs) or for exactly k (lists)"""
    mode = c.r.choice(padm.ALL_MODES)
    kw = dict(mode=mode if c.r.random() < 0.7 else [c.r.choice(padm.ALL_MODES) for _ in range(k)])
    kw["pad_width"] = c.r.choice([c.r.randint(0, 4), (c.r.randint(0, 4), c.r.randint(0, 4)), [(c.r.randint(0, 4), c.r.randint(0, 4)) for _ in range(k)]])
    if c.r.random() < 0.4:
        kw["constant_values"] = (1.5, -2.0)
    if c.r.random() < 0.4:
        kw["end_values"] = (0.25, 3.0)
    if c.r.random() < 0.4:
        kw["stat_length"] = (c.r.choice([None, 1, 2]), c.r.choice([None, 1, 3]))
    return kw


def make_pool(c, k):
    """-> (spec list, builder) ; builder() makes a fresh, equal set of objects with the same sharing"""
    P = [padder_kw(c, k) for _ in range(c.r.choice([1, 1, 2]))]
    B = [c.r.choice([("gauss", c.r.randint(2, 4)), ("avg", c.r.randint(2, 4))]) for _ in range(c.r.choice([0, 1]))]
    specs = []
    for _ in range(c.r.randint(2, 6)):
        kind = c.r.choice(["pad", "sep", "avg", "gauss", "filter", "edge", "laplace", "log", "unsharp", "ssim", "msssim", "psnr"])
        if k == 1 and kind in ("laplace", "log"):
            kind = "unsharp"
        s = dict(kind=kind, padder=c.r.choice(list(range(len(P))) + [None]), ks=c.r.randint(2, 4), stride=c.r.choice([None, 1, 2]),
                 kern=c.r.choice([[1.0, 2.0, -1.0], [0.5, 0.5], [[1.0, 2.0]] * k if k > 1 else [2.0, 1.0, 1.0, -3.0]]),
                 blur=c.r.choice(list(range(len(B))) + [None]), strmode=c.r.choice(["reflect", "symmetric", "zeros", "smooth"]),
                 ksl=[c.r.randint(2, 4) for _ in range(k)] if c.r.random() < 0.4 else None, edge=c.r.choice(["Sobel", "Farid", "custom", "GaussianGrad"]),
                 cip=c.r.random() < 0.5)
        if kind == "avg" and not s["cip"]:
            s["padder"] = None
        if kind in ("laplace", "log") and s["padder"] is not None and any(isinstance(v, list) for v in P[s["padder"]].values()):
            s["padder"] = None      # these filter one axis at a time: no per-axis lists
        specs.append(s)

    def build():
        from torchimage.padding import Padder
        from torchimage.pooling import SeparablePoolNd, AvgPoolNd, GaussianPoolNd
        from torchimage.filtering import Sobel, Farid, EdgeFilter, GaussianGrad, Laplace, LaplacianOfGaussian, UnsharpMask
        from torchimage.metrics import SSIM, MS_SSIM, PSNR
        pads = [Padder(**{a: copy.deepcopy(b) for a, b in kw.items()}) for kw in P]
        blurs = [GaussianPoolNd(n, 1.2) if w == "gauss" else AvgPoolNd(n) for w, n in B]
        out = []
        for s in specs:
            p = None if s["padder"] is None else pads[s["padder"]]
            ps = p if p is not None else s["strmode"]
            ks = s["ksl"] if s["ksl"] else s["ks"]
            mkblur = lambda: blurs[s["blur"]] if s["blur"] is not None else GaussianPoolNd(ks, 1.1)
            kd = s["kind"]
            if kd == "pad":
                o = p if p is not None else Padder(**copy.deepcopy(P[0]))
            elif kd == "sep":
                o = SeparablePoolNd(copy.deepcopy(s["kern"]), s["stride"], same_padder=p)
            elif kd == "avg":
                o = AvgPoolNd(ks, s["stride"], count_include_pad=s["cip"], same_padder=p if s["cip"] else "zeros")
            elif kd == "gauss":
                o = GaussianPoolNd(ks, 1.3, 0, s["stride"], same_padder=p)
            elif kd == "filter":
                o = SeparablePoolNd(copy.deepcopy(s["kern"])).to_filter(ps)
            elif kd == "edge":
                o = {"Sobel": lambda: Sobel(same_padder=ps), "Farid": lambda: Farid(normalize=True, same_padder=ps),
                     "custom": lambda: EdgeFilter([1.0, -2.0, 1.0, 0.5], [0.2, 0.8], same_padder=ps),
                     "GaussianGrad": lambda: GaussianGrad(3, 1.0, same_padder=ps)}[s["edge"]]()
            elif kd == "laplace":
                o = Laplace(same_padder=ps)
            elif kd == "log":
                o = LaplacianOfGaussian(3, 0.9, same_padder=ps)
            elif kd == "unsharp":
                o = UnsharpMask(mkblur(), amount=0.7, threshold=0.1, padder=ps)
            elif kd == "ssim":
                o = SSIM(mkblur(), padder=ps)
            elif kd == "msssim":
                o = MS_SSIM(weights=[0.4, 0.6], blur=mkblur(), padder=ps)
            else:
                o = PSNR(2.0, 0.01)
            out.append(o)
        return out
    return specs, P, B, build


def flexible(s, P):
    """nothing about this object is given per axis, so any number of axes will do"""
    scalar = s["padder"] is None or not any(isinstance(v, list) for v in P[s["padder"]].values())
    if s["kind"] == "pad" and s["padder"] is None:
        scalar = not any(isinstance(v, list) for v in P[0].values())
    return scalar and not s["ksl"] and not isinstance(s["kern"][0], list) and s["kind"] in ("pad", "sep", "avg", "gauss", "filter", "unsharp", "ssim", "psnr")


def random_call(c, k, specs, last, P):
    """an argument set for one call: (which object, method, arrays, dtype, axes)"""
    i = c.r.randrange(len(specs))
    kd = specs[i]["kind"]
    lo, hi = (10, 13) if kd == "msssim" else (4, 9)
    nd = c.r.randint(k, min(k + 2, 5))
    kk = k
    if flexible(specs[i], P) and c.r.random() < 0.35:     # another number of axes on the same object
        kk = c.r.randint(1, 3)
        nd = c.r.randint(kk, min(kk + 2, 5))
        lo, hi = min(lo, 8 if kd == "msssim" else lo), min(hi, 7 if kk == 3 and kd != "msssim" else hi)
        if kk != k:
            c.ev("axis_count_changed")
    axes = sorted(c.r.sample(range(nd), kk)) if c.r.random() < 0.6 else c.r.sample(range(nd), kk)
    shape = tuple(c.r.randint(lo, hi) if a in axes else c.r.randint(1, 2) for a in range(nd))
    dt = c.r.choice([torch.float64, torch.float64, torch.float32])
    m = "forward"
    if kd == "edge":
        m = c.r.choice(["component", "all", "mag"]) if k > 1 else "component"
    elif kd == "pad":
        m = c.r.choice(["forward", "forward", "pad_axis", "to_same"])
    bad = c.r.random() < 0.1
    call = dict(i=i, kind=kd, method=m, shape=shape, axes=axes, dtype=dt, bad=bad, seed=c.r.randrange(1 << 30))
    if c.r.random() < 0.3:      # equal lengths along the axes, so that other axes give the same shape
        n = c.r.randint(lo, hi)
        call["shape"] = tuple(n if a in axes else v for a, v in enumerate(shape))
    q = c.r.random()
    if last and q < 0.15:
        call = dict(c.r.choice(last))
    elif last and q < 0.5:      # an earlier call with exactly one thing changed
        call = dict(c.r.choice(last))
        what = c.r.choice(["axes", "axes", "dtype", "seed", "shape", "grad", "move"])
        if what == "axes":
            n = len(call["axes"])
            call["axes"] = c.r.sample(call["axes"], n) if c.r.random() < 0.6 else c.r.sample(range(len(call["shape"])), n)
        elif what == "dtype":
            call["dtype"] = torch.float32 if call["dtype"] == torch.float64 else torch.float64
        elif what == "seed":
            call["seed"] = c.r.randrange(1 << 30)
        elif what == "grad":
            call["grad"] = not call.get("grad")
        elif what == "move":    # the same axes and lengths at other positions of the tensor
            perm = c.r.sample(range(len(call["shape"])), len(call["shape"]))
            call["shape"] = tuple(call["shape"][j] for j in perm)
            call["axes"] = [perm.index(a) for a in call["axes"]]
        else:
            a = c.r.choice(call["axes"])
            call["shape"] = tuple(v + (c.r.choice([-1, 1]) if j == a else 0) for j, v in enumerate(call["shape"]))
        c.ev("one_thing_changed")
    if bad and not call.get("bad"):
        call = dict(call, bad=True)
    return call


def perform(objs, call):
    g = np.random.default_rng(call["seed"])
    x = torch.tensor(g.random(call["shape"]), dtype=call["dtype"], requires_grad=bool(call.get("grad")))
    r = run_call(objs, call, x, g)
    if call.get("grad") and call["kind"] != "psnr":
        r = [v.detach() for v in r] + ([torch.autograd.grad(sum((v * v).sum() for v in r), x)[0]] if any(v.requires_grad for v in r) else [])
    return r


def run_call(objs, call, x, g):
    o, ax, kd = objs[call["i"]], list(call["axes"]), call["kind"]
    if call["bad"]:
        ax[-1] = 17      # fails somewhere inside
    if kd in ("ssim", "msssim", "psnr"):
        y = torch.clip(x + 0.1 * torch.tensor(g.standard_normal(call["shape"]), dtype=call["dtype"]), 0, 1)
        if kd == "psnr":
            return [o.forward(x, y, reduce_axes=ax)]
        r = o.forward(x, y, content_axes=ax, reduce_axes=ax, full=kd == "ssim")
        return list(r) if isinstance(r, (tuple, list)) else [r]
    if kd == "edge":
        if call["method"] == "component":
            return [o.component(x, ax[0], ax[1:])]
        return list(o.all_components(x, ax)) if call["method"] == "all" else [o.magnitude(x, ax)]
    if kd == "pad":
        if call["method"] == "pad_axis":
            return [o.pad_axis(x, -1, ax[-1])]
        if call["method"] == "to_same":
            q = copy.deepcopy(o).to_same(3, 1, [x.shape[a] for a in call["axes"]])   # in-place by contract: use a copy
            return [q.forward(x, axes=ax)]
    return [o.forward(x, axes=ax)]


def outcome(objs, call):
    try:
        return "ok", perform(objs, call)
    except Exception as e:
        return "raised", type(e).__name__


def compare(c, call, live, fresh, step):
    if live[0] != fresh[0]:
        c.fail("outcome_depends_on_history", call={k: str(v) for k, v in call.items()}, live=str(live)[:150], fresh=str(fresh)[:150], step=step)
        return
    if live[0] == "raised":
        c.ev("failed_call")
        return
    c.check(len(live[1]) == len(fresh[1]), "outcome_depends_on_history", got=len(live[1]), want=len(fresh[1]))
    if call.get("grad"):
        c.ev("gradient_compared")
    for a, b in zip(live[1], fresh[1]):
        if a.shape != b.shape or a.dtype != b.dtype or not torch.equal(torch.nan_to_num(a, 7.25), torch.nan_to_num(b, 7.25)):
            c.fail("result_depends_on_history", call={k: str(v) for k, v in call.items()}, step=step,
                   live=list(a.shape), fresh=list(b.shape))
            return


def history(c):
    k = c.r.choice([1, 2, 2, 3])
    specs, P, B, build = make_pool(c, k)
    objs = build()
    c.note(k=k, padders=P, blurs=B, specs=[{a: b for a, b in s.items()} for s in specs])
    if sum(s["padder"] is not None and s["kind"] != "pad" for s in specs) > 1:
        c.ev("shared_padder")
    if any(s["kind"] == "pad" and s["padder"] is not None and any(q["padder"] == s["padder"] and q["kind"] != "pad" for q in specs) for s in specs):
        c.ev("padder_also_called")
    if B and sum(s["blur"] is not None and s["kind"] in ("unsharp", "ssim", "msssim") for s in specs) > 1:
        c.ev("shared_blur")
    calls, seen = [], {}
    n = c.r.randint(4, 12)
    for step in range(n):
        call = random_call(c, k, specs, calls, P)
        if call["method"] == "to_same":
            c.ev("to_same_interleaved")
        prev = seen.get(call["i"])
        if prev:
            c.ev("repeat_call")
            if prev["shape"] != call["shape"]:
                c.ev("shape_change")
                c.nontrivial = True
            if len(prev["shape"]) != len(call["shape"]):
                c.ev("ndim_change")
            if prev["dtype"] != call["dtype"]:
                c.ev("dtype_change")
            if prev["axes"] != call["axes"]:
                c.ev("axes_change")
                c.nontrivial = True
            if prev["seed"] == call["seed"]:
                c.ev("replayed_same_input")
        seen[call["i"]] = call
        calls.append(call)
        live = outcome(objs, call)
        fresh = outcome(build(), call)
        c.ev("in_process_fresh")
        c.ev("call")
        compare(c, call, live, fresh, step)
        if c.violations:
            c.note(calls=[{a: str(b) for a, b in q.items()} for q in calls])
            return
    # the same calls in another order on another set of long-lived objects
    objs2 = build()
    order = list(range(n))
    c.r.shuffle(order)
    res2 = {j: outcome(objs2, calls[j]) for j in order}
    objs3 = build()
    for j in range(n):
        compare(c, calls[j], res2[j], outcome(objs3, calls[j]), j)
        c.ev("order_permuted")
        if c.violations:
            return
    c.note(calls=[(q["i"], q["method"], q["shape"], q["axes"], q["bad"]) for q in calls])


def bayer(c):
    from torchimage.cfa.bayer_conv import BayerConv2d, demosaic
    pristine_demosaic()
    sd = c.r.randrange(1 << 30)
    cin, cout, ks = c.r.randint(1, 2), c.r.randint(1, 2), c.r.choice([3, 5])

    def mk():
        st = torch.random.get_rng_state()
        torch.manual_seed(sd)
        m = BayerConv2d(cin, cout, ks, True)
        torch.random.set_rng_state(st)
        return m
    live = mk()
    trace = []
    for step in range(c.r.randint(3, 8)):
        which = c.r.choice(["conv", "unshuffle", "demosaic"])
        sa = c.r.choice(ops.SA)
        lead = c.r.choice([(), (1,), (2,)])
        h, w = 2 * c.r.randint(2, 4), 2 * c.r.randint(2, 4)
        bad = c.r.random() < 0.12
        if bad:
            sa = c.r.choice(["RGBG", "XXXX", "RGGBX"])
        x = torch.tensor(c.g.random(lead + (1 if which == "demosaic" else cin, h, w)), dtype=torch.float32)
        cl = c.r.choice([1.0, 0.5])

        def run(conv, dem):
            try:
                with torch.no_grad():
                    r = dem(x, sa, clamp=cl) if which == "demosaic" else conv(x, sa) if which == "conv" else conv.forward_unshuffle(x, sa)
                return "ok", [r]
            except Exception as e:
                return "raised", type(e).__name__
        a = run(live, demosaic)
        b = run(mk(), copy.deepcopy(_PRISTINE))
        c.ev("demosaic_call" if which == "demosaic" else "bayer_call")
        c.ev("call")
        trace.append((which, sa, lead, h, w))
        compare(c, dict(which=which, sa=sa, shape=tuple(x.shape)), a, b, step)
        if c.violations:
            break
    c.note(cin=cin, cout=cout, ks=ks, trace=trace)
    c.nontrivial = True


MAKERS = [m for m in ops.ALL_OPS if m not in (ops.describe,)]


def refill(c, a):
    """other valid values for the same buffer: its own values in another order, scaled"""
    b = np.array(a, copy=True).reshape(-1)
    c.g.shuffle(b)
    return (b * c.r.choice([1.0, 0.75])).reshape(a.shape) if np.issubdtype(a.dtype, np.floating) else b.reshape(a.shape)


def buffers(c):
    """the caller's buffers are overwritten between calls, and so are the results it was given"""
    op = MAKERS[c.index % len(MAKERS)](c)
    dt = c.r.choice([torch.float64, torch.float64, torch.float32])
    t = op.tensors(dt)
    o = op.build(dt)
    c.note(op=op.name, dtype=str(dt), **op.desc)
    c.ev("buffer_" + op.name)
    with torch.no_grad():
        kept = []
        for step in range(c.r.randint(2, 4)):
            live = op.call(o, t)
            new = {k: v.clone() for k, v in t.items()}
            fresh = op.call(op.build(dt), new)
            ok = len(live) == len(fresh) and all(a.shape == b.shape and a.dtype == b.dtype and torch.equal(torch.nan_to_num(a, 7.25), torch.nan_to_num(b, 7.25))
                                                 for a, b in zip(live, fresh))
            if not c.check(ok, "stale_result/" + op.name, step=step):
                return
            c.ev("buffer_refilled" if step else "call")
            for a, b in kept:
                if not c.check(torch.equal(torch.nan_to_num(a, 7.25), b), "earlier_result_changed/" + op.name, step=step):
                    return
                c.ev("earlier_result_kept")
            mine = {v.untyped_storage().data_ptr() for v in t.values()}
            own = [v for v in live if v.numel() and v.untyped_storage().data_ptr() not in mine]
            if c.r.random() < 0.5:      # results are the caller's to modify
                for v in own:
                    if not any(s == 0 and n > 1 for s, n in zip(v.stride(), v.shape)):
                        v.mul_(-3).add_(1)
                        c.ev("result_overwritten")
                kept = []
            else:
                kept = [(v, torch.nan_to_num(v, 7.25).clone()) for v in own]
            for k, v in t.items():
                v.copy_(torch.tensor(refill(c, op.arrays[k]), dtype=dt))
            c.nontrivial = True


WORKLOADS = [Workload("history", history, 900, 12000), Workload("bayer", bayer, 300, 3000), Workload("buffers", buffers, 1000, 12000)]
