"""C19: a Bayer convolution applies each site's own filter, centred on that site."""
import contextlib

import numpy as np
import torch

from .. import gen
from ..core import Workload
from ..models import cfam

HOW = ["in_place", "parameter", "state_dict", "one_site", "data"]
RULE = "a case counts when the weights of the four sites are all different; identity = (channels, kernel size, bias, alignment, shape, weights kind)"
REQUIRED_EVENTS = ["forward", "unshuffle", "unshuffle_class", "bias", "no_bias", "unbatched", "batched", "several_batch_axes", "kernel_1", "kernel_5", "kernel_7", "impulse_weights", "zero_filter", "dozens_of_channels", "large_batch",
                   "many_channels", "lower_case", "default_weights", "reused_with_other_alignment"] + ["changed_" + k for k in HOW] + cfam.ALIGNMENTS


def change(c, m, weights, biases, bias):
    """other weights between two calls, by one of the ways torch offers; the layer must use them"""
    how = c.r.choice(HOW)
    c.ev("changed_" + how)
    sites = [c.r.choice(sorted(weights))] if how == "one_site" else sorted(weights)
    for s in sites:
        weights[s] = c.g.standard_normal(weights[s].shape)
        if bias:
            biases[s] = c.g.standard_normal(biases[s].shape)
    t = {s: (torch.from_numpy(weights[s].copy()), torch.from_numpy(biases[s].copy()) if bias else None) for s in sites}
    if how == "state_dict":
        sd = {f"conv_dict.{s}.weight": w for s, (w, _) in t.items()}
        if bias:
            sd.update({f"conv_dict.{s}.bias": b for s, (_, b) in t.items()})
        m.load_state_dict(sd)
        return
    for s, (w, b) in t.items():
        cv = m.conv_dict[s]
        for name, v in (("weight", w), ("bias", b)):
            if v is None:
                continue
            if how == "parameter":
                setattr(cv, name, torch.nn.Parameter(v))
            elif how == "data":
                getattr(cv, name).data = v
            else:
                with torch.no_grad():
                    getattr(cv, name).copy_(v)


def conv(c):
    from torchimage.cfa.bayer_conv import BayerConv2d, BayerConv2dUnshuffle
    cin, cout = c.r.choice([1, 1, 2, 3]), c.r.choice([1, 2, 3, 4])
    if c.r.random() < 0.02:
        cin, cout = c.r.choice([(c.r.randint(5, 40), 1), (1, c.r.randint(5, 40)), (c.r.randint(5, 12), c.r.randint(5, 12))])
        c.ev("dozens_of_channels")
    k = c.r.choice([1, 3, 3, 5, 5, 7, 9])
    bias = c.r.random() < 0.5
    lo = (k // 2 + 2) // 2      # reflection needs more than k // 2 samples
    h, w = 2 * gen.dim(c, lo, lo + 3, 32, 0.02), 2 * gen.dim(c, lo, lo + 3, 32, 0.02)
    lead = c.r.choice([(), (1,), (2,), (3,), (2, 2), (1, 3), (2, 1, 2), (2, 0)])
    lead = gen.many(c, lead)
    shp = lead + (cin, h, w)
    sa = c.r.choice(cfam.ALIGNMENTS)
    un = c.r.random() < 0.5
    cls = c.r.choice([BayerConv2d, BayerConv2dUnshuffle])
    m = cls(cin, cout, k, bias).double()
    wk = c.r.choice(["default", "normal", "impulse", "some_zero"])
    weights, biases = {}, {}
    with torch.no_grad():
        for s in ("R", "B", "GR", "GB"):
            cv = m.conv_dict[s]
            if wk == "normal":
                cv.weight.copy_(torch.from_numpy(c.g.standard_normal(cv.weight.shape)))
            elif wk == "impulse":
                z = np.zeros(tuple(cv.weight.shape))
                for o in range(cout):
                    z[o, c.r.randrange(cin), c.r.randrange(k), c.r.randrange(k)] = c.r.choice([1, 2, -3, 5])
                cv.weight.copy_(torch.from_numpy(z))
            elif wk == "some_zero":
                z = c.g.standard_normal(cv.weight.shape) if c.r.random() < 0.5 else np.zeros(tuple(cv.weight.shape))
                cv.weight.copy_(torch.from_numpy(z))
            if bias and wk != "default":
                cv.bias.copy_(torch.from_numpy(c.g.standard_normal(cout)))
            weights[s] = cv.weight.detach().numpy().copy()
            biases[s] = cv.bias.detach().numpy().copy() if bias else None
    c.ev({"default": "default_weights", "normal": "normal_weights", "impulse": "impulse_weights", "some_zero": "zero_filter"}[wk])
    c.ev("bias" if bias else "no_bias")
    c.ev("batched" if lead else "unbatched")
    if len(lead) > 1:
        c.ev("several_batch_axes")
    c.ev(f"kernel_{k}")
    if cin > 1 and cout > 1:
        c.ev("many_channels")
    a = gen.values(c, shp)
    if wk == "normal":
        a = gen.undefined(c, a)
    x, lay = gen.layout(c, a)
    c.note(cin=cin, cout=cout, k=k, bias=bias, shape=shp, alignment=sa, weights=wk, cls=cls.__name__, layout=lay)
    c.nontrivial = True
    ctx, first = c.r.choice([contextlib.nullcontext, torch.no_grad, torch.inference_mode]), c.r.random() < 0.5
    m.train(first)
    for rep in range(3):
        if rep:
            if c.r.random() < 0.6:
                break
            if c.r.random() < 0.5:
                change(c, m, weights, biases, bias)
            if c.r.random() < 0.7:
                sa = c.r.choice(cfam.ALIGNMENTS)
                c.ev("reused_with_other_alignment")
        c.ev(sa)
        sp = sa if c.r.random() < 0.8 else sa.lower()
        if sp != sa:
            c.ev("lower_case")
        e = cfam.bayer_conv(a, sa, weights, biases if bias else None, k)
        with ctx():
            if cls is BayerConv2dUnshuffle:
                y, f, e = m(x, sp), "unshuffle_class", cfam.unshuffle(e)
            elif un:
                y, f, e = m.forward_unshuffle(x, sp), "unshuffle", cfam.unshuffle(e)
            else:
                y, f = m(x, sp), "forward"
        sc = (np.nanmax(np.abs(a), initial=0) + 1) * max(np.abs(v).sum() for v in weights.values()) + 10
        c.close(y, e, f, f, rtol=1e-12, scale=sc, alignment=sa)


WORKLOADS = [Workload("conv", conv, 2500, 30000)]
