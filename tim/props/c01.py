"""C01: padding embeds the input unchanged in a tensor of the requested shape."""
import numpy as np
import torch

from .. import gen, padcase
from ..core import Workload, to_np
from ..models import padm

RULE = ("a case counts when at least one axis has non-zero padding; identity = (workload, shape, axes and their notation, per-axis "
        "(before, after, mode), parameters, dtype, layout)")
REQUIRED_EVENTS = ["embedding_forward", "embedding_pad_axis", "no_op_width", "special_values", "repeated_axis", "integer_dtype", "complex_dtype", "negative_zero"]


def observe(c, y, x, shape, inner, tag):
    c.check(torch.is_tensor(y), tag + "/type", got=type(y).__name__)
    c.check(y.dtype == x.dtype, tag + "/dtype", got=str(y.dtype), want=str(x.dtype))
    c.ev("embedding_" + tag)
    if c.check(tuple(y.shape) == tuple(shape), tag + "/shape", got=list(y.shape), want=list(shape)):
        a, b = to_np(y[inner]), to_np(x)
        if c.exact(a, b, tag + "/embedded") and a.dtype.kind == "f" and np.signbit(b[b == 0]).any():
            c.ev("negative_zero")
            c.check(np.array_equal(np.signbit(a[b == 0]), np.signbit(b[b == 0])), tag + "/sign_of_zero")


def case(c, modes, dtypes, special=True):
    shp = gen.shape(c)
    dt = c.r.choice(dtypes)
    if dt == torch.bool or dt.is_complex:
        modes = [m for m in modes if m in padm.COPY_MODES + padm.CONST_MODES]
    if c.r.random() < 0.05 and len(shp) > 1:
        k = c.r.randrange(len(shp))
        axes = [a for a in range(len(shp)) if a != k]
        shp = tuple(0 if i == k else v for i, v in enumerate(shp))
        p = padcase.make(c, shp, [m for m in modes if m in padm.COPY_MODES + padm.CONST_MODES], axes=axes, int_params=dtypes is INTS)
    else:
        dt0 = dtypes is INTS
        p = padcase.make(c, shp, modes, int_params=dt0, repeat=0.06)
    a = gen.values(c, shp)
    if special and dt.is_floating_point and a.size and c.r.random() < 0.25:
        f = a.reshape(-1)
        for v in (np.nan, np.inf, -np.inf, -0.0):
            f[c.r.randrange(f.size)] = v
        c.ev("special_values")
    if dt.is_complex:
        a = a + 1j * gen.values(c, shp)
        c.ev("complex_dtype")
    elif not dt.is_floating_point:
        a = np.abs(np.trunc(a)) % 100
        c.ev("integer_dtype")
    x, lay = gen.layout(c, a, dt)
    c.note(**padcase.describe(p), dtype=str(dt), layout=lay)
    c.nontrivial = padcase.nontrivial(p)
    if not c.nontrivial:
        c.ev("no_op_width")
    padder = padcase.build(p)
    y = padder.forward(x, axes=p["notation"])
    observe(c, y, x, padcase.out_shape(p), padcase.inner(p), "forward")
    return p, x, padder


def forward_float(c):
    case(c, padm.ALL_MODES + ["empty"], [torch.float64, torch.float32])


def forward_copy_dtypes(c):
    case(c, [m for m in padm.INT_MODES if m != "antisymmetric"], INTS)


INTS = [torch.int64, torch.int32, torch.uint8, torch.int16, torch.float16, torch.bfloat16, torch.bool, torch.complex64, torch.int8]


def one_axis_at_a_time(c):
    """pad_axis on one axis, and a chain of pad_axis calls over all axes"""
    shp = gen.shape(c, ndim_hi=3)
    p = padcase.make(c, shp, padm.ALL_MODES + ["empty"])
    a = gen.values(c, shp)
    x, lay = gen.layout(c, a, c.r.choice([torch.float64, torch.float32]))
    c.note(**padcase.describe(p), layout=lay, dtype=str(x.dtype))
    c.nontrivial = padcase.nontrivial(p)
    if not c.nontrivial:
        c.ev("no_op_width")
    padder = padcase.build(p)
    y = x
    n = len(p["meaning"])
    sh = list(shp)
    idx = [slice(None)] * len(shp)
    for j, s in enumerate(p["meaning"]):
        ax = s["axis"]
        axn = ax - len(shp) if c.r.random() < 0.4 else ax
        prev = y
        y = padder.pad_axis(prev, j - n, axn)
        sh[ax] = padm.out_len(s["mode"], sh[ax], s["before"], s["after"])
        idx[ax] = slice(s["before"], s["before"] + shp[ax])
        one = [slice(None)] * len(shp)
        one[ax] = idx[ax]
        observe(c, y, prev, sh, tuple(one), "pad_axis")
    if tuple(y.shape) == tuple(sh):
        c.exact(y[tuple(idx)], x.numpy(), "pad_axis/chain_embedded", "embedding_chain")


WORKLOADS = [
    Workload("forward_float", forward_float, 3000, 60000),
    Workload("forward_copy_dtypes", forward_copy_dtypes, 1200, 20000),
    Workload("one_axis_at_a_time", one_axis_at_a_time, 1500, 25000),
]
