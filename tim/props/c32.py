"""C32: results stay on the input's device and in its floating-point precision.

Device sanitizer: every call is executed on torch's fake-tensor interpreter with
the input on an emulated accelerator; the interpreter runs the library's real
code, tracks the device of every intermediate and raises when an operation mixes
devices.  Precision: the real call in float32 and float64 must keep the dtype,
and the two must agree up to the conditioning of the call.
"""
import copy
import re
import traceback

import numpy as np
import torch
from torch._subclasses.fake_tensor import FakeTensorMode
from torch.utils._python_dispatch import TorchDispatchMode

from .. import ops
from ..core import Workload

RULE = "a case counts when at least one output's device or dtype was judged; identity = (operation, arguments)"
DEV = "cuda"
DT = [n for n in ops.NAMES if n != "describe"]
AGREE = [n for n in DT if not n.startswith("add_")]
QUICK_SCALE = 2
REQUIRED_EVENTS = ["dtype_" + n for n in DT] + ["agree_" + n for n in AGREE] + ["half_" + n for n in DT] + \
    ["sanitizer_selftest", "boundary_counts", "noop_call", "fake_" + DEV, "dtype_switch", "kernel_device", "narrowing_watched", "watched_operations", "wide_kernel"] + ["narrow_" + n for n in AGREE] + \
    ["kernel_form_" + f for f in ("tensors", "arrays", "one", "matrix", "strided")]
MAKERS = [m for m in ops.ALL_OPS if m is not ops.describe]
_tested = False
MIXED = re.compile(r"different devices|same device|Device Propagation|on device|Expected .* device")


def selftest(c):
    """the sanitizer must see a mixed-device operation (once per process)"""
    global _tested
    if not _tested:
        with FakeTensorMode():
            a, b = torch.empty(3, device=DEV), torch.empty(3)
            try:
                a + b
                c.fail("harness/sanitizer_is_blind")
            except RuntimeError:
                pass
        _tested = True
    c.ev("sanitizer_selftest")


def fake_module(mode, obj):
    if isinstance(obj, torch.nn.Module):
        for m in obj.modules():
            for k, p in list(m._parameters.items()):
                if p is not None:
                    m._parameters[k] = torch.nn.Parameter(torch.empty(tuple(p.shape), dtype=p.dtype, device=DEV), requires_grad=False)
            for k, b in list(m._buffers.items()):
                if b is not None:
                    m._buffers[k] = torch.empty(tuple(b.shape), dtype=b.dtype, device=DEV)
    return obj


def device(c):
    selftest(c)
    op = MAKERS[c.index % len(MAKERS)](c)
    if not op.fakeable:
        return
    dt = c.r.choice([torch.float32, torch.float64])
    c.note(op=op.name, desc=op.desc, dtype=str(dt))
    obj = op.build(dt)
    with torch.no_grad():
        ref = op.call(op.build(dt), op.tensors(dt))
    obj = copy.deepcopy(obj)
    from torch.fx.experimental.symbolic_shapes import ShapeEnv
    with FakeTensorMode(allow_non_fake_inputs=True, shape_env=ShapeEnv()) as mode, torch.no_grad():
        fobj = fake_module(mode, obj)
        t = {k: torch.empty(tuple(np.shape(a)), dtype=dt, device=DEV) for k, a in op.arrays.items()}
        try:
            out = op.call(fobj, t)
        except Exception as e:
            msg = str(e)
            if MIXED.search(msg):
                c.fail(f"{op.name}/mixed_devices", error=msg[:400])
            else:
                # control flow that needs data cannot be interpreted; the devices seen up to there were consistent
                c.ev("not_interpretable")
            return
        for r, o in zip(ref, out):
            c.check(o.device.type == DEV, f"{op.name}/result_device", got=str(o.device))
            c.check(o.dtype == r.dtype, f"{op.name}/result_dtype", got=str(o.dtype), real=str(r.dtype))
            c.check(tuple(o.shape) == tuple(r.shape), f"{op.name}/result_shape", got=list(o.shape), real=list(r.shape))
    c.ev("fake_" + DEV)
    c.ev("device_" + op.name)
    if op.name == "Padder":
        for q in op.desc["pad"]:
            if q[1] or q[2]:
                c.ev("fakepad_" + q[3])
    c.nontrivial = True


def to32(a):
    return np.asarray(a, dtype=np.float32).astype(np.float64)


def precision(c):
    op = MAKERS[c.index % len(MAKERS)](c)
    for k in op.arrays:
        op.arrays[k] = to32(op.arrays[k])
    c.note(op=op.name, desc=op.desc)
    outs = {}
    with torch.no_grad():
        for dt in (torch.float32, torch.float64):
            ys = op.call(op.build(dt), op.tensors(dt))
            outs[dt] = ys
            for y in ys:
                c.check(y.dtype == dt, f"{op.name}/dtype", got=str(y.dtype), want=str(dt))
                c.check(y.device.type == "cpu", f"{op.name}/device")
            c.ev("dtype_" + op.name)
        c.nontrivial = True
        if op.name.startswith("add_"):
            return
        if op.axes is not None and not isinstance(op.build(), (torch.nn.Module, type(None))) or op.name in ("SSIM", "MS_SSIM", "SeparablePoolNd", "AvgPoolNd", "GaussianPoolNd"):
            # one object, both precisions in turn
            o = op.build()
            for dt in (torch.float32, torch.float64, torch.float32):
                for y, r in zip(op.call(o, op.tensors(dt)), outs[dt]):
                    c.check(y.dtype == dt and torch.equal(torch.nan_to_num(y, 3.5), torch.nan_to_num(r, 3.5)), f"{op.name}/dtype_switch", got=str(y.dtype), want=str(dt))
            c.ev("dtype_switch")
        if op.desc.get("threshold"):
            return     # thresholding is discontinuous
        # conditioning of this call, measured in float64
        cond = [np.zeros(tuple(y.shape)) for y in outs[torch.float64]]
        # variances by cancellation (E[x^2] - E[x]^2 against a constant of 1e-3) lose more than input rounding
        ssim = op.name in ("SSIM", "MS_SSIM")
        for _ in range(4):
            t = op.tensors()
            for k in t:
                t[k] = t[k] * (1 + (1e-4 if ssim else 1e-6) * torch.from_numpy(c.g.uniform(-1, 1, tuple(t[k].shape))))
            for j, (y, z) in enumerate(zip(op.call(op.build(), t), outs[torch.float64])):
                if y.shape == z.shape:
                    cond[j] = np.maximum(cond[j], np.nan_to_num((y - z).abs().numpy(), nan=np.inf))
        mag = max([1.0] + [float(np.abs(a).max(initial=0)) for a in op.arrays.values()])
        for j, (a, b) in enumerate(zip(outs[torch.float32], outs[torch.float64])):
            fin = torch.nan_to_num(b, 0.0, 0.0, 0.0)
            s = max(1.0, float(fin.abs().max()) if fin.numel() else 1.0)
            base = max(s, mag if op.shape_kind == "same_ndim" or op.name in ("Padder", "Padder.pad_axis") else s)
            c.close(a.double(), b, f"{op.name}/precision", rtol=1.0, scale=(5e-3 if ssim else 3e-5) * base + 30 * float(cond[j].max(initial=0)))
    c.ev("agree_" + op.name)


WIDTH = {torch.float64: 53, torch.float32: 24, torch.float16: 11, torch.bfloat16: 8}


class Narrowing(TorchDispatchMode):
    """records every conversion of a tensor to a floating-point format that cannot hold its values"""

    def __init__(self):
        super().__init__()
        self.lost, self.seen, self.ops = [], 0, 0

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        r = func(*args, **(kwargs or {}))
        self.ops += 1
        src = dst = None
        if func is torch.ops.aten._to_copy.default:
            src, dst = args[0], r
        elif func is torch.ops.aten.copy_.default:
            src, dst = args[1], args[0]
        if torch.is_tensor(src) and WIDTH.get(dst.dtype, 99) < WIDTH.get(src.dtype, 0):
            self.seen += 1
            v = src.detach()
            if not torch.equal(torch.nan_to_num(v.to(dst.dtype).to(v.dtype)), torch.nan_to_num(v)):
                where = [f"{f.filename.split('/torchimage/')[-1]}:{f.lineno}" for f in traceback.extract_stack() if "/torchimage/" in f.filename]
                self.lost.append((str(src.dtype), str(dst.dtype), where[-2:]))
        return r


_narrow_tested = False


def narrowing(c):
    """no intermediate of a double-precision call is squeezed into a narrower format"""
    global _narrow_tested
    if not _narrow_tested:
        v = torch.tensor([0.1, 1 / 3], dtype=torch.float64)
        with Narrowing() as s:
            v.float(), torch.empty(2).copy_(v), v.to(torch.bfloat16), torch.ones(2, dtype=torch.float64).float(), torch.zeros(2)[:].add_(v.half())
        c.check(len(s.lost) == 4 and s.seen == 5, "harness/narrowing_is_blind", got=repr(s.lost))
        _narrow_tested = True
    op = MAKERS[c.index % len(MAKERS)](c)
    c.note(op=op.name, desc=op.desc)
    t = {k: v * (1 + 1e-9 * torch.from_numpy(c.g.random(tuple(v.shape)))) if op.name != "safe_power2" or k == "x" else v for k, v in op.tensors().items()}
    obj = op.build()
    with torch.no_grad(), Narrowing() as s:
        op.call(obj, t)
    c.check(not s.lost, f"{op.name}/narrowed", got=repr(s.lost[:3]))
    c.ev("watched_operations", s.ops)
    c.ev("narrowing_watched")
    c.ev("narrow_" + op.name)
    c.nontrivial = True


def half(c):
    """half precision: the dtype is kept"""
    op = MAKERS[c.index % len(MAKERS)](c)
    dt = c.r.choice([torch.bfloat16, torch.float16])
    if op.name == "demosaic" and dt is torch.float16 and op.desc.get("clamp") and abs(op.desc["clamp"]) > 6e4:
        return
    c.note(op=op.name, desc=op.desc, dtype=str(dt))
    c.nontrivial = True
    with torch.no_grad():
        for y in op.call(op.build(dt), op.tensors(dt)):
            c.check(y.dtype == dt, f"{op.name}/half_dtype", got=str(y.dtype), want=str(dt))
    c.ev("half_" + op.name)


def boundary(c):
    """counts of original elements honour the requested dtype and device"""
    from torchimage.shapes.conv_like import n_original_elements_nd
    k = c.r.randint(1, 3)
    n = [c.r.randint(1, 6) for _ in range(k)]
    pw = [(c.r.randint(0, 3), c.r.randint(0, 3)) for _ in range(k)]
    ks = [c.r.randint(1, 3) for _ in range(k)]
    st = [c.r.randint(1, 2) for _ in range(k)]
    if any(a + sum(p) < q for a, p, q in zip(n, pw, ks)):
        return
    dt = c.r.choice([torch.float32, torch.float64, torch.int32, torch.int64])
    r = n_original_elements_nd(n, pw, ks, st, device="cpu", dtype=dt)
    c.check(r.dtype == dt and r.device.type == "cpu", "n_original/dtype", got=str(r.dtype))
    with FakeTensorMode():
        try:
            f = n_original_elements_nd(n, pw, ks, st, device=DEV, dtype=dt)
        except Exception as e:
            if MIXED.search(str(e)):
                c.fail("n_original/mixed_devices", error=str(e)[:300])
            return
        c.check(f.device.type == DEV and f.dtype == dt, "n_original/device", got=str(f.device), dtype=str(f.dtype))
    c.ev("boundary_counts")
    c.note(n=n, pw=pw, ks=ks, st=st, dtype=str(dt))
    c.nontrivial = True


def noop(c):
    """calls that change nothing (no padding, empty kernels, no axes) keep device and dtype as well"""
    from torchimage.padding import Padder
    from torchimage.pooling import SeparablePoolNd, AvgPoolNd
    dt = c.r.choice([torch.float32, torch.float64])
    shape = tuple(c.r.randint(1, 5) for _ in range(c.r.randint(3, 4)))
    fs = {"pad0": lambda x: Padder(0, mode="reflect").forward(x), "padaxis0": lambda x: Padder(0).pad_axis(x, -1, -1),
          "noaxes": lambda x: Padder(2).forward(x, axes=()), "emptykernel": lambda x: SeparablePoolNd([]).forward(x),
          "one": lambda x: AvgPoolNd(1).forward(x), "oneelement": lambda x: SeparablePoolNd([2.0], 1, same_padder="zeros").forward(x)}
    k = c.r.choice(sorted(fs))
    y = fs[k](torch.zeros(shape, dtype=dt))
    c.check(y.dtype == dt and tuple(y.shape) == shape, f"noop/{k}", got=str(y.dtype))
    with FakeTensorMode():
        try:
            y = fs[k](torch.empty(shape, dtype=dt, device=DEV))
        except Exception as e:
            if MIXED.search(str(e)):
                c.fail(f"noop/{k}/mixed_devices", error=str(e)[:300])
            return
        c.check(y.dtype == dt and y.device.type == DEV, f"noop/{k}/device", got=str(y.device))
    c.ev("noop_call")
    c.note(kind=k, shape=shape, dtype=str(dt))
    c.nontrivial = True


def user_tensors(c):
    """kernels handed over as tensors or arrays follow the input's device and precision, whatever their own"""
    from torchimage.pooling import SeparablePoolNd
    from torchimage.filtering import EdgeFilter
    n = c.r.randint(1, 3)
    ks = [c.r.randint(1, 4) for _ in range(n)]
    if c.r.random() < 0.5:
        ks = [ks[0]] * n
    kd = c.r.choice([torch.float32, torch.float64])
    dt = c.r.choice([torch.float32, torch.float64])
    kern = [to32(c.g.standard_normal(k)) for k in ks]
    forms = {"tensors": [torch.tensor(k, dtype=kd) for k in kern], "arrays": [k.astype(np.float32 if kd is torch.float32 else np.float64) for k in kern], "one": torch.tensor(kern[0], dtype=kd)}
    if len(set(ks)) == 1:
        forms["matrix"] = torch.tensor(np.stack(kern), dtype=kd)
        forms["strided"] = torch.tensor(np.stack(kern).T.copy(), dtype=kd).T
    form = c.r.choice(sorted(forms))
    kn = forms[form]
    if form == "one":
        kern = [kern[0]] * n
    stride = c.r.choice([1, 1, 2])
    pad = c.r.choice([None, "reflect", "constant"])
    edge = n > 1 and form == "one" and c.r.random() < 0.5
    shape = tuple(c.r.randint(4, 7) for _ in range(n + 1))
    axes = tuple(range(1, n + 1))
    x = torch.from_numpy(to32(c.g.standard_normal(shape))).to(dt)
    ekern = [float(v) for v in kern[0]]
    if edge:
        call = lambda k, e, y: EdgeFilter(e, k, same_padder="reflect").component(y, edge_axis=1, smooth_axes=axes[1:])
    else:
        call = lambda k, e, y: SeparablePoolNd(k, stride, same_padder=pad).forward(y, axes=axes)
    c.note(ks=ks, kernel_dtype=str(kd), dtype=str(dt), form=form, stride=stride, pad=pad, edge=edge, shape=shape)
    c.nontrivial = True
    lists = [k.tolist() for k in kern]
    want = call(lists[0] if edge or form == "one" else lists, ekern, x)
    got = call(kn, kn if edge and c.r.random() < 0.5 else ekern, x)
    c.check(got.dtype == dt, f"kernel_{form}/dtype", got=str(got.dtype), want=str(dt))
    c.close(got.double(), want.double().numpy(), f"kernel_{form}/value", "kernel_form_" + form, rtol=1e-5 if dt is torch.float32 else 1e-12,
            scale=float(np.abs(want.numpy()).max(initial=1)) * 10)
    with FakeTensorMode(allow_non_fake_inputs=True), torch.no_grad():
        try:
            y = call(kn, ekern, torch.empty(shape, dtype=dt, device=DEV))
        except Exception as e:
            if MIXED.search(str(e)):
                c.fail(f"kernel_{form}/mixed_devices", error=str(e)[:300])
            else:
                c.ev("not_interpretable")
            return
        c.check(y.device.type == DEV and y.dtype == dt, f"kernel_{form}/device", got=str(y.device))
    c.ev("kernel_device")


WORKLOADS = [Workload("user_tensors", user_tensors, 600, 6000), Workload("device", device, 1200, 10000), Workload("precision", precision, 1500, 15000), Workload("narrowing", narrowing, 800, 8000), Workload("half", half, 400, 4000), Workload("boundary", boundary, 150, 1500), Workload("noop", noop, 150, 1500)]
