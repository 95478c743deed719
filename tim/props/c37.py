"""C37: library objects and functions used by several threads at once give the sequential results."""
import random
import sys
import threading

import numpy as np
import torch

from .. import ops
from ..core import Workload
from ..sched import Scheduler
from . import c29

RULE = "a case counts when at least two threads were inside the library and a preemption happened between lines of it; identity = (calls, interleaving)"
QUICK_SCALE = 2
REQUIRED_EVENTS = ["concurrent_call", "preemption", "one_object", "different_shapes", "shared_padder", "walk", "single_preemption", "free_running", "bayer_shared"] + \
                  ["op_" + n for n in ops.NAMES if n not in ("describe", "outer")]
ASSUMPTIONS = ["CPU build of torch; threads of one process under the GIL, switched between any two lines of library code; switches inside one line only in the free-running workload"]


def variant(c, op):
    """input tensors for op's object: other values and, where the op allows it, another shape"""
    out = {}
    grow = {}
    for k, a in op.arrays.items():
        if op.axes is not None and a.ndim > max(op.axes, default=0) and k != "w":
            shp = list(a.shape)
            for ax in op.axes:
                grow.setdefault(ax, c.r.choice([0, 0, 1, 2, 5]))
                shp[ax] += grow[ax]
        elif op.shape_kind == "chw":
            shp = list(a.shape)
            shp[-1] += 2 * grow.setdefault("w", c.r.choice([0, 1, 2]))
            shp[-2] += 2 * grow.setdefault("h", c.r.choice([0, 1, 2]))
        else:
            shp = list(a.shape)
        if k == "w" or k == "e":
            out[k] = torch.tensor(a)
        elif k in ("a", "b"):
            out[k] = torch.tensor(c.g.random(shp))
        elif op.name.startswith("add_poisson"):
            out[k] = torch.tensor(c.g.random(shp) * 20)
        else:
            out[k] = torch.tensor(np.round(c.g.standard_normal(shp) * 3, 3))
    return out


def outcome(f):
    try:
        r = f()
        return "ok", [t.clone() for t in (r if isinstance(r, (list, tuple)) else [r])]
    except Exception as e:
        return "raised", type(e).__name__


def same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "raised":
        return a[1] == b[1]
    return len(a[1]) == len(b[1]) and all(x.shape == y.shape and x.dtype == y.dtype and
                                          torch.equal(torch.nan_to_num(x, 7.25), torch.nan_to_num(y, 7.25)) for x, y in zip(a[1], b[1]))


def judge(c, got, want, mech, **kw):
    for i, (g, w) in enumerate(zip(got, want)):
        if isinstance(g, BaseException):
            g = [("raised", type(g).__name__)]
        for j, (x, y) in enumerate(zip(g, w)):
            c.ev("concurrent_call")
            if not same(x, y):
                c.fail(mech, thread=i, call=j, got=str(x)[:160] if x[0] == "raised" else "different", want=y[0], **kw)
                return


def policy(c, lines):
    """lines: number of library lines thread 0 executes alone"""
    if c.r.random() < 0.5 and lines:
        c.ev("single_preemption")
        return ("once", 0, c.r.randint(1, lines))
    c.ev("walk")
    return ("walk", c.r.choice([0.02, 0.1, 0.3, 0.8]))


def count_lines(fn):
    s = Scheduler(1, random.Random(0), ("walk", 0.0))
    s.run([fn])
    return s.count[0]


def finish(c, s):
    if s.switches:
        c.ev("preemption", s.switches)
        c.nontrivial = True
    if s.forced:
        c.ev("watchdog_release", s.forced)
    c.note(interleaving=s.h.hexdigest()[:12], points=s.tick)


def one_object(c):
    mk = c.r.choice(ops.ALL_OPS + ops.AXES_OPS)
    op = mk(c)
    if op.name in ("describe", "outer"):
        op = ops.separable(c)
    n = c.r.choice([2, 2, 3])
    with torch.no_grad():
        ts = [variant(c, op) for _ in range(n)]
        reps = c.r.choice([1, 1, 2])
        want = [[outcome(lambda t=t: op.call(op.build(), t)) for _ in range(reps)] for t in ts]
        obj = op.build()

        def fn(t):
            def go():
                with torch.no_grad():
                    return [outcome(lambda: op.call(obj, t)) for _ in range(reps)]
            return go
        solo = op.build()
        k = count_lines(lambda: outcome(lambda: op.call(solo, ts[0])))
        pol = policy(c, k)
        s = Scheduler(n, c.r, pol)
        got = s.run([fn(t) for t in ts])
    c.ev("op_" + op.name)
    c.ev("one_object")
    if len({tuple(tuple(v.shape) for v in t.values()) for t in ts}) > 1:
        c.ev("different_shapes")
    if op.name.startswith(("BayerConv", "demosaic")):
        c.ev("bayer_shared")
    c.note(op=op.name, **op.desc)
    c.note(policy=list(pol), shapes=[[list(v.shape) for v in t.values()] for t in ts])
    finish(c, s)
    judge(c, got, want, "concurrent_result", op=op.name, policy=list(pol))


def pool(c):
    """a set of objects sharing padders and blurs, each thread working through its own calls"""
    k = c.r.choice([1, 2, 2, 3])
    specs, P, B, build = c29.make_pool(c, k)
    n = c.r.choice([2, 2, 3])
    calls = []
    for _ in range(n):
        lst = []
        for _ in range(c.r.randint(1, 2)):
            call = c29.random_call(c, k, specs, lst, P)
            lst.append(dict(call, bad=False))
        calls.append(lst)
    want = [[c29.outcome(build(), q) for q in lst] for lst in calls]
    objs = build()
    solo = build()
    lines = count_lines(lambda: [c29.outcome(solo, q) for q in calls[0]])
    pol = policy(c, lines)
    s = Scheduler(n, c.r, pol)
    got = s.run([(lambda lst=lst: [c29.outcome(objs, q) for q in lst]) for lst in calls])
    used = [specs[q["i"]]["padder"] for lst in calls for q in lst]
    if any(p is not None and used.count(p) > 1 for p in used):
        c.ev("shared_padder")
    c.note(k=k, specs=specs, padders=P, blurs=B, policy=list(pol), calls=[[(q["i"], q["method"], q["shape"], q["axes"]) for q in lst] for lst in calls])
    finish(c, s)
    judge(c, got, want, "concurrent_pool_result", policy=list(pol))


def free(c):
    """no scheduler: real threads, the shortest switch interval, many repetitions"""
    mk = c.r.choice(ops.AXES_OPS + [ops.bayer_conv, ops.demosaic, ops.power, ops.last_step])
    op = mk(c)
    n, reps = 4, 6
    with torch.no_grad():
        ts = [variant(c, op) for _ in range(n)]
        want = [[outcome(lambda t=t: op.call(op.build(), t))] * reps for t in ts]
    obj = op.build()
    got = [None] * n
    bar = threading.Barrier(n)

    def body(i):
        with torch.no_grad():
            bar.wait()
            got[i] = [outcome(lambda: op.call(obj, ts[i])) for _ in range(reps)]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        th = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        for t in th:
            t.start()
        for t in th:
            t.join()
    finally:
        sys.setswitchinterval(old)
    c.ev("free_running", n * reps)
    c.note(op=op.name, **op.desc)
    c.nontrivial = True
    judge(c, got, want, "free_running_result", op=op.name)


WORKLOADS = [Workload("one_object", one_object, 1200, 20000), Workload("pool", pool, 400, 8000), Workload("free", free, 300, 4000)]
