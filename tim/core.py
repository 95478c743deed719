"""Verdict machinery shared by every monitor.

A property module defines ``WORKLOADS``: a list of ``Workload(name, fn, quick,
thorough)``.  ``fn(c)`` executes one case against the real library and lets the
oracles in it judge what was observed.  ``c`` is a ``Case``: it carries the
case's own PRNGs (derived from seed, property, workload and index only, so any
case replays in isolation), counts monitored events, and collects violations.

Verdicts are three-valued: violated / held on what was observed / inconclusive
(exit 2: a monitor that must have been reached was not, a harness error, or a
watchdog without a logical-step confirmation).
"""
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings

import numpy as np
import torch

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TIM_REPO", "/repo")
PKG = os.path.join(REPO, "torchimage") + os.sep

CASE_ALARM_S = 40          # generous watchdog; a normal case takes milliseconds
STEP_BUDGET = 3_000_000    # executed library lines in one case; normal cases use < 50 000
MAX_VIOL = int(os.environ.get("TIM_MAX_VIOL", "5"))


class Violation(Exception):
    def __init__(self, mech, detail=None):
        super().__init__(mech)
        self.mech = mech
        self.detail = detail or {}


class CaseTimeout(BaseException):
    pass


class StepBudgetExceeded(BaseException):
    pass


class Workload:
    def __init__(self, name, fn, quick, thorough):
        self.name, self.fn, self.quick, self.thorough = name, fn, quick, thorough


def jsonable(o, depth=0):
    if depth > 6:
        return repr(o)[:200]
    if isinstance(o, (str, int, float, bool)) or o is None:
        if isinstance(o, float) and not np.isfinite(o):
            return repr(o)
        return o
    if isinstance(o, np.generic):
        return jsonable(o.item())
    if torch.is_tensor(o):
        return {"tensor": list(o.shape), "dtype": str(o.dtype)}
    if isinstance(o, np.ndarray):
        if o.size <= 24:
            return {"array": jsonable(o.tolist(), depth + 1)}
        return {"array_shape": list(o.shape)}
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in o]
    if callable(o):
        return "<function>"
    return repr(o)[:200]


class Case:
    def __init__(self, prop, workload, index, seed, tier):
        self.prop, self.workload, self.index, self.seed, self.tier = prop, workload, index, seed, tier
        h = hashlib.sha256(f"{seed}|{prop}|{workload}|{index}".encode()).digest()
        self.r = random.Random(int.from_bytes(h[:8], "big"))
        self.g = np.random.default_rng(int.from_bytes(h[8:16], "big"))
        self.tg = torch.Generator().manual_seed(int.from_bytes(h[16:23], "big"))
        self.desc = {}
        self.events = {}
        self.nontrivial = False
        self.violations = []

    # -- recording -----------------------------------------------------
    def ev(self, kind, n=1):
        """A monitored event: something an oracle actually judged."""
        self.events[kind] = self.events.get(kind, 0) + n

    def note(self, **kw):
        self.desc.update(kw)

    def fail(self, mech, **detail):
        self.violations.append((mech, jsonable(detail)))

    def check(self, cond, mech, **detail):
        if not cond:
            self.fail(mech, **detail)
        return bool(cond)

    # -- comparisons ----------------------------------------------------
    def exact(self, actual, expected, mech, kind=None, **detail):
        a, e = to_np(actual, mech), np.asarray(expected)
        if kind:
            self.ev(kind)
        if a.shape != e.shape:
            return self.check(False, mech + "/shape", got=list(a.shape), want=list(e.shape), **detail)
        if a.dtype.kind == "f" or e.dtype.kind == "f":
            ok = np.array_equal(a, e, equal_nan=True)
        else:
            ok = np.array_equal(a, e)
        if not ok:
            bad = np.argwhere(~((a == e) | ((a != a) & (e != e))))
            i = tuple(bad[0].tolist()) if len(bad) else ()
            return self.check(False, mech, at=list(i), got=a[i] if a.ndim else a.item(), want=e[i] if e.ndim else e.item(), nbad=len(bad), **detail)
        return True

    def close(self, actual, expected, mech, kind=None, rtol=1e-9, scale=None, **detail):
        """|a-e| <= rtol * scale, where scale defaults to max(1, |e|_max)."""
        a, e = to_np(actual, mech), np.asarray(expected)
        if kind:
            self.ev(kind)
        if a.shape != e.shape:
            return self.check(False, mech + "/shape", got=list(a.shape), want=list(e.shape), **detail)
        if a.size == 0:
            return True
        a = a.astype(np.float64)
        e = e.astype(np.float64)
        if scale is None:
            fin = np.abs(e[np.isfinite(e)])
            scale = max(1.0, float(fin.max()) if fin.size else 1.0)
        with np.errstate(all="ignore"):
            same = (a == e) | (np.isnan(a) & np.isnan(e))
            d = np.where(same, 0.0, np.abs(a - e))
        ok = bool(np.all(d <= rtol * scale))
        if not ok:
            d = np.where(np.isnan(d), np.inf, d)
            i = np.unravel_index(int(np.argmax(d)), d.shape) if d.ndim else ()
            return self.check(False, mech, at=[int(v) for v in i], got=float(a[i]), want=float(e[i]), err=float(d[i]), tol=rtol * scale, **detail)
        return True

    def raises(self, fn, mech, kind=None, exc=Exception, **detail):
        if kind:
            self.ev(kind)
        try:
            r = fn()
        except exc as e:
            return e
        self.fail(mech, returned=r, **detail)
        return None


def to_np(t, mech="result"):
    if torch.is_tensor(t):
        t = t.detach().cpu()
        return (t.float() if t.dtype == torch.bfloat16 else t).numpy()
    if isinstance(t, (np.ndarray, np.generic, float, int, bool)):
        return np.asarray(t)
    raise Violation(mech + "/type", {"got": type(t).__name__})


def repo_frames(tb):
    out = []
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(PKG):
            out.append((fn[len(REPO) + 1:], tb.tb_frame.f_code.co_name))
        tb = tb.tb_next
    return out


def _alarm(signum, frame):
    raise CaseTimeout()


class _Stepper:
    def __init__(self, budget):
        self.n, self.budget = 0, budget

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(PKG):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n > self.budget:
                raise StepBudgetExceeded()
        return self.local


def execute(prop, wl, index, seed, tier, step_limited=False, alarm=CASE_ALARM_S):
    """Run one case; returns the Case. Raises CaseTimeout if the watchdog fires."""
    c = Case(prop, wl.name, index, seed, tier)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, alarm)
    st = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            torch.manual_seed(int.from_bytes(hashlib.sha256(f"{seed}{prop}{index}".encode()).digest()[:6], "big"))
            if step_limited:
                st = _Stepper(STEP_BUDGET)
                sys.settrace(st.trace)
            try:
                wl.fn(c)
            finally:
                if step_limited:
                    sys.settrace(None)
    except Violation as v:
        c.violations.append((v.mech, jsonable(v.detail)))
    except StepBudgetExceeded:
        c.violations.append(("nontermination", {"lines": st.n, "desc": "library executed more lines than any terminating run of this case"}))
    except Exception as e:
        if isinstance(e, MemoryError) or "allocate memory" in str(e) or "not enough memory" in str(e):
            c.ev("out_of_memory")       # says nothing about the property
            return c
        fr = repo_frames(e.__traceback__)
        where = f"{fr[-1][0]}:{fr[-1][1]}" if fr else "harness"
        c.violations.append((f"exception/{type(e).__name__}/{where}",
                             {"error": str(e)[:400], "trace": traceback.format_exc()[-1500:]}))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return c
