"""C22: combining per-axis specs broadcasts items and applies functions item-wise."""
import numpy as np
import torch

from ..core import Workload
from ..models import rag

RULE = "a case counts when a list operand is present; identity = (operation, operands, function)"
REQUIRED_EVENTS = ["apply", "map", "starmap", "zip", "all_items", "mixed", "all_lists", "rejected", "agg_shape", "agg_len", "operands_unchanged", "two_level_index",
                   "func_none", "func_ragged", "func_array", "func_tensor", "call_order", "agg_ndim_rejected", "empty_list"]


def make(c, n, k):
    """NdSpec of a list of n items (or a single item when n is None), item nesting k"""
    from torchimage.utils import NdSpec
    if n is None:
        d = rag.data(c, k, zero=0, ragged=0.2)
    else:
        d = [rag.data(c, k, zero=0, ragged=0.2) for _ in range(n)]
        if c.r.random() < 0.4:
            d = tuple(d)
        if k == 0 and c.r.random() < 0.2:
            d = [c.r.randint(-9, 9) for _ in range(n)]
            d = c.r.choice([np.array, torch.tensor])(d)
    nd = NdSpec(d, item_shape=[-1] * k)
    t = rag.norm(d)
    if nd.index_ndim != (0 if n is None else 1):     # e.g. siblings of unequal depth: not the spec wanted here
        return None
    return nd, t, d


FUNCS = {
    "tuple": lambda *a: tuple(rag.plain(rag.norm(v)) for v in a),
    "list": lambda *a: [rag.plain(rag.norm(v)) for v in a],
    "ragged": lambda *a: list(range(len(repr(rag.plain(rag.norm(a[0])))) % 4)),
    "none": lambda *a: None,
    "str": lambda *a: "v" + str(len(a)),
    "count": lambda *a: len(repr(rag.plain(rag.norm(a[0])))),
    "array": lambda *a: np.array([len(repr(rag.plain(rag.norm(v)))) for v in a]),
    "tensor": lambda *a: torch.tensor([len(repr(rag.plain(rag.norm(v)))) for v in a]),
    "uneven": lambda *a: 1 if len(repr(rag.plain(rag.norm(a[0])))) % 2 else (1, 2),
    "dict": lambda *a: {"n": len(a)},
}


def same(c, r, n, want, mech, **kw):
    """r behaves like a spec of `want` (list of n results, or one result when n is None)"""
    if n is None:
        c.check(r.index_shape == () and len(r) == 0, mech + "/index_shape", got=list(r.index_shape), **kw)
        for i in (0, -3, 17):
            c.check(rag.plain(rag.norm(r[i])) == want, mech + "/item", got=rag.show(r[i]), want=repr(want)[:200], **kw)
        return
    c.check(tuple(r.index_shape) == (n,) and len(r) == n, mech + "/index_shape", got=list(r.index_shape), want=[n], **kw)
    got = [rag.plain(rag.norm(r[i])) for i in range(n)]
    c.check(got == want, mech + "/items", got=repr(got)[:200], want=repr(want)[:200], **kw)
    c.check([rag.plain(rag.norm(v)) for v in r] == want, mech + "/iterate", **kw)
    if n:
        c.check(rag.plain(rag.norm(r[-1])) == want[-1], mech + "/negative", **kw)


def combine(c):
    from torchimage.utils import NdSpec
    m = c.r.randint(1, 4)
    n = c.r.choice([1, 2, 3, 4, 5, 2, 3, 0])
    style = c.r.choice(["items", "lists", "mixed", "mixed", "mixed"])
    ops = []
    for j in range(m):
        lst = style == "lists" or (style == "mixed" and c.r.random() < 0.5)
        o = make(c, n if lst else None, 0 if n == 0 and lst else c.r.choice([0, 0, 1, 1]))
        if o is None:
            return
        ops.append((lst,) + o)
    anyl = any(o[0] for o in ops)
    N = n if anyl else None
    c.ev("all_items" if not anyl else "all_lists" if all(o[0] for o in ops) else "mixed")
    if anyl and n == 0:
        c.ev("empty_list")
    fn = c.r.choice(list(FUNCS))
    how = c.r.choice(["apply", "apply", "zip", "map" if m == 1 else "apply", "agg"])
    c.note(how=how, func=fn, operands=[rag.show(o[3]) for o in ops], lists=[o[0] for o in ops])
    c.nontrivial = anyl
    before = [rag.plain(o[2]) for o in ops]

    def at(o, i):
        return rag.plain(o[2][i] if o[0] else o[2])
    args = [[at(o, i) for o in ops] for i in (range(n) if anyl else [0])]
    specs = [o[1] for o in ops]
    calls = []

    def f(*a):
        calls.append(tuple(rag.plain(rag.norm(v)) for v in a))
        return FUNCS[fn](*a)
    want = [rag.plain(rag.norm(FUNCS[fn](*a))) for a in args]
    want = want if anyl else want[0]
    if how == "apply":
        r = NdSpec.apply(f, *specs)
        c.ev("apply")
    elif how == "map":
        r = specs[0].map(f)
        c.ev("map")
    elif how == "zip":
        r = NdSpec.zip(*specs)
        c.ev("zip")
        want = [tuple(a) for a in args]
        want = want if anyl else want[0]
    else:
        c.check(NdSpec.agg_index_shape(*specs) == ((n,) if anyl else ()), "agg_shape", got=list(NdSpec.agg_index_shape(*specs)))
        c.ev("agg_shape")
        kw = {} if c.r.random() < 0.5 else {"allowed_index_ndim": (0, 1)}
        c.check(NdSpec.agg_index_len(*specs, **kw) == (n if anyl else 0), "agg_len", got=NdSpec.agg_index_len(*specs))
        c.ev("agg_len")
        if anyl:
            c.raises(lambda: NdSpec.agg_index_len(*specs, allowed_index_ndim=(0,)), "agg_ndim_accepted", "agg_ndim_rejected")
        return
    if how in ("apply", "map"):
        c.ev({"none": "func_none", "ragged": "func_ragged", "array": "func_array", "tensor": "func_tensor"}.get(fn, "func_other"))
        c.check(sorted(map(repr, calls)) == sorted(map(repr, map(tuple, args))), how + "/calls", got=repr(calls)[:200], want=repr(args)[:200])
        c.ev("call_order")
    same(c, r, N, want, how)
    c.check(all(rag.plain(rag.norm(o[3])) == b for o, b in zip(ops, before)), "operands_changed")
    for o, b in zip(ops, before):
        same(c, o[1], n if o[0] else None, list(b) if o[0] else b, "operand_spec_changed")
    c.ev("operands_unchanged")


def starmap(c):
    from torchimage.utils import NdSpec
    n = c.r.choice([None, 1, 2, 3, 4])
    k = c.r.randint(1, 3)
    mk = lambda: c.r.choice([list, tuple, np.array, torch.tensor])([c.r.randint(-9, 9) for _ in range(k)])
    d = mk() if n is None else [mk() for _ in range(n)]
    nd = NdSpec(d, item_shape=c.r.choice([(-1,), (k,)]))
    c.note(data=rag.show(d), n=n, k=k)
    c.nontrivial = n is not None
    seen = []

    def f(*a):
        seen.append(len(a))
        return sum((i + 1) * int(v) for i, v in enumerate(a))
    r = nd.starmap(f)
    c.ev("starmap")
    c.check(set(seen) == {k}, "starmap/arity", got=seen)
    w = lambda item: sum((i + 1) * int(v) for i, v in enumerate(item))
    same(c, r, n, w(d) if n is None else [w(v) for v in d], "starmap")


def mismatch(c):
    from torchimage.utils import NdSpec
    n1 = c.r.randint(1, 4)
    n2 = c.r.choice([v for v in (1, 2, 3, 4, 5) if v != n1])
    ops = [NdSpec(list(range(n1))), NdSpec([[i] for i in range(n2)], item_shape=(-1,))]
    for _ in range(c.r.randint(0, 2)):
        ops.append(NdSpec(c.r.choice([1, "a", None])) if c.r.random() < 0.5 else NdSpec(list(range(n1))))
    c.r.shuffle(ops)
    c.note(n1=n1, n2=n2, ops=[len(o) for o in ops])
    c.nontrivial = True
    f = c.r.choice([lambda: NdSpec.zip(*ops), lambda: NdSpec.apply(lambda *a: 0, *ops), lambda: NdSpec.agg_index_shape(*ops), lambda: NdSpec.agg_index_len(*ops)])
    c.raises(f, "mismatch_accepted", "rejected")


def two_level(c):
    """rectangular two-level indices"""
    from torchimage.utils import NdSpec
    a, b = c.r.randint(1, 3), c.r.randint(1, 3)
    d1 = [[c.r.randint(0, 99) for _ in range(b)] for _ in range(a)]
    d2 = [[[c.r.randint(0, 9)] * c.r.randint(1, 3) for _ in range(b)] for _ in range(a)]
    s1, s2, s3 = NdSpec(d1), NdSpec(d2, item_shape=(-1,)), NdSpec("z")
    c.note(shape=[a, b])
    c.nontrivial = True
    r = NdSpec.apply(lambda x, y, z: (x, len(y), z), s1, s2, s3)
    c.ev("two_level_index")
    c.check(tuple(r.index_shape) == (a, b), "two_level/index_shape", got=list(r.index_shape))
    for i in range(a):
        for j in range(b):
            c.check(rag.plain(rag.norm(r[i, j])) == (d1[i][j], len(d2[i][j]), "z"), "two_level/item")
    m = s2.map(len)
    c.check(rag.plain(rag.norm(list(m))) == tuple(tuple(len(v) for v in row) for row in d2), "two_level/map")


WORKLOADS = [
    Workload("combine", combine, 9000, 120000),
    Workload("starmap", starmap, 1500, 15000),
    Workload("mismatch", mismatch, 1000, 10000),
    Workload("two_level", two_level, 500, 5000),
]
