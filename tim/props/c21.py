"""C21: a per-axis spec indexes like an infinite sequence of its item or like its list."""
import numpy as np
import torch

from ..core import Workload
from ..models import rag

RULE = "a case counts when an item is broadcast or the spec holds several items; identity = (data, item shape, index shape)"
REQUIRED_EVENTS = ["item_spec", "list_spec", "broadcast_item", "list_item_broadcast", "ragged_items", "index", "negative_index", "out_of_range", "iterate", "length",
                   "rejected_items", "index_shape_ok", "index_shape_rejected", "tuple_index", "tuple_out_of_range", "copy", "empty_list", "object_array", "tensor_data", "leaf_item"]


def spec(c):
    from torchimage.utils import NdSpec
    k = c.r.choice([0, 0, 1, 1, 1, 2])
    depth = c.r.randint(0, k + 1)
    d = rag.data(c, depth, uneven=c.r.choice([0, 0, 0, 0.2]), zero=0.03)
    t = rag.norm(d)
    dep = rag.sdepth(t)
    lens = rag.lengths(t, dep)
    ish = []
    for i in range(k):
        j = dep - k + i
        cur = lens[j] if 0 <= j < len(lens) else 2
        ish.append(c.r.choice([-1, cur, cur, 1, 2, 3]) if cur != 1 else c.r.choice([-1, 1, 2, 3]))
    c.note(data=rag.show(d), item_shape=ish)
    if isinstance(d, np.ndarray) and d.dtype == object:
        c.ev("object_array")
    if torch.is_tensor(d):
        c.ev("tensor_data")
    if not isinstance(t, tuple):
        c.ev("leaf_item")
    if rag.has_empty(t) and (dep > 1 or k > 1):
        return
    ish_arg = c.r.choice([tuple(ish), list(ish), np.array(ish, dtype=int)])
    try:
        want = rag.expand(t, dep, tuple(ish))
    except rag.Mismatch as m:
        c.nontrivial = True
        c.raises(lambda: NdSpec(d, item_shape=ish_arg), "unbroadcastable_accepted", "rejected_items", why=str(m))
        return
    nd = NdSpec(d, item_shape=ish_arg) if (k or c.r.random() < 0.5) else NdSpec(d)
    if c.r.random() < 0.15:
        nd = NdSpec(nd, item_shape=c.r.choice([(), ish]))
        c.ev("copy")
    ex = rag.lengths(want, max(dep, k))
    judge(c, nd, want, ex, max(dep, k) - k, changed=rag.plain(want) != rag.plain(t))
    if dep <= k and rag.plain(want) == rag.plain(t):
        c.check(type(nd[0]) is type(d) or not isinstance(t, tuple), "item_type_changed", got=type(nd[0]).__name__, want=type(d).__name__)
    c.check(tuple(nd.item_shape) == ex[len(ex) - k:], "item_shape", got=list(nd.item_shape), want=list(ex[len(ex) - k:]))


def judge(c, nd, want, ex, idx, changed=False):
    """nd must behave like `want`, a tree whose first `idx` levels are the index"""
    c.check(tuple(nd.index_shape) == ex[:idx], "index_shape", got=list(nd.index_shape), want=list(ex[:idx]))
    c.check(nd.index_ndim == idx and nd.is_item == (idx == 0) and nd.ndim == len(ex) and nd.item_ndim == len(ex) - idx, "ndim_properties")
    n = len(want) if idx else 0
    c.check(len(nd) == n, "length", got=len(nd), want=n)
    c.ev("length")
    it = [rag.plain(rag.norm(v)) for v in nd]
    if idx == 0:
        c.ev("item_spec")
        c.nontrivial = changed
        if changed:
            c.ev("broadcast_item")
        w = rag.plain(want)
        for i in [0, -1, 1, c.r.randint(-1000, 1000), c.r.randint(-9, 9), 10 ** 6]:
            c.check(rag.plain(rag.norm(nd[i])) == w, "item_at_any_index", i=i, got=rag.show(nd[i]), want=repr(w)[:200])
            c.ev("index")
        c.check(it == [w], "iterate_item", got=repr(it)[:200])
        c.ev("iterate")
        return
    c.ev("list_spec")
    c.nontrivial = n > 1
    if changed:
        c.ev("list_item_broadcast")
    if -1 in ex[idx:]:
        c.ev("ragged_items")
    if n == 0:
        c.ev("empty_list")
    items = [rag.plain(v) for v in want]
    for i in range(n):
        c.check(rag.plain(rag.norm(nd[i])) == items[i], "list_item", i=i, got=rag.show(nd[i]), want=repr(items[i])[:200])
        c.check(rag.plain(rag.norm(nd[i - n])) == items[i], "negative_index", i=i - n)
        c.ev("index")
        c.ev("negative_index")
    for i in (n, n + c.r.randint(1, 9), -n - 1, -n - c.r.randint(2, 9)):
        try:
            v = nd[i]
            c.fail("out_of_range_accepted", i=i, n=n, got=rag.show(v))
        except IndexError:
            pass
        c.ev("out_of_range")
    c.check(it == items, "iterate_list", got=repr(it)[:200], want=repr(items)[:200])
    c.ev("iterate")
    if idx >= 2 and n:
        i = c.r.randrange(n)
        if len(items[i]):
            j = c.r.randrange(len(items[i]))
            c.check(rag.plain(rag.norm(nd[i, j])) == items[i][j], "tuple_index", i=[i, j])
            c.check(rag.plain(rag.norm(nd[i - n, j - len(items[i])])) == items[i][j], "tuple_index_negative", i=[i - n, j - len(items[i])])
            c.ev("tuple_index")
        m = len(items[i])
        for key in ((i, m), (i, -m - 1), (n, 0), (-n - 1, 0), (i, m + c.r.randint(1, 9)), (i,) + (0,) * idx, (0,) * (idx + 1)):
            if idx < len(key) or key[0] != i or not -m <= key[1] < m:
                c.raises(lambda: nd[key], "tuple_out_of_range_accepted", "tuple_out_of_range", exc=IndexError, i=list(key), n=n, m=m)


def big_items(c):
    """deeper index levels: data two levels deeper than the item"""
    from torchimage.utils import NdSpec
    k = c.r.choice([0, 1])
    d = rag.data(c, k + 2, zero=0)
    t = rag.norm(d)
    dep = rag.sdepth(t)
    c.note(data=rag.show(d), k=k)
    if dep < k or rag.has_empty(t):
        return
    nd = NdSpec(d, item_shape=[-1] * k)
    judge(c, nd, t, rag.lengths(t, dep), dep - k)


def index_shape(c):
    from torchimage.utils import NdSpec
    d = rag.data(c, c.r.randint(0, 3), zero=0)
    t = rag.norm(d)
    dep = rag.sdepth(t)
    lens = rag.lengths(t, dep)
    k = c.r.randint(0, 2)
    want = tuple(c.r.choice([-1, lens[i] if i < dep else 2, lens[i] if i < dep else 2, 1, 2, 3]) for i in range(k))
    ok = k <= dep and all(w == -1 or w == lens[i] for i, w in enumerate(want))
    c.note(data=rag.show(d), index_shape=want)
    c.nontrivial = k > 0
    if k > dep and all(w == -1 or (i < dep and w == lens[i]) for i, w in enumerate(want)):
        return  # free lengths on levels the data does not have: not specified
    if not ok:
        c.raises(lambda: NdSpec(d, index_shape=want), "index_shape_accepted", "index_shape_rejected", want=want, lens=lens)
        return
    nd = NdSpec(d, index_shape=want)
    c.ev("index_shape_ok")
    judge(c, nd, t, lens, k)


WORKLOADS = [
    Workload("spec", spec, 9000, 120000),
    Workload("big_items", big_items, 2500, 25000),
    Workload("index_shape", index_shape, 4000, 40000),
]
