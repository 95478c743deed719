"""Trees of items: shape, depth and broadcasting of nested data, on normalised nested tuples."""
import numpy as np
import torch


class Arr(tuple):
    """children of a rectangular array; .shape keeps what zero-length levels would hide"""
    shape = ()


class Twin:
    """leaves that print alike, compare equal and hash alike, yet are different objects"""
    def __init__(self, serial):
        self.serial = serial

    def __eq__(self, other):
        return isinstance(other, Twin)

    def __hash__(self):
        return 7

    def __repr__(self):
        return "twin"


def norm(d):
    """nested tuples of plain leaves; arrays keep their shape"""
    if isinstance(d, (list, tuple)):
        return tuple(norm(v) for v in d)
    if torch.is_tensor(d):
        d = d.detach().numpy()
    if isinstance(d, np.ndarray):
        if d.ndim == 0:
            return norm(d.item())
        if d.dtype == object or d.dtype.kind in "US":
            return tuple(norm(v) for v in d)
        r = Arr(norm(v) for v in d)
        r.shape = d.shape
        return r
    if isinstance(d, np.generic):
        return d.item()
    return d


def plain(t):
    if isinstance(t, Twin):
        return ("twin", t.serial)
    return tuple(plain(v) for v in t) if isinstance(t, tuple) else t


def sdepth(t):
    """depth up to which all siblings agree (siblings of unequal depth count as leaves)"""
    if not isinstance(t, tuple):
        return 0
    if isinstance(t, Arr):
        return len(t.shape)
    if not t:
        return 1
    ds = {sdepth(v) for v in t}
    return 1 + (ds.pop() if len(ds) == 1 else 0)


def lengths(t, depth):
    """per level, the common length of all nodes there or -1"""
    sets = [set() for _ in range(depth)]

    def walk(n, k):
        if k == depth:
            return
        if isinstance(n, Arr):
            for j, v in enumerate(n.shape):
                if k + j < depth:
                    sets[k + j].add(v)
            return
        sets[k].add(len(n))
        for v in n:
            walk(v, k + 1)
    walk(t, 0)
    return tuple(s.pop() if len(s) == 1 else -1 for s in sets)


def lift(t):
    """non-strict: wrap shallower siblings; returns (tree, depth)"""
    if not isinstance(t, tuple):
        return t, 0
    if isinstance(t, Arr):
        return t, len(t.shape)
    if not t:
        return t, 1
    kids = [lift(v) for v in t]
    m = max(d for _, d in kids)
    out = []
    for v, d in kids:
        for _ in range(m - d):
            v = (v,)
        out.append(v)
    return tuple(out), m + 1


class Mismatch(Exception):
    pass


def expand(t, depth, target):
    """broadcast the tree of the given depth to the right-justified target; -1 keeps"""
    k = len(target)
    if depth > k:
        target = (-1,) * (depth - k) + tuple(target)
    extra = len(target) - depth if depth < k else 0

    def walk(n, tgt):
        if not tgt:
            return n
        kids = [walk(v, tgt[1:]) for v in n]
        if tgt[0] == -1 or tgt[0] == len(kids):
            return tuple(kids)
        if len(kids) == 1:
            return tuple(kids) * tgt[0]
        raise Mismatch(f"{len(kids)} -> {tgt[0]}")
    out = walk(t, tuple(target[extra:]))
    for v in reversed(target[:extra]):
        out = (out,) * (1 if v == -1 else v)
    return out


def has_empty(t):
    return isinstance(t, tuple) and (len(t) == 0 or (isinstance(t, Arr) and 0 in t.shape) or any(has_empty(v) for v in t))


# ---- random data ---------------------------------------------------------
def _fn(x=0):
    return x


def leaf(c, kinds=("int", "float", "str", "none", "fn", "np", "t0", "a0", "dict", "bool", "twin")):
    k = c.r.choice(kinds)
    v = c.r.randint(-50, 50)
    return {"int": v, "float": v / 4, "str": "".join(c.r.choice("abc") for _ in range(c.r.randint(0, 3))), "none": None, "fn": _fn,
            "np": np.float64(v / 8), "t0": torch.tensor(v), "a0": np.array(v), "dict": {"k": v}, "bool": bool(v % 2), "twin": Twin(v)}[k]


def rect(c, shape, lf):
    if not shape:
        return lf()
    v = [rect(c, shape[1:], lf) for _ in range(shape[0])]
    return tuple(v) if c.r.random() < 0.4 else v


def array(c, shape):
    a = c.g.integers(-50, 50, shape)
    k = c.r.choice(["int", "float", "tensor", "ftensor", "object", "str", "bool"])
    if 0 in shape and k in ("object", "str"):
        k = "int"
    if k == "float":
        return a / 4
    if k == "tensor":
        return torch.from_numpy(a)
    if k == "ftensor":
        return torch.from_numpy(a / 4)
    if k == "object":
        return a.astype(object)
    if k == "str":
        return a.astype(str)
    if k == "bool":
        return a > 0
    return a


def data(c, depth, zero=0.08, ragged=0.5, uneven=0.0, arrays=0.3):
    """random nested data of about the given depth"""
    if depth == 0:
        return leaf(c)
    if depth > 1 and c.r.random() < arrays * 0.3:
        # an array of objects that are themselves nested data
        shape = [c.r.randint(1, 3) for _ in range(c.r.randint(1, depth - 1))]
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            a[i] = data(c, max(1 if uneven == 0 else 0, depth - len(shape) - (c.r.randint(0, 1) if c.r.random() < uneven else 0)), zero, ragged, uneven, 0)
        c.ev("object_array_of_data")
        return a
    if c.r.random() < arrays:
        shape = [c.r.randint(1, 3) for _ in range(depth)]
        if c.r.random() < zero:
            shape[c.r.randrange(depth)] = 0
        return array(c, tuple(shape))
    if c.r.random() < ragged:
        n = 0 if c.r.random() < zero else c.r.choice([1, 2, 2, 3, 4])
        v = [data(c, max(0, depth - 1 - (c.r.randint(0, 2) if c.r.random() < uneven else 0)), zero, ragged, uneven, arrays) for _ in range(n)]
        return tuple(v) if c.r.random() < 0.4 else v
    shape = [c.r.choice([1, 1, 2, 3]) for _ in range(depth)]
    if c.r.random() < 0.1:
        c.ev("look_alikes")
        return rect(c, shape, lambda: Twin(c.r.randint(-50, 50)))
    return rect(c, shape, lambda: leaf(c))


def show(d):
    return repr(norm(d))[:160].replace(repr(_fn), "fn")
