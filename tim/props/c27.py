"""C27: noise functions have the stated distribution and are generator-reproducible."""
import math

import numpy as np
import torch

from .. import gen
from ..core import Workload

RULE = "a case counts when noise is present (sigma > 0 or k > 0 on a positive image); identity = (workload, shape, k, sigma, dtype, generator kind)"
REQUIRED_EVENTS = ["gauss_reproducible", "poisson_reproducible", "shape_dtype", "sigma_zero_identity", "poisson_lattice", "poisson_zero_image", "gauss_moments", "gauss_tail",
                   "gauss_independent", "pg_mean", "pg_variance", "poisson_pmf", "per_level", "global_rng", "input_unchanged", "different_draws", "global_rng_untouched",
                   "float32", "location_shift", "tiny_sigma", "large_sigma", "distinct_gauss", "distinct_poisson", "distinct_poisson_only", "deep_shape", "tiny_k", "scaled_unit", "large_image"]
Z = 7.5     # two-sided normal tail 6e-14


def call(c, kind, x, k, sigma, g):
    from torchimage.random import add_gauss_noise, add_poisson_gauss_noise
    kw = {} if g is None else {"generator": g}
    return add_gauss_noise(x, sigma, **kw) if kind == "gauss" else add_poisson_gauss_noise(x, k, sigma, **kw)


def basic(c):
    kind = c.r.choice(["gauss", "poisson"])
    shp = gen.shape(c, hi=6) if c.r.random() < 0.95 else (0, 3)
    dt = c.r.choice([torch.float64, torch.float32])
    if dt == torch.float32:
        c.ev("float32")
    a = gen.values(c, shp) if kind == "gauss" else c.g.random(shp) * c.r.choice([1, 20, 300])
    if kind == "poisson" and c.r.random() < 0.15:
        a = a * 0
    k = c.r.choice([0.01, 0.5, 1, 1.0, 2.5, 10, 10 ** c.r.uniform(-5, 5)])
    if kind == "poisson" and k < 5e-3:
        c.ev("tiny_k")
        if c.r.random() < 0.7:      # few counts
            a = a / max(a.max(initial=0), 1e-9) * k * c.r.choice([0.5, 3, 20])
    sigma = c.r.choice([0.0, 0, 0.1, 1.0, 3, 12.5, 10 ** c.r.uniform(-7, 6)])
    x, lay = gen.layout(c, a, dtype=dt)
    keep = x.clone()
    sd = c.r.randrange(1 << 40)
    useg = c.r.random() < 0.7
    c.note(kind=kind, shape=shp, dtype=str(dt), k=k, sigma=sigma, gen=useg, layout=lay)
    c.nontrivial = sigma > 0 or kind == "poisson"
    ys = []
    for rep in range(2):
        if useg:
            torch.rand(rep + 1)
            g = torch.Generator().manual_seed(sd)
            st = torch.random.get_rng_state()
            ys.append(call(c, kind, x, k, sigma, g))
            c.check(torch.equal(st, torch.random.get_rng_state()), "global_rng_consumed", fn=kind)
            c.ev("global_rng_untouched")
            nxt = call(c, kind, x, k, sigma, g) if rep == 0 else None
        else:
            torch.manual_seed(sd)
            ys.append(call(c, kind, x, k, sigma, None))
            c.ev("global_rng")
            nxt = call(c, kind, x, k, sigma, None) if rep == 0 else None
        # only where two independent draws cannot coincide by rounding
        if nxt is not None and (x.numel() >= 4 and sigma > 1e-2 * float(ys[0].abs().max()) or
                                kind == "poisson" and np.sum(a / k >= 1) >= 40):
            c.check(not torch.equal(nxt, ys[0]), "noise_not_advancing", fn=kind)
            c.ev("different_draws")
    c.check(torch.equal(ys[0], ys[1]), "not_reproducible", fn=kind)
    c.ev(kind + "_reproducible")
    y = ys[0]
    c.check(tuple(y.shape) == tuple(shp) and y.dtype == dt, "shape_dtype", got=[list(y.shape), str(y.dtype)])
    c.ev("shape_dtype")
    c.check(torch.equal(x, keep), "input_modified", fn=kind)
    c.ev("input_unchanged")
    c.check(bool(torch.isfinite(y).all()), "not_finite")
    if kind == "gauss":
        if sigma == 0:
            c.check(torch.equal(y, x), "sigma_zero")
            c.ev("sigma_zero_identity")
    elif sigma == 0:
        m = y.double() / k
        c.check(bool(((m - m.round()).abs() <= 1e-5 * (1 + m.abs())).all()) and bool((y >= 0).all()), "not_multiple_of_k", k=k)
        c.ev("poisson_lattice")
        if not a.any():
            c.check(not y.any(), "poisson_zero_image")
            c.ev("poisson_zero_image")


def shift(c):
    """Gaussian noise does not depend on the image: the same state adds the same noise"""
    from torchimage.random import add_gauss_noise
    shp = gen.shape(c)
    a, b = gen.values(c, shp), gen.values(c, shp)
    s = c.r.choice([0.5, 1.0, 4.0, 10 ** c.r.uniform(-8, 8)])
    s2 = s * c.r.choice([1, 2, 0.25]) if c.r.random() < 0.5 else 10 ** c.r.uniform(-8, 8)
    small = min(s, s2)
    if small < 0.1:
        a, b = a * 0, b * (small / (1 + np.abs(b).max())) if small == s2 else b * 0
    c.ev("tiny_sigma" if small < 1e-3 else "large_sigma" if max(s, s2) > 1e3 else "ordinary_sigma")
    sd = c.r.randrange(1 << 40)
    c.note(shape=shp, sigma=s)
    c.nontrivial = True
    f = lambda v, sg: add_gauss_noise(torch.from_numpy(v), sg, generator=torch.Generator().manual_seed(sd)).numpy() - v
    n1, n2 = f(a, s), f(b, s2)
    c.close(n1 / s, n2 / s2, "noise_depends_on_image", "location_shift", rtol=1e-9, scale=max(np.abs(a).max(), np.abs(b).max()) + 10)
    # the same draws at sigma 1 are standard normals
    n0 = f(a * 0, 1.0)
    c.close(n1 / s, n0, "noise_scale", rtol=1e-9, scale=np.abs(a).max() / s + 10)
    c.check(bool((np.abs(n0) < 9).all()) and bool((n1 != 0).any()), "noise_suppressed", sigma=s, got=float(np.abs(n1).max()))


def distinct(c):
    """no two elements share their draw, whatever the rank and arrangement of the image"""
    nd = c.r.randint(1, 6)
    shp = tuple(c.r.randint(1, {1: 300, 2: 17, 3: 8}.get(nd, 4)) for _ in range(nd))
    kind = c.r.choice(["gauss", "poisson", "poisson_only"])
    n = int(np.prod(shp))
    level = 1e12 if kind == "poisson_only" else 0.0
    x, lay = gen.layout(c, np.full(shp, level))
    if kind == "gauss" and c.r.random() < 0.3:
        x, lay = torch.zeros(1, dtype=torch.float64).expand(shp), "expanded"
    g = torch.Generator().manual_seed(c.r.randrange(1 << 40)) if c.r.random() < 0.6 else None
    sigma = 0.0 if kind == "poisson_only" else 10 ** c.r.uniform(-3, 3)
    c.note(kind=kind, shape=shp, layout=lay, sigma=sigma, gen=g is not None)
    y = call(c, kind.split("_")[0], x, 1.0, sigma, g)
    if n < 8:
        return
    c.nontrivial = True
    c.ev("distinct_" + kind)
    if nd > 4:
        c.ev("deep_shape")
    # 53-bit normals never coincide; Poisson counts of mean 1e12 do with probability 3e-7 per pair
    if kind != "poisson_only":      # neither equal nor opposite
        y = y.abs()
    d = torch.unique(y).numel()
    c.check(d >= n - (min(8, n // 4) if kind == "poisson_only" else 0), "elements_share_noise", distinct=d, elements=n)


def large(c):
    """no two elements of a large image share their draw either"""
    kind = c.r.choice(["gauss", "gauss", "poisson", "poisson_only"])
    n = int(2 ** c.r.uniform(12, 17 if kind == "poisson_only" else 22))
    h = int(2 ** c.r.uniform(0, 11))
    shp = c.r.choice([(n,), (h, max(1, n // h)), (max(1, n // h), h)])
    n = int(np.prod(shp))
    sigma = 0.0 if kind == "poisson_only" else 1.0
    x = torch.full(shp, 1e12 if kind == "poisson_only" else 0.0, dtype=torch.float64)
    g = torch.Generator().manual_seed(c.r.randrange(1 << 40)) if c.r.random() < 0.6 else None
    c.note(kind=kind, shape=shp, gen=g is not None)
    c.nontrivial = True
    y = call(c, kind.split("_")[0], x, 1.0, sigma, g)
    d = torch.unique(y if kind == "poisson_only" else y.abs()).numel()      # neither equal nor opposite
    c.ev("large_image")
    # the expected number of coincidences is below n^2/2^54 (normals) or n^2/7e6 (counts of mean 1e12, deviation 1e6)
    slack = 20 + (n * n // 4_000_000 if kind == "poisson_only" else n * n // 2 ** 50)
    c.check(d >= n - slack, "elements_share_noise", distinct=d, elements=n)
    f = y.reshape(-1)[: 1 << 20].numpy()
    f = (f - (1e12 if kind == "poisson_only" else 0)) / (math.sqrt(1e12) if kind == "poisson_only" else 1)
    if len(f) > 4000:
        _moments(c, f, len(f), "large")


def _moments(c, r, n, mech):
    """r: supposedly n iid standard normals"""
    m = r.mean() * math.sqrt(n)
    v = (r.var() - 1) * math.sqrt(n / 2)
    sk = (r ** 3).mean() * math.sqrt(n / 15)
    ku = ((r ** 4).mean() - 3) * math.sqrt(n / 96)
    c.check(abs(m) < Z, mech + "/mean", z=m)
    c.check(abs(v) < Z, mech + "/std", z=v)
    c.check(abs(sk) < Z + 1, mech + "/skew", z=sk)
    c.check(abs(ku) < Z + 6, mech + "/kurtosis", z=ku)
    c.ev("gauss_moments")
    for t, p in ((1.0, 0.31731), (2.0, 0.0455), (3.0, 0.0026998)):
        k = (np.abs(r) > t).mean()
        z = (k - p) * math.sqrt(n / (p * (1 - p)))
        c.check(abs(z) < Z, mech + "/tail", z=float(z), t=t)
    c.ev("gauss_tail")


def gauss_stat(c):
    n0, n1 = c.r.choice([(200, 300), (300, 200), (60, 1000)])
    dt = c.r.choice([torch.float64, torch.float32])
    base = c.r.choice([0.0, 5.0])
    sigma = c.r.choice([0.3, 1.0, 7.0, 10 ** c.r.uniform(-6, 6)])
    if not 0.1 < sigma < 1e3:
        base = 0.0
    a = np.full((n0, n1), base) + (np.arange(n1) % 5) * 0.5 * min(1, sigma)
    g = torch.Generator().manual_seed(c.r.randrange(1 << 40)) if c.r.random() < 0.6 else None
    y = call(c, "gauss", torch.tensor(a, dtype=dt), None, sigma, g).double().numpy()
    r = (y - a) / sigma
    n = r.size
    c.note(shape=[n0, n1], dtype=str(dt), sigma=sigma, base=base)
    c.nontrivial = True
    _moments(c, r, n, "gauss")
    for ax in (0, 1):
        for lag in (1, 2):
            p = np.take(r, range(lag, r.shape[ax]), ax) * np.take(r, range(0, r.shape[ax] - lag), ax)
            z = p.mean() * math.sqrt(p.size)
            c.check(abs(z) < Z, "gauss/correlated", z=float(z), axis=ax, lag=lag)
    rm = r.mean(axis=1) * math.sqrt(n1)
    c.check(float(np.abs(rm).max()) < 8.5, "gauss/row_mean", z=float(np.abs(rm).max()))
    c.ev("gauss_independent")


def pg_stat(c):
    levels = np.array([0.0, 0.4, 2.0, 9.0, 40.0])
    per = 25000
    unit = c.r.choice([1.0, 1.0, 10 ** c.r.uniform(-4, 4)])
    levels = levels * unit
    dt = c.r.choice([torch.float64, torch.float32])
    k = c.r.choice([0.25, 1.0, 2.0, 5.0]) * unit
    sigma = c.r.choice([0.0, 0.0, 0.5, 2.0]) * unit
    c.ev("scaled_unit" if unit != 1 else "plain_unit")
    a = np.repeat(levels[None], per, 0)
    g = torch.Generator().manual_seed(c.r.randrange(1 << 40)) if c.r.random() < 0.6 else None
    y = call(c, "poisson", torch.tensor(a, dtype=dt), k, sigma, g).double().numpy()
    c.note(k=k, sigma=sigma, dtype=str(dt))
    c.nontrivial = True
    for j, lam in enumerate(levels):
        v = y[:, j]
        var = k * lam + sigma ** 2
        if var == 0:
            c.check(not v.any(), "pg/zero")
            continue
        z = (v.mean() - lam) / math.sqrt(var / per)
        c.check(abs(z) < Z, "pg/mean", z=float(z), level=float(lam), k=k, sigma=sigma)
        c.ev("pg_mean")
        # fourth central moment of k*Poisson(m) + N(0, s^2)
        m = lam / k
        mu4 = k ** 4 * m * (1 + 3 * m) + 6 * k * lam * sigma ** 2 + 3 * sigma ** 4
        z = (v.var() - var) / math.sqrt((mu4 - var ** 2) / per)
        c.check(abs(z) < Z + 2, "pg/variance", z=float(z), level=float(lam), k=k, sigma=sigma)
        c.ev("pg_variance")
        c.ev("per_level")
        # independent between rows
        p = (v[1:] - lam) * (v[:-1] - lam)
        z = p.mean() * math.sqrt(len(p)) / var
        c.check(abs(z) < Z + 2, "pg/correlated", z=float(z))
        if sigma == 0 and m > 0:
            cnt = np.round(v / k).astype(int)
            for q in range(0, 4):
                pm = math.exp(-m) * m ** q / math.factorial(q)
                if pm * per < 50:
                    continue
                z = ((cnt == q).sum() - per * pm) / math.sqrt(per * pm * (1 - pm))
                c.check(abs(z) < Z, "pg/pmf", z=float(z), q=q, m=m)
                c.ev("poisson_pmf")
    if sigma:
        r = y[:, 0] / sigma
        _moments(c, r, per, "pg/gauss")
    # columns are independent draws
    for j in range(1, len(levels) - 1):
        u, w = y[:, j] - levels[j], y[:, j + 1] - levels[j + 1]
        z = (u * w).mean() * math.sqrt(per) / math.sqrt((k * levels[j] + sigma ** 2) * (k * levels[j + 1] + sigma ** 2))
        c.check(abs(z) < Z + 2, "pg/columns_correlated", z=float(z))


WORKLOADS = [Workload("large", large, 24, 240), Workload("basic", basic, 4000, 50000), Workload("shift", shift, 800, 8000), Workload("distinct", distinct, 800, 8000),
             Workload("gauss_stat", gauss_stat, 60, 800), Workload("pg_stat", pg_stat, 60, 800)]
