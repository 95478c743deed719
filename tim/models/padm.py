"""Reference model of signal extension, written elementwise from the documented
formulas (closed forms over the signed coordinate j relative to the first
original sample), independent of how the library fills its buffers."""
import numpy as np

COPY_MODES = ["replicate", "circular", "periodize", "symmetric", "antisymmetric", "reflect"]
EXTRA_MODES = ["odd_reflect", "odd_symmetric", "smooth", "linear_ramp"]
CONST_MODES = ["zeros", "constant"]
STAT_MODES = ["maximum", "minimum", "mean", "median"]
ALL_MODES = COPY_MODES + EXTRA_MODES + CONST_MODES + STAT_MODES   # all deterministic ones
BUILTIN = ALL_MODES + ["empty"]
# modes whose result is defined for every dtype by copying/selecting samples
INT_MODES = COPY_MODES + CONST_MODES + ["maximum", "minimum", "median"]


def coord_map(mode, n, js):
    """-> (source index, sign) for each coordinate in js"""
    idx, sign = [], []
    for j in js:
        s = 1
        if mode == "replicate":
            k = min(max(j, 0), n - 1)
        elif mode == "circular":
            k = j % n
        elif mode == "periodize":
            m = n + n % 2
            k = min(j % m, n - 1)
        elif mode in ("symmetric", "antisymmetric"):
            t = j % (2 * n)
            k = t if t < n else 2 * n - 1 - t
            if mode == "antisymmetric" and t >= n:
                s = -1
        elif mode == "reflect":
            if n == 1:
                k = 0
            else:
                t = j % (2 * n - 2)
                k = t if t < n else 2 * n - 2 - t
        else:
            raise KeyError(mode)
        idx.append(k)
        sign.append(s)
    return np.array(idx, dtype=int), np.array(sign, dtype=int)


def out_len(mode, n, before, after):
    if before == after == 0:
        return n
    return before + n + after + (n % 2 if mode == "periodize" else 0)


def _stat(mode, block):
    """block: (m, ...) -> (...)"""
    if mode == "maximum":
        return block.max(axis=0)
    if mode == "minimum":
        return block.min(axis=0)
    if mode == "mean":
        return block.sum(axis=0) / block.shape[0]
    srt = np.sort(block, axis=0)
    return srt[(block.shape[0] - 1) // 2]  # lower median, as torch


def pad1(x, axis, before, after, mode, cv=(0, 0), ev=(0.0, 0.0), sl=(None, None)):
    """Extend numpy array x along one axis."""
    if before == after == 0:
        return x
    v = np.moveaxis(x, axis, 0)
    n = v.shape[0]
    stop = out_len(mode, n, before, after) - before
    js = list(range(-before, stop))
    if isinstance(mode, str) and mode in COPY_MODES:
        idx, sign = coord_map(mode, n, js)
        y = v[idx]
        if (sign < 0).any():
            y = y * sign.reshape((-1,) + (1,) * (v.ndim - 1)).astype(y.dtype)
    else:
        rows = []
        for j in js:
            if 0 <= j < n:
                rows.append(v[j])
            elif hasattr(mode, "ref"):
                rows.append(mode.ref(v, j, n))
            elif mode == "zeros":
                rows.append(np.zeros(v.shape[1:], v.dtype))
            elif mode == "constant":
                rows.append(np.full(v.shape[1:], cv[0] if j < 0 else cv[1], v.dtype))
            elif mode in STAT_MODES:
                L = sl[0] if j < 0 else sl[1]
                L = n if L is None else min(n, max(1, int(L)))
                rows.append(_stat(mode, v[:L] if j < 0 else v[n - L:]))
            elif mode == "linear_ramp":
                if j < 0:
                    rows.append(v[0] + (ev[0] - v[0]) * ((-j) / before))
                else:
                    rows.append(v[n - 1] + (ev[1] - v[n - 1]) * ((j - n + 1) / after))
            elif n == 1:
                rows.append(v[0])
            elif mode == "smooth":
                if j < 0:
                    rows.append(v[0] + j * (v[1] - v[0]))
                else:
                    rows.append(v[n - 1] + (j - n + 1) * (v[n - 1] - v[n - 2]))
            elif mode == "odd_symmetric":
                q, t = divmod(j, 2 * n)
                base = v[t] if t < n else 2 * v[n - 1] - v[2 * n - 1 - t]
                rows.append(base + 2 * q * (v[n - 1] - v[0]))
            elif mode == "odd_reflect":
                q, t = divmod(j, 2 * n - 2)
                base = v[t] if t < n else 2 * v[n - 1] - v[2 * n - 2 - t]
                rows.append(base + 2 * q * (v[n - 1] - v[0]))
            else:
                raise KeyError(mode)
        y = np.stack(rows, axis=0)
    return np.moveaxis(y, 0, axis)


def padn(x, specs):
    """specs: ordered list of dicts(axis, before, after, mode, cv, ev, sl)"""
    for s in specs:
        x = pad1(x, s["axis"], s["before"], s["after"], s["mode"], s.get("cv", (0, 0)), s.get("ev", (0.0, 0.0)), s.get("sl", (None, None)))
    return x
