"""Colour filter arrays, site by site (plain loops over pixels; no slicing tricks shared with the library)."""
import numpy as np

ALIGNMENTS = ["RGGB", "BGGR", "GRBG", "GBRG"]


def colour(sa, i, j):
    """letter of the colour measured at row i, column j"""
    return sa.upper()[2 * (i % 2) + (j % 2)]


def site(sa, i, j):
    """R, B, GR (green in a red row) or GB (green in a blue row)"""
    k = colour(sa, i, j)
    if k != "G":
        return k
    return "GR" if "R" in (colour(sa, i, 0), colour(sa, i, 1)) else "GB"


def mosaic(rgb, sa):
    out = np.zeros(rgb.shape[:-3] + (1,) + rgb.shape[-2:], rgb.dtype)
    for i in range(rgb.shape[-2]):
        for j in range(rgb.shape[-1]):
            out[..., 0, i, j] = rgb[..., "RGB".index(colour(sa, i, j)), i, j]
    return out


def to4(x):
    h, w = x.shape[-2:]
    out = np.zeros(x.shape[:-3] + (4, h // 2, w // 2), x.dtype)
    for i in range(h):
        for j in range(w):
            out[..., 2 * (i % 2) + (j % 2), i // 2, j // 2] = x[..., 0, i, j]
    return out


def to1(x):
    h, w = x.shape[-2:]
    out = np.zeros(x.shape[:-3] + (1, 2 * h, 2 * w), x.dtype)
    for i in range(2 * h):
        for j in range(2 * w):
            out[..., 0, i, j] = x[..., 2 * (i % 2) + (j % 2), i // 2, j // 2]
    return out


def downsample(x4, sa):
    """x4: four-channel, float64"""
    s = sa.upper()
    gs = [k for k in range(4) if s[k] == "G"]
    return np.stack([x4[..., s.index("R"), :, :], (x4[..., gs[0], :, :] + x4[..., gs[1], :, :]) / 2, x4[..., s.index("B"), :, :]], axis=-3)


def mirror(i, n):
    """reflection about the first and last samples, without repeating them"""
    if n == 1:
        return 0
    i %= 2 * (n - 1)
    return i if i < n else 2 * (n - 1) - i


def windows(x, k):
    """w[..., ch, i, j, a, b] = the k x k window of x centred on (i, j), reflected at the borders"""
    h, w = x.shape[-2:]
    r = [[mirror(i + d - k // 2, h) for d in range(k)] for i in range(h)]
    q = [[mirror(j + d - k // 2, w) for d in range(k)] for j in range(w)]
    out = np.empty(x.shape + (k, k), x.dtype)
    for i in range(h):
        for j in range(w):
            out[..., i, j, :, :] = x[..., np.array(r[i])[:, None], np.array(q[j])[None, :]]
    return out


def bayer_conv(x, sa, weights, biases, k):
    """weights[site]: (out, in, k, k), biases[site]: (out,) or None"""
    win = windows(x, k)
    out_ch = next(iter(weights.values())).shape[0]
    y = np.zeros(x.shape[:-3] + (out_ch,) + x.shape[-2:])
    for i in range(x.shape[-2]):
        for j in range(x.shape[-1]):
            s = site(sa, i, j)
            v = np.einsum("...cab,ocab->...o", win[..., i, j, :, :], weights[s])
            y[..., :, i, j] = v if biases is None else v + biases[s]
    return y


def unshuffle(y):
    h, w = y.shape[-2:]
    out = np.zeros(y.shape[:-3] + (y.shape[-3] * 4, h // 2, w // 2), y.dtype)
    for ch in range(y.shape[-3]):
        for i in range(h):
            for j in range(w):
                out[..., 4 * ch + 2 * (i % 2) + (j % 2), i // 2, j // 2] = y[..., ch, i, j]
    return out


# Malvar, He and Cutler 2004, figure 2 (times 8)
G_AT_RB = np.array([[0, 0, -1, 0, 0], [0, 0, 2, 0, 0], [-1, 2, 4, 2, -1], [0, 0, 2, 0, 0], [0, 0, -1, 0, 0]]) / 8
SAME_ROW = np.array([[0, 0, .5, 0, 0], [0, -1, 0, -1, 0], [-1, 4, 5, 4, -1], [0, -1, 0, -1, 0], [0, 0, .5, 0, 0]]) / 8
SAME_COL = SAME_ROW.T.copy()
OPPOSITE = np.array([[0, 0, -1.5, 0, 0], [0, 2, 0, 2, 0], [-1.5, 0, 6, 0, -1.5], [0, 2, 0, 2, 0], [0, 0, -1.5, 0, 0]]) / 8


def malvar(x, sa, clamp):
    win = windows(x, 5)[..., 0, :, :, :, :]
    out = np.zeros(x.shape[:-3] + (3,) + x.shape[-2:])
    for i in range(x.shape[-2]):
        for j in range(x.shape[-1]):
            here = colour(sa, i, j)
            for ch, want in enumerate("RGB"):
                if want == here:
                    out[..., ch, i, j] = x[..., 0, i, j]
                    continue
                if want == "G":
                    f = G_AT_RB
                elif here == "G":
                    f = SAME_ROW if want in (colour(sa, i, j - 1), colour(sa, i, j + 1)) else SAME_COL
                else:
                    f = OPPOSITE
                out[..., ch, i, j] = (win[..., i, j, :, :] * f).sum((-1, -2))
    return np.clip(out, 0.0, clamp)


def interpolate(x, sa, filters, clamp):
    """filters[colour + site]: the filter for a missing colour at a site (R, B, GR, GB)"""
    k = next(iter(filters.values())).shape[0]
    win = windows(x, k)[..., 0, :, :, :, :]
    out = np.zeros(x.shape[:-3] + (3,) + x.shape[-2:])
    for i in range(x.shape[-2]):
        for j in range(x.shape[-1]):
            s = site(sa, i, j)
            for ch, want in enumerate("RGB"):
                out[..., ch, i, j] = x[..., 0, i, j] if want == s[0] else (win[..., i, j, :, :] * filters[want + s]).sum((-1, -2))
    return np.clip(out, 0.0, clamp)


def fill(x, y, sa):
    """measured samples of x in their channel, the two channels of y in the remaining channels in RGB order"""
    out = np.zeros(x.shape[:-3] + (3,) + x.shape[-2:], x.dtype)
    for i in range(x.shape[-2]):
        for j in range(x.shape[-1]):
            k = "RGB".index(colour(sa, i, j))
            rest = [c for c in range(3) if c != k]
            out[..., k, i, j] = x[..., 0, i, j]
            out[..., rest[0], i, j] = y[..., 0, i, j]
            out[..., rest[1], i, j] = y[..., 1, i, j]
    return out


def flip(sa, rows, cols):
    s = sa.upper()
    g = [[s[0], s[1]], [s[2], s[3]]]
    if rows:
        g = g[::-1]
    if cols:
        g = [r[::-1] for r in g]
    return "".join(sum(g, []))


def transpose(sa):
    s = sa.upper()
    return s[0] + s[2] + s[1] + s[3]
