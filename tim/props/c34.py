"""C34: pixels per degree against the viewing geometry."""
import math

import numpy as np

from ..core import Workload

RULE = "a case counts when the display is not square; identity = (display, distance)"
REQUIRED_EVENTS = ["geometry", "scaling", "order", "closed_form", "numpy_scalars"]


def case(c):
    from torchimage.metrics.hdrvdp.pixels_per_degree import pixels_per_degree as f
    d = c.r.choice([c.r.uniform(10, 3000), c.r.randint(50, 2000), 10 ** c.r.uniform(-1, 5)])
    h, w = c.r.choice([(c.r.randint(1, 9000), c.r.randint(1, 9000)), (1080, 1920), (768, 1024), (c.r.randint(1, 50), c.r.randint(1, 5000))])
    v = c.r.choice([c.r.uniform(0.1, 5), 10 ** c.r.uniform(-3, 3), c.r.randint(1, 5)])
    c.note(d=d, h=h, w=w, v=v)
    c.nontrivial = h != w
    ppd = f(d, h, w, v)
    # square pixels: the pitch follows from the diagonal measured in pixels
    pitch_m = d / 1000 / math.hypot(h, w)
    height = h * pitch_m
    angle = math.degrees(2 * math.atan2(height / 2, v))
    c.check(abs(ppd * angle - h) <= 1e-9 * h, "angle_times_ppd", got=ppd * angle, want=h)
    c.ev("geometry")
    # a display of k times the pixels on the same diagonal has k times the density
    k = c.r.randint(2, 5)
    c.check(abs(f(d, h * k, w * k, v) - k * ppd) <= 1e-9 * k * ppd, "scaling_pixels")
    # geometry is scale free
    s = c.r.choice([2.0, 0.5, 10.0])
    c.check(abs(f(d * s, h, w, v * s) - ppd) <= 1e-9 * ppd, "scaling_geometry")
    c.ev("scaling")
    far = f(d, h, w, v * 2)
    c.check(far > ppd, "farther_is_denser", near=ppd, far=far)
    c.ev("order")
    # the angle recovered from the answer alone: tan(h / (2 ppd)) = height / (2 distance)
    a = math.radians(h / ppd)
    c.check(abs(2 * v * math.tan(a / 2) - height) <= 1e-7 * max(height, v), "recovered_height", got=2 * v * math.tan(a / 2), want=height) if a < 3.1 else None
    c.ev("closed_form")
    kw = f(display_diagonal_mm=d, height_pix=h, width_pix=w, viewing_distance_m=v)
    c.check(kw == ppd, "keywords")


def scalars(c):
    """numpy scalars of any width count as the numbers they hold"""
    from torchimage.metrics.hdrvdp.pixels_per_degree import pixels_per_degree as f
    ints = [np.int16, np.uint16, np.int32, np.int64, np.uint32, np.uint8]
    floats = [np.float16, np.float32, np.float64]
    d, h, w, v = c.r.randint(50, 2000), c.r.randint(1, 9000), c.r.randint(1, 9000), c.r.choice([1, 2, 3, 0.5, 0.75, 100])
    spell = []
    for n in (d, h, w, v):
        fits = lambda t: float(t(n)) == n if t in floats else isinstance(n, int) and n <= np.iinfo(t).max
        ts = [t for t in ints + floats if fits(t)]
        spell.append(c.r.choice(ts)(n) if c.r.random() < 0.7 else n)
    c.note(args=[(type(s).__name__, float(s)) for s in spell])
    c.nontrivial = any(type(s).__module__ == "numpy" for s in spell)
    with np.errstate(all="ignore"):
        got, want = float(f(*spell)), f(d, h, w, v)
    c.check(abs(got - want) <= 1e-12 * want, "numpy_scalars", got=got, want=want)
    c.ev("numpy_scalars")


WORKLOADS = [Workload("scalars", scalars, 1500, 15000), Workload("geometry", case, 5000, 100000)]
