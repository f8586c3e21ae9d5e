"""
Independent reference model of the tracer, in float64 numpy with intervals.

Nothing here imports the code under test.  Verdicts are intervals [lo, hi] of
truth degrees: an input close to a decision boundary gives a wide interval and
is then not judged, so that rounding never raises an alarm.
"""

import itertools
import math

import numpy as np

EPS32 = float(np.finfo(np.float32).eps)
INF = math.inf
ERR = 4e-5  # assumed absolute+relative error of float32 intermediate results


class Cfg:
    """Options of a verdict computation."""

    def __init__(self, approx, alpha=100.0, function="hard_sigmoid"):
        self.approx = approx
        self.alpha = alpha
        self.function = function


def act(x, cfg):
    if cfg.function == "hard_sigmoid":
        if math.isnan(x):
            return math.nan
        y = cfg.alpha * x + 3.0
        return min(max(y, 0.0), 6.0) / 6.0
    z = cfg.alpha * x
    if z >= 0:
        return 1.0 / (1.0 + math.exp(-min(z, 700.0)))
    e = math.exp(max(z, -700.0))
    return e / (1.0 + e)


def gt(x, e, cfg):
    """Degree of ``x > 0`` for a value known up to +-e."""
    if cfg.approx:
        return act(x - e, cfg), act(x + e, cfg)
    if x > e:
        return 1.0, 1.0
    if x < -e:
        return 0.0, 0.0
    return 0.0, 1.0


def iand(*v):
    return min(a[0] for a in v), min(a[1] for a in v)


def ior(*v):
    return max(a[0] for a in v), max(a[1] for a in v)


def inot(v):
    return 1.0 - v[1], 1.0 - v[0]


UNKNOWN = (0.0, 1.0)
TRUE = (1.0, 1.0)
FALSE = (0.0, 0.0)


def within(num, den, sn, sd, tol, cfg):
    """Degree of ``-tol <= num/den <= 1+tol``; sn, sd: magnitudes of the terms."""
    en, ed = ERR * sn, ERR * sd
    if den == 0.0 and ed == 0.0:
        return FALSE
    if abs(den) <= 2 * ed:
        if abs(num) - en > 4 * (1 + tol) * (abs(den) + ed) + 1e-12:
            # |t| is large; the two comparisons exclude each other
            if not cfg.approx:
                return FALSE
            t = (abs(num) - en) / (abs(den) + ed)
            lim = 6.0 if cfg.function == "hard_sigmoid" else 30.0
            if cfg.alpha * (t - 1 - tol) > lim:
                return 0.0, 1e-6
            return UNKNOWN
        return UNKNOWN
    t = num / den
    e = (en + abs(t) * ed) / (abs(den) - ed) + 1e-6 * (1 + abs(t))
    return iand(gt(t + tol, e, cfg), gt(1.0 + tol - t, e, cfg))


def segments_intersect(P1, P2, P3, P4, tol=0.005, cfg=None):
    A = P2 - P1
    B = P3 - P4
    C = P1 - P3
    a = B[1] * C[0] - B[0] * C[1]
    b = A[0] * C[1] - A[1] * C[0]
    d = A[1] * B[0] - A[0] * B[1]
    mx = max(1.0, *(float(np.abs(p).max()) for p in (P1, P2, P3, P4)))
    nA, nB, nC = (float(np.abs(v).max()) + 2e-3 * mx for v in (A, B, C))
    return iand(
        within(a, d, nB * nC, nA * nB, tol, cfg),
        within(b, d, nA * nC, nA * nB, tol, cfg),
    )


# ------------------------------------------------------------------- objects
# An object is a dict: {"t": "wall"|"ris"|"vertex", "xy": [[x,y],[x,y]] or [x,y], "phi": p}


def oxy(o):
    return np.asarray(o["xy"], dtype=np.float64)


def normal(w):
    x = oxy(w)
    t = x[1] - x[0]
    n = np.array([t[1], -t[0]])
    ln = np.hypot(*n)
    return n / (ln if ln != 0.0 else 1.0)


def nparams(o):
    return 0 if o["t"] == "vertex" else 1


def to_cartesian(o, s):
    x = oxy(o)
    if o["t"] == "vertex":
        return x
    return x[0] + s * (x[1] - x[0])


def to_param(o, p):
    x = oxy(o)
    t = x[1] - x[0]
    q = float(t @ t)
    return float(t @ (np.asarray(p) - x[0])) / (q if q != 0 else 1.0)


def unit(v):
    n = float(np.hypot(*v))
    return v / (n if n != 0.0 else 1.0), n


def evaluate(o, tri):
    """Interaction score and a reliability flag."""
    tri = np.asarray(tri, dtype=np.float64)
    if o["t"] == "vertex":
        return 0.0, True
    n = normal(o)
    i, li = unit(tri[1] - tri[0])
    r, lr = unit(tri[2] - tri[1])
    scale = max(1.0, float(np.abs(tri).max()))
    ok = lr > 2e-3 * scale and (o["t"] == "ris" or li > 2e-3 * scale)
    if o["t"] == "ris":
        sin_a = -r[0] * n[1] + r[1] * n[0]
        cos_a = float(-r @ n)
        ph = float(o["phi"])
        return (sin_a - math.sin(ph)) ** 2 + (cos_a - math.cos(ph)) ** 2, ok
    e = r - (i - 2 * float(i @ n) * n)
    return float(e @ e), ok


def contains(o, p, cfg, scale=1.0):
    if o["t"] == "vertex":
        return TRUE
    x = oxy(o)
    ln = float(np.hypot(*(x[1] - x[0])))
    if ln == 0.0:
        return UNKNOWN
    s = to_param(o, p)
    e = ERR * (1 + abs(s)) + ERR * scale / ln
    return iand(gt(s, e, cfg), gt(1.0 - s, e, cfg))


def intersects(o, p, q, patch, cfg):
    if o["t"] == "vertex":
        return FALSE
    x = oxy(o)
    t = x[1] - x[0]
    return segments_intersect(x[0] - patch * t, x[1] + patch * t, p, q, 0.005, cfg)


# --------------------------------------------------------------------- paths


def path_length(xys):
    v = np.diff(np.asarray(xys, dtype=np.float64), axis=0) + EPS32
    return float(np.sum(np.hypot(v[:, 0], v[:, 1])))


def image_path(tx, objs, rx):
    """Returns (points, loss, ok): ``ok`` is False when badly conditioned."""
    tx, rx = np.asarray(tx, dtype=np.float64), np.asarray(rx, dtype=np.float64)
    if not objs:
        return np.vstack([tx, rx]), 0.0, True
    images = []
    im = tx
    for w in objs:
        n = normal(w)
        im = im - 2.0 * float((im - oxy(w)[0]) @ n) * n
        images.append(im)
    pts = []
    p = rx
    ok = True
    for w, im in zip(reversed(objs), reversed(images)):
        n = normal(w)
        u = p - im
        v = oxy(w)[0] - p
        un, vn = float(u @ n), float(v @ n)
        if abs(un) < 0.02 * max(float(np.hypot(*u)), 0.05):
            ok = False
        p = p + (vn * u / un if un != 0.0 else 0.0)
        if not np.all(np.abs(p) < 60):
            ok = False
        pts.append(p)
    xys = np.vstack([tx, *reversed(pts), rx])
    loss = 0.0
    for i, w in enumerate(objs):
        s, k = evaluate(w, xys[i : i + 3])
        loss += s
        ok = ok and k
    return xys, loss, ok


def mid_path(tx, objs, rx):
    pts = [to_cartesian(o, 0.5) for o in objs]
    return np.vstack([tx, *pts, rx]).astype(np.float64), 0.0, True


def path_of(cls, tx, objs, rx):
    if cls in ("Quarter", "Shifted"):
        pts = [to_cartesian(o, 0.25 if cls == "Quarter" else 0.625) for o in objs]
        return np.vstack([tx, *pts, rx]).astype(np.float64), 0.002 * len(objs), True
    return mid_path(tx, objs, rx) if cls == "Path" else image_path(tx, objs, rx)


def on_objects(xys, objs, cfg):
    v = TRUE
    scale = max(1.0, float(np.abs(xys).max()))
    for i, o in enumerate(objs):
        v = iand(v, contains(o, xys[i + 1], cfg, scale))
    return v


def intersects_with_objects(xys, objects, cand, patch, cfg):
    idx = [-1, *cand, -1]
    v = FALSE
    for i in range(len(xys) - 1):
        for k, o in enumerate(objects):
            if k == idx[i] or k == idx[i + 1]:
                continue
            v = ior(v, intersects(o, xys[i], xys[i + 1], patch, cfg))
    return v


def is_valid(xys, loss, objects, cand, inter, cfg, tol=1e-2, patch=0.0, loss_err=None):
    e = (2e-5 + 1e-3 * abs(loss)) if loss_err is None else loss_err
    return iand(
        on_objects(xys, inter, cfg),
        inot(intersects_with_objects(xys, objects, cand, patch, cfg)),
        gt(tol - loss, e, cfg),
    )


def received_power(xys, r_coef=0.5, height=0.1):
    r = path_length(xys)
    return r_coef ** (len(xys) - 2) / (height * height + r * r)


def candidates(n, min_order=0, max_order=1, order=None, reject=()):
    """All admissible sequences of object indices, by order."""
    if order is not None:
        min_order = max_order = order
    keep = [i for i in range(n) if i not in set(reject)]
    out = []
    for k in range(min_order, max_order + 1):
        for c in itertools.product(keep, repeat=k):
            if all(c[i] != c[i + 1] for i in range(k - 1)):
                out.append(c)
    return out


def bounding_box(scene):
    pts = [np.asarray(p, dtype=np.float64) for _, p in scene["tx"]]
    pts += [np.asarray(p, dtype=np.float64) for _, p in scene["rx"]]
    for o in scene["objects"]:
        pts.extend(oxy(o).reshape(-1, 2))
    pts = np.array(pts)
    return np.vstack([pts.min(axis=0), pts.max(axis=0)])


def location(bb, loc):
    (x0, y0), (x1, y1) = bb
    xa, ya = 0.5 * (x0 + x1), 0.5 * (y0 + y1)
    return np.array(
        {
            "N": (xa, y1),
            "E": (x1, ya),
            "S": (xa, y0),
            "W": (x0, ya),
            "C": (xa, ya),
            "NE": (x1, y1),
            "NW": (x0, y1),
            "SE": (x1, y0),
            "SW": (x0, y0),
        }[loc],
    )


# -------------------------------------------------------------- user functions
# Functions accumulated over paths, by name: the same formula for numpy and JAX.


def fun_value(name, tx, rx, xys, inter, args=(), kwargs=None):
    kwargs = kwargs or {}
    if name == "power":
        return received_power(xys, **kwargs)
    if name == "affine":
        a = args[0] if args else 1.0
        b = kwargs.get("b", 0.5)
        return (
            a
            + b * len(inter)
            + 2.0 * tx[0]
            - 3.0 * tx[1]
            + 5.0 * rx[0]
            - 7.0 * rx[1]
            + 0.25 * float(np.sum(xys[1:-1]))
            + sum(0.125 * (i + 1) * float(np.sum(oxy(o))) for i, o in enumerate(inter))
        )
    if name == "one":
        return 1.0
    raise KeyError(name)


def accumulate(scene, tx, rx, cands, cfg, fun, args=(), kwargs=None, cls="ImagePath", vkw=None):
    """Interval of the validity-weighted sum for one pair; None when unreliable."""
    lo = hi = 0.0
    for c in cands:
        inter = [scene["objects"][i] for i in c]
        xys, loss, ok = path_of(cls, tx, inter, rx)
        if not ok:
            # ill-conditioned path: it cannot be judged unless surely invalid
            return None
        v = is_valid(xys, loss, scene["objects"], c, inter, cfg, **(vkw or {}))
        f = fun_value(fun, tx, rx, xys, inter, args, kwargs)
        ef = 2e-3 * (1 + abs(f)) if fun == "affine" else 2e-3 * abs(f) + 1e-6
        vals = [v[0] * (f - ef), v[0] * (f + ef), v[1] * (f - ef), v[1] * (f + ef)]
        lo += min(vals)
        hi += max(vals)
    return lo - 1e-5, hi + 1e-5
