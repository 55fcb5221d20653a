"""Reference geometry in double precision, vectorised over the leading axis (independent of the code under check)."""

import itertools

import numpy as np


def lattice(n, m=None):
    """All points of an n x m integer lattice."""
    return np.array(list(itertools.product(range(n), range(m or n))), dtype=float)


def segments(points, both=True):
    """All non-degenerate segments between the points (both directions, or one)."""
    idx = range(len(points))
    it = itertools.permutations(idx, 2) if both else itertools.combinations(idx, 2)
    return np.array([[points[i], points[j]] for i, j in it])


def dot(a, b):
    return np.sum(a * b, axis=-1)


def norm(a):
    return np.sqrt(dot(a, a))


def unit(a):
    n = norm(a)
    return a / np.where(n == 0, 1.0, n)[..., None]


def normal(w):
    t = w[..., 1, :] - w[..., 0, :]
    return unit(np.stack([t[..., 1], -t[..., 0]], axis=-1))


def mirror(p, w):
    n = normal(w)
    return p - 2.0 * dot(p - w[..., 0, :], n)[..., None] * n


def project(p, w):
    """Parameter of the orthogonal projection on the line of w."""
    t = w[..., 1, :] - w[..., 0, :]
    return dot(p - w[..., 0, :], t) / np.where(dot(t, t) == 0, 1.0, dot(t, t))


def residual_wall(a, b, c, w):
    i, r, n = unit(b - a), unit(c - b), normal(w)
    e = r - (i - 2 * dot(i, n)[..., None] * n)
    return dot(e, e)


def residual_ris(a, b, c, w, phi):
    r, n = unit(c - b), normal(w)
    sin_a = -(r[..., 0] * n[..., 1] - r[..., 1] * n[..., 0])
    cos_a = -dot(r, n)
    return (sin_a - np.sin(phi)) ** 2 + (cos_a - np.cos(phi)) ** 2


def side(p, w):
    """Signed distance to the line of w."""
    return dot(p - w[..., 0, :], normal(w))


def image_path(tx, rx, walls):
    """Points of the image path; `amp` bounds how rounding errors of the inputs are amplified.

    tx, rx: (N, 2); walls: (N, k, 2, 2). Returns points (N, k+2, 2), amp (N,), last image (N, 2).
    """
    k = walls.shape[1]
    size = np.abs(walls).reshape(len(tx), -1).max(axis=1, initial=0.0) + np.abs(tx).max(axis=1) + np.abs(rx).max(axis=1)
    images = [tx]
    for j in range(k):
        images.append(mirror(images[-1], walls[:, j]))
    pts = [rx]
    amp = np.ones(len(tx))
    for j in reversed(range(k)):
        w = walls[:, j]
        n = normal(w)
        p, img = pts[-1], images[j + 1]
        u = p - img
        un = dot(u, n)
        lu = norm(u)
        # the amplification is that of small errors: they must not reach the distance to the image
        bad = (lu < 1e-9) | (np.abs(un) < 1e-9) | (np.abs(un) < 1e-5 * size * np.where(np.isinf(amp), 1.0, amp))
        s = np.where(bad, 1.0, un)
        t = dot(w[:, 0] - p, n) / s
        amp = np.where(bad, np.inf, amp * (1.0 + lu / np.where(bad, 1.0, np.abs(un))) * (1.0 + np.abs(t)))
        pts.append(p + t[:, None] * u)
    return np.stack([tx, *pts[1:][::-1], rx], axis=1), amp, images[-1]


def path_len(pts):
    return norm(np.diff(pts, axis=-2)).sum(axis=-1)


def cross_params(a, b, c, d):
    """Parameters (on a-b, on c-d) of the intersection of two segments, and the sine of their angle."""
    r, s = b - a, d - c
    den = r[..., 0] * s[..., 1] - r[..., 1] * s[..., 0]
    q = c - a
    z = np.where(den == 0, 1.0, den)
    t = (q[..., 0] * s[..., 1] - q[..., 1] * s[..., 0]) / z
    u = (q[..., 0] * r[..., 1] - q[..., 1] * r[..., 0]) / z
    sine = np.abs(den) / np.where(norm(r) * norm(s) == 0, 1.0, norm(r) * norm(s))
    return t, u, sine


def crossing(a, b, c, d, lo, hi):
    """+1 surely crossing, -1 surely not, 0 undecided; the code's tolerance lies in [lo, hi]."""
    t, u, sine = cross_params(a, b, c, d)
    inside = (t >= -lo) & (t <= 1 + lo) & (u >= -lo) & (u <= 1 + lo)
    outside = (t < -hi) | (t > 1 + hi) | (u < -hi) | (u > 1 + hi)
    steep = sine > 1e-3
    # nearly parallel: surely apart when the lines are, undecided (rounding) when nearly collinear
    return np.where(~steep, np.where(apart(a, b, c, d) & (sine < 1e-4), -1, 0), np.where(inside, 1, np.where(outside, -1, 0)))


def apart(a, b, c, d):
    """Whether the lines of two nearly parallel segments are clearly apart."""
    r, s = b - a, d - c
    far = np.minimum(
        np.abs(r[..., 0] * (c - a)[..., 1] - r[..., 1] * (c - a)[..., 0]),
        np.abs(r[..., 0] * (d - a)[..., 1] - r[..., 1] * (d - a)[..., 0]),
    )
    return far > 1e-2 * norm(r) * np.maximum(norm(r), norm(s))
