"""Configurations and reference verdicts shared by C07 (exact) and C08 (smooth)."""

import itertools

import numpy as np

from . import geo

TS = [-0.5, -0.05, -0.004, 0.004, 0.05, 0.5, 0.95, 0.996, 1.004, 1.05, 1.5]
TS_SMALL = [-0.3, -0.004, 0.3, 0.98, 1.004, 1.4]
WALLS = np.array(
    [
        [[0, 0], [3, 0]], [[3, 3], [0, 3]], [[0, 3], [0, 0]], [[3, 0], [3, 3]], [[1, 1], [2, 1]], [[1, 2], [2, 1]],
        [[0, 0], [3, 3]], [[1.5, 0.5], [1.5, 2.5]], [[2, 0], [1, 3]], [[0, 1], [1, 2]], [[2.5, 2], [2.5, 2.25]], [[-1, 1.5], [4, 1.25]],
    ]
)  # fmt: skip
NODES = np.array([[0.37, 0.41], [2.61, 0.43], [0.53, 2.71], [2.29, 2.37], [1.43, 1.57], [1.19, -0.61], [3.7, 1.73], [-0.71, 2.13], [2.07, 3.41]])


def configs(order, deep):
    """Yields (m objects, wall index tuples, candidates, node pairs, parameter tuples, normal offsets)."""
    if order == 0:
        for m in (0, 1, 2, 3) if deep else (0, 1, 2):
            yield m, list(itertools.product(range(len(WALLS)), repeat=m)), [()], all_pairs(9), [()], [0.0]
    elif order == 1:
        ts = [(t,) for t in TS]
        for m in (1, 2):
            yield m, list(itertools.product(range(len(WALLS)), repeat=m)), [(i,) for i in range(m)], all_pairs(9 if deep else 5), ts, [0.0, 0.3] if deep or m == 1 else [0.0]
        ws = [0, 2, 4, 5, 8] if not deep else [0, 1, 2, 4, 5, 7, 8, 9]
        yield 3, list(itertools.product(ws, repeat=3)), [(0,), (1,), (2,)], all_pairs(4), [(t,) for t in TS_SMALL], [0.0]
    elif order == 2:
        ws = range(8) if deep else [0, 2, 4, 5, 7, 8]
        yield 2, list(itertools.product(ws, repeat=2)), [(0, 1), (1, 0)], all_pairs(5), list(itertools.product(TS_SMALL, repeat=2)), [0.0]
        ws = [0, 2, 4, 5, 7, 8] if deep else [0, 4, 5, 8]
        yield 3, list(itertools.product(ws, repeat=3)), list(itertools.permutations(range(3), 2)), all_pairs(3), list(itertools.product([-0.004, 0.3, 0.8], repeat=2)), [0.0]
    elif order == 4:  # more interactions than objects, and objects met again and again
        ws = [0, 5, 8, 4] if deep else [0, 5, 8]
        ts = list(itertools.product([0.3, 0.8] if deep else [0.35], repeat=4)) + [(0.3, 0.6, 0.2, 1.3)]
        yield 2, list(itertools.product(ws, repeat=2)), [(0, 1, 0, 1), (1, 0, 1, 0)], all_pairs(3), ts, [0.0]
        yield 3, list(itertools.product(ws, repeat=3)), [(0, 1, 2, 0), (2, 1, 2, 1), (1, 0, 1, 2)], all_pairs(3 if deep else 2), ts, [0.0]
    elif order == 1.5:  # many objects, one interaction
        ws = [2, 4, 8] if deep else [4, 8]
        cands = [(0,), (2,), (4,)]
        yield 5, list(itertools.product(ws, ws, [9, 5], ws, [0, 7])), cands, all_pairs(4), [(t,) for t in TS_SMALL], [0.0]
    else:
        ws = [0, 5, 8, 1]
        yield 2, list(itertools.product(ws, repeat=2)), [(0, 1, 0), (1, 0, 1)], all_pairs(3), list(itertools.product([0.2, 0.7], repeat=3)), [0.0]
        ws = [0, 5, 8]
        cands = [c for c in itertools.product(range(3), repeat=3) if c[0] != c[1] and c[1] != c[2]]
        yield 3, list(itertools.product(ws, repeat=3)), cands, all_pairs(3 if deep else 2), list(itertools.product([0.2, 0.7, 1.004] if deep else [0.3, 1.01], repeat=3)), [0.0]


def all_pairs(n):
    return [(i, j) for i in range(n) for j in range(n) if i != j]


def batches(order, deep, part, parts, size):
    """Dense arrays (points, walls, cand) of the part-th share of all configurations."""
    confs = list(configs(order, deep))
    if order == 1:
        confs += configs(1.5, deep)
    for m, combos, cands, prs, ts, offs in confs:
        combos = combos[part::parts]
        ts_a = np.array(ts).reshape(len(ts), order)
        rest = list(itertools.product(range(len(prs)), range(len(ts)), range(len(offs))))
        pi, ti, oi = (np.array(v) for v in zip(*rest))
        tx, rx = NODES[np.array([p[0] for p in prs])][pi], NODES[np.array([p[1] for p in prs])][pi]
        off = np.array(offs)[oi]
        buf, n = [], 0
        for c, cand in itertools.product(combos, cands):
            w = WALLS[list(c)].reshape(m, 2, 2)
            pts = [tx]
            for k, j in enumerate(cand):
                t = w[j, 1] - w[j, 0]
                pts.append(w[j, 0] + ts_a[ti, k][:, None] * t + off[:, None] * geo.normal(w[j]))
            pts.append(rx)
            N = len(tx)
            buf.append((np.stack(pts, axis=1), np.broadcast_to(w, (N, m, 2, 2)), np.broadcast_to(np.array(cand, dtype=np.int32), (N, order))))
            n += N
            if n >= size:
                yield m, *(np.concatenate(v) for v in zip(*buf))
                buf, n = [], 0
        if buf:
            yield m, *(np.concatenate(v) for v in zip(*buf))


def legs(pts, cand, m):
    """All (leg, object) tests with the mask of those that are not exempt."""
    n = cand.shape[1]
    for i in range(n + 1):
        for j in range(m):
            ex = np.zeros(len(pts), dtype=bool)
            if i > 0:
                ex |= cand[:, i - 1] == j
            if i < n:
                ex |= cand[:, i] == j
            yield i, j, ~ex


def extend(w, patch):
    t = w[..., 1, :] - w[..., 0, :]
    return np.stack([w[..., 0, :] - patch * t, w[..., 1, :] + patch * t], axis=-2)


def params(pts, walls, cand):
    """Projection parameters of the interaction points (N, order)."""
    N, n = cand.shape
    w = walls[np.arange(N)[:, None], cand] if n else np.zeros((N, 0, 2, 2))
    return geo.project(pts[:, 1:-1], w)


def verdicts(pts, walls, cand, loss, tol, patch, d=1e-3, lo=0.0, hi=0.02):
    """+1 / -1 / 0 (undecided) for: on objects, free of obstruction, low loss, all."""
    t = params(pts, walls, cand)
    on = np.where(((t >= d) & (t <= 1 - d)).all(axis=1), 1, np.where(((t < -d) | (t > 1 + d)).any(axis=1), -1, 0))
    free = np.ones(len(pts), dtype=int)
    for i, j, act in legs(pts, cand, walls.shape[1]):
        w = extend(walls[:, j], patch)
        c = geo.crossing(w[:, 0], w[:, 1], pts[:, i], pts[:, i + 1], lo, hi)
        c = np.where(act, c, -1)
        free = np.where((free == -1) | (c == 1), -1, np.where(c == 0, 0, free))
    low = np.where(loss < tol * (1 - 1e-4), 1, np.where(loss > tol * (1 + 1e-4), -1, np.where(np.isnan(loss) | (loss == tol), -1, 0)))
    al = np.stack([on, free, low])
    tot = np.where((al == -1).any(axis=0), -1, np.where((al == 1).all(axis=0), 1, 0))
    return on, free, low, tot


def smooth(pts, walls, cand, loss, tol, patch, alpha, act, seg_tol=0.005):
    """Reference smooth values and the smallest sine of the angles involved."""
    t = params(pts, walls, cand)
    on = np.ones(len(pts))
    if t.shape[1]:
        on = np.minimum(act(t, alpha), act(1 - t, alpha)).min(axis=1)
    hit = np.zeros(len(pts))
    smin = np.ones(len(pts))
    for i, j, ok in legs(pts, cand, walls.shape[1]):
        w = extend(walls[:, j], patch)
        a, b, sine = geo.cross_params(w[:, 0], w[:, 1], pts[:, i], pts[:, i + 1])
        v = np.ones(len(pts))
        for x in (a, b):
            v = np.minimum(v, np.minimum(act(x + seg_tol, alpha), act(1 + seg_tol - x, alpha)))
        v = np.where(sine < 1e-6, 0.0, v)
        hit = np.where(ok, np.maximum(hit, v), hit)
        clear = (sine < 1e-6) & geo.apart(w[:, 0], w[:, 1], pts[:, i], pts[:, i + 1])
        smin = np.where(ok & ~clear, np.minimum(smin, sine), smin)
    low = act(tol - loss, alpha)
    return on, hit, low, np.minimum(np.minimum(on, 1 - hit), low), smin
