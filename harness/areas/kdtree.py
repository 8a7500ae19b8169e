"""C03: the spherical index against an exhaustive search."""
import numpy as np

JUDGE = 'JudgeKdTree'
GEN = ['GenKdTree']


def models(tier):
    return [('MCKdTree', 'MCKdTree' if tier == 'quick' else 'MCKdTree_t')]


def random_cases(rng, tier):
    n_cases = 260 if tier == 'quick' else 4000
    for _ in range(n_cases):
        n = rng.choice([1, 2, 3, 5, 8, 13, 25, 40])
        lo = rng.choice([-180, 0, -180, 0, -90])
        kind = rng.choice(['globe', 'globe', 'cap', 'dateline', 'swath', 'dup', 'lattice'])

        def pt():
            if kind == 'cap':
                s = rng.choice([1, -1])
                return [s * rng.randint(70 * 64, 90 * 64), rng.randint(lo * 64, (lo + 360) * 64)]
            if kind == 'dateline':
                x = rng.randint(-15 * 64, 15 * 64) + rng.choice([0, 180 * 64])
                return [rng.randint(-80 * 64, 80 * 64), (x - lo * 64) % (360 * 64) + lo * 64]
            if kind == 'swath':
                t = rng.uniform(0, 1)
                return [int((t * 180 - 90) * 64), int(((t * 700) % 360 + lo) * 64)]
            if kind == 'lattice':
                return [rng.randint(-2, 2) * 45 * 64, rng.randint(0, 8) * 45 * 64 + lo * 64]
            return [rng.randint(-90 * 64, 90 * 64), rng.randint(lo * 64, (lo + 360) * 64)]
        pts = [pt() for _ in range(n)]
        if kind == 'dup':
            pts = [rng.choice(pts[:max(1, n // 3)]) for _ in range(n)]
        kindq = kind
        qlo = rng.choice([lo, lo, -180, 0])
        qs = []
        for _ in range(rng.choice([1, 6, 12])):
            p = pt() if rng.random() < 0.7 else list(rng.choice(pts))
            qs.append([p[0], (p[1] - qlo * 64) % (360 * 64) + qlo * 64])
        mask = [1 if rng.random() < 0.3 else 0 for _ in pts] if rng.random() < 0.3 else []
        yield {'pts': pts, 'qs': qs, 'mask': mask, 'leaf': rng.choice([1, 1, 2, 3, 5, 10]),
               'k': rng.choice([1, 1, 2, 4]), 'q': 64,
               'r': rng.choice([0, 1, 50, 300, 1000, 3000, 6000, 9900, 12000, 16000, 19000, 20100])}


def execute(case):
    import pandas as pd
    from cis.collocation.kdtree import HaversineDistanceKDTree
    from cis.collocation.haversinedistancekdtreeindex import HaversineDistanceKDTreeIndex
    pts = np.array(case['pts'], dtype=float) / case['q']
    qs = np.array(case['qs'], dtype=float) / case['q']
    mask = np.array(case['mask'], dtype=bool) if case['mask'] else None
    live = not case['mask'] or not all(case['mask'])
    t = HaversineDistanceKDTree(pts.copy(), leafsize=case['leaf'], mask=mask)
    k = case['k']
    nn, nnd = [], []
    dd, ii = t.query(qs, k=k)
    for a, b in zip(np.asarray(dd).reshape(len(qs), k), np.asarray(ii).reshape(len(qs), k)):
        ok = [j for j in range(k) if np.isfinite(a[j])]
        nn.append([int(b[j]) + 1 for j in ok])
        nnd.append([int(round(a[j] * 1000)) for j in ok])
    ball = [[int(x) + 1 for x in r] for r in t.query_ball_point(qs, case['r'])]
    tree = [[int(x) + 1 for x in r] for r in
            HaversineDistanceKDTree(qs.copy(), leafsize=case['leaf']).query_ball_tree(t, case['r'])]
    # the index as the collocation code uses it: data frames, masked points dropped beforehand
    keep = [j for j in range(len(pts)) if not (case['mask'] and case['mask'][j])]
    near, neard, idx = [[] for _ in qs], [[] for _ in qs], [[] for _ in qs]
    if live:
        data = pd.DataFrame({'latitude': pts[keep, 0], 'longitude': pts[keep, 1], 'altitude': 0.0,
                             'vals': 1.0})[['altitude', 'longitude', 'latitude', 'vals']]
        sample = pd.DataFrame({'longitude': qs[:, 1], 'latitude': qs[:, 0]})
        index = HaversineDistanceKDTreeIndex()
        index.index_data(sample, data, None, leafsize=case['leaf'])
        near = [[keep[int(x)] + 1] for x in np.atleast_1d(index.find_nearest_point(sample))]
        d1, i1 = index.index.query(qs)
        neard = [[int(round(x * 1000))] for x in d1]
        idx = [[keep[int(x)] + 1 for x in r] for r in index.find_points_within_distance_sample(sample, case['r'])]
        for j in range(len(qs)):
            one = [keep[int(x)] + 1 for x in index.find_points_within_distance(sample.iloc[j], case['r'])]
            if sorted(one) != sorted(ball[j]):
                ball[j] = one
    return {'outcome': 'ok', 'nn': nn, 'nnd': nnd, 'ball': ball, 'tree': tree, 'near': near, 'neard': neard, 'idx': idx}


def great_circle_m(a, b, radius=6378000.0):
    """Independent of the code: angle between unit vectors."""
    def vec(p):
        la, lo = np.radians(p[..., 0]), np.radians(p[..., 1])
        return np.stack([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)], -1)
    u, v = vec(np.asarray(a, float)), vec(np.asarray(b, float))
    c = np.linalg.norm(np.cross(u, v), axis=-1)
    return np.arctan2(c, (u * v).sum(-1)) * radius


def project(r):
    r = dict(r)
    pts = np.array(r['pts'], float) / r['q']
    qs = np.array(r['qs'], float) / r['q']
    r['D'] = [[int(round(x)) for x in row] for row in great_circle_m(qs[:, None, :], pts[None, :, :])]
    # points in exactly the same place are no distance apart
    r['same'] = [[int((a == b).all()) for b in pts] for a in qs]
    for k in ('pts', 'qs', 'q'):
        r.pop(k)
    return r


def nontrivial(r):
    return len(r['pts']) > r['leaf']


def matches_finding(f, case, out, clauses):
    return False
