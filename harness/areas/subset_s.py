"""S03: subsetting by a shape."""
import build
import common as C
import gridgen
from areas import subset_u, subset_g
from areas.subset_u import limit

JUDGE = 'JudgeShape'
GEN = ['GenShape']


def models(tier):
    return [('MCShape', 'MCShape' if tier == 'quick' else 'MCShape_t')]


def random_poly(rng, q):
    """a star-shaped or rectangular polygon (possibly with a hole, possibly two parts) and its kind"""
    import math
    cx, cy = rng.choice([-180, -170, -20, 0, 10, 80, 100, 180, 190, 350]), rng.choice([-60, -20, 0, 0, 40, 70])
    kind = rng.choice(['star', 'star', 'rect', 'hole', 'multi'])
    rx, ry = rng.choice([10, 30, 60, 110, 170]), rng.choice([10, 20])
    if kind == 'star':
        k = rng.choice([3, 4, 5, 6])
        ring = []
        for j in range(k):
            a = 2 * math.pi * (j + 0.3 * rng.random()) / k
            f = rng.choice([0.4, 1.0, 1.0])
            ring.append([int(round((cx + f * rx * math.cos(a)) * q)), int(round((cy + f * ry * math.sin(a)) * q))])
        return [ring], 'polygon'

    def rect(x0, x1, y0, y1):
        return [[x0 * q, y0 * q], [x1 * q, y0 * q], [x1 * q, y1 * q], [x0 * q, y1 * q]]
    outer = rect(cx - rx, cx + rx, cy - ry, cy + ry)
    if kind == 'rect':
        return [outer], 'polygon'
    if kind == 'hole':
        return [outer, rect(cx - rx // 2, cx + rx // 2, cy - ry // 2, cy + ry // 2)], 'polygon'
    return [rect(cx - rx, cx - 5, cy - ry, cy), rect(cx + 5, cx + rx, cy - ry // 2, cy + ry)], 'multi'


def random_cases(rng, tier):
    q = 4
    for _ in range(300 if tier == 'quick' else 6000):
        poly, kind = random_poly(rng, q)
        area2 = [sum(r[k][0] * r[(k + 1) % len(r)][1] - r[(k + 1) % len(r)][0] * r[k][1] for k in range(len(r)))
                 for r in poly]
        if any(a == 0 for a in area2):
            continue
        is_list = int(rng.random() < 0.35)
        base = {'q': q, 'poly': poly, 'type': kind, 'list': is_list, 'form': rng.choice(['slice', 'list'])}
        if not valid(base):
            continue
        xs = [p[0] for r in poly for p in r]
        ys = [p[1] for r in poly for p in r]
        if rng.random() < 0.5:
            n = rng.choice([1, 4, 8, 12])
            shape = [n] if n < 8 or rng.random() < 0.5 else [n // 4, 4]
            conv = rng.choice([-180, 0]) * q

            def wrap(x):
                return (x - conv) % (360 * q) + conv
            lon, lat = [], []
            for _ in range(n):
                if rng.random() < 0.25:
                    p = rng.choice(rng.choice(poly))
                    lon.append(wrap(p[0])), lat.append(p[1])
                else:
                    lon.append(wrap(rng.randint(min(xs) - 8, max(xs) + 8)))
                    lat.append(rng.randint(min(ys) - 8, max(ys) + 8))
            coords = [{'std': 'latitude', 'v': lat, 'name': 'lat'}, {'std': 'longitude', 'v': lon, 'name': 'lon'}]
            lims = []
            if rng.random() < 0.4:
                coords.append({'std': 'altitude', 'v': [rng.randint(0, 8) * q for _ in range(n)], 'name': 'alt'})
                lims = [{'std': 'altitude', 'key': 'altitude', 'lo': 2 * q, 'hi': 6 * q}]
            yield dict(base, kind='u', shape=shape, coords=coords, lims=lims,
                       vars=[gridgen.values(rng, n) for _ in range(2 if is_list else 1)])
        else:
            axes = [gridgen.lat_axis(rng, q), gridgen.lon_axis(rng, q)]
            lims = []
            if rng.random() < 0.4:          # zoom in on the shape
                ny, nx = rng.choice([2, 4]), rng.choice([3, 5])
                y = sorted(rng.sample(range(max(min(ys), -90 * q), min(max(ys), 90 * q) + 1), ny))
                x = sorted(rng.sample(range(min(xs), max(xs) + 1), nx))
                axes = [{'std': 'latitude', 'pts': y}, {'std': 'longitude', 'pts': x}]
            if rng.random() < 0.25:
                axes.append(gridgen.other_axis(rng, 'altitude', q))
                p = rng.choice(axes[2]['pts'])
                lims = [{'std': 'altitude', 'key': 'altitude', 'lo': p, 'hi': p}]
            rng.shuffle(axes)
            n = 1
            for a in axes:
                a['bnds'] = gridgen.guess_bounds(a, q) if rng.random() < 0.2 and a['std'] == 'latitude' and \
                    all(z % 2 == 0 for z in a['pts']) else []
                n *= len(a['pts'])
            yield dict(base, kind='g', axes=axes, aux=[], lims=lims,
                       vars=[gridgen.values(rng, n) for _ in range(2 if is_list else 1)])


def geometry(case):
    from shapely.geometry import Polygon, MultiPolygon
    rings = [[(x / case['q'], y / case['q']) for x, y in r] for r in case['poly']]
    return MultiPolygon([Polygon(r) for r in rings]) if case['type'] == 'multi' else Polygon(rings[0], rings[1:])


def valid(case):
    return geometry(case).is_valid


def execute(case):
    from cis.data_io.ungridded_data import UngriddedDataList
    from cis.data_io.gridded_data import GriddedDataList
    q = case['q']
    case.setdefault('aux', [])
    case.setdefault('form', 'slice')
    if case['kind'] == 'u':
        objs = [build.ungridded({'shape': case['shape'], 'coords': case['coords'], 'v': v['v'], 'm': v['m'],
                                 'name': 'v%d' % k}, q=q) for k, v in enumerate(case['vars'])]
        data = UngriddedDataList(objs) if case['list'] else objs[0]
        before = [build.snap_ug(o, q) for o in objs]
    else:
        objs, data = subset_g.make(case)
        before = [subset_g.snap(o, q) for o in objs]
    g = geometry(case)
    kw = {l['key']: limit(l, case['form'], q) for l in case['lims']}
    res = data.subset(shape=g.wkt if len(case['poly'][0]) % 2 else g, **kw)
    after = [build.snap_ug(o, q) if case['kind'] == 'u' else subset_g.snap(o, q) for o in objs]
    if res is None:
        return {'outcome': 'none', 'before': before, 'after': after}
    res = res if isinstance(res, list) else [res]
    return {'outcome': 'ok', 'before': before, 'after': after,
            'vars': [build.snap_ug(r, q) if case['kind'] == 'u' else gridgen.norm_gd(r, case['axes'], [], q)
                     for r in res]}


def nontrivial(r):
    return r['out'].get('outcome') == 'ok' and any(v != C.MASKED for v in r['out']['vars'][0]['v'])


def matches_finding(f, case, out, clauses):
    return False
