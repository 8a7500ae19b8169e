"""D05: data seen as points."""
import datetime

import numpy as np

import common as C

JUDGE = 'JudgePoints'
GEN = ['GenPoints']
SECONDS = 20
ABSENT = -88888888
NAMES = ['latitude', 'longitude', 'altitude', 'air_pressure', 'time']


def models(tier):
    return [('MCPoints', 'MCPoints' if tier == 'quick' else 'MCPoints_t')]


def coords(shape, k):
    return [int(x) for x in np.unravel_index(k, shape)]


def random_cases(rng, tier):
    for _ in range(400 if tier == 'quick' else 8000):
        r = rng.random()
        yield grid(rng) if r < 0.4 else free(rng) if r < 0.6 else pair(rng) if r < 0.85 else listed(rng)


def ops(rng, shape, tuples):
    n = int(np.prod(shape))
    res = []
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        kind = rng.choice(['value', 'value', 'point', 'lon'])
        k = rng.choice([-180, 0, -90, 77, 360, -360, 1000]) if kind == 'lon' else rng.choice([-1, n, n + 7]) if rng.random() < 0.1 else rng.randrange(n)
        at = coords(shape, k) if kind != 'lon' and tuples and 0 <= k < n and rng.random() < 0.5 else []
        res.append({'op': kind, 'k': k, 'at': at, 'v': rng.choice([C.MASKED, rng.randint(0, 99)]), 'c': [rng.randint(-90, 90) for _ in range(5)]})
    return res


def values(rng, n):
    return [C.MASKED if rng.random() < 0.3 else rng.randint(-9, 99) for _ in range(n)]


def grid(rng):
    shape = [rng.choice([1, 1, 2, 3, 4]) for _ in range(rng.choice([1, 2, 2, 3, 3, 4]))]
    names = rng.sample([1, 2, 3, 4, 5], len(shape))
    names = [0 if rng.random() < 0.25 else x for x in names]
    pts = []
    for m in shape:
        p = sorted(rng.sample(range(-80, 400), m))
        pts.append(p[::-1] if rng.random() < 0.3 else p)
    return {'kind': 'g', 'where': rng.choice(['data', 'data', 'raw']), 'shape': shape, 'names': names, 'bare': rng.choice([0, 1]), 'pts': pts, 'cols': [], 'has': 1,
            'vals': values(rng, int(np.prod(shape))), 'nm': rng.choice([0, 1]), 'ops': ops(rng, shape, True)}


def free(rng):
    shape = rng.choice([[1], [4], [9], [2, 3], [1, 2], [2, 2, 2]])
    n = int(np.prod(shape))
    where = rng.choice(['data', 'data', 'raw', 'coords', 'list'])
    have = rng.sample(range(5), rng.choice([1, 2, 3, 5]))
    has = int(where == 'data' or (where == 'raw' and rng.random() < 0.8))
    return {'kind': 'u', 'where': where, 'shape': shape, 'names': [], 'bare': 0, 'pts': [], 'cols': [[rng.randint(-300, 700) for _ in range(n)] if j in have else [] for j in range(5)],
            'tu': rng.choice(['std', '1900', 'object']), 'extra': [{'name': w, 'v': [rng.randint(-9, 9) for _ in range(n)]} for w in 'pqr' if rng.random() < 0.3],
            'has': has, 'vals': values(rng, n) if has else [], 'nm': rng.choice([0, 1]), 'ops': ops(rng, shape, False) if has else []}


def point(rng, whole):
    line = rng.random() < 0.5
    c = [0 if line else rng.randint(-90, 90), rng.randint(-180, 359) if line else rng.choice([30, 30, 31]), rng.randint(0, 5), rng.choice([25, 50, 100, 200, 400]), rng.randint(0, 5)]
    if not whole:
        c = [x if rng.random() < 0.6 else ABSENT for x in c]
    v = [rng.randint(-9, 9) for _ in range(rng.choice([0, 1, 2]))]
    return {'c': c, 'date': [rng.randint(1900, 2100), rng.randint(1, 12), rng.randint(1, 28)] if rng.random() < 0.2 else [], 'v': v, 'vk': rng.choice({0: ['none', 'list'], 1: ['scalar', 'list']}.get(len(v), ['list', 'tuple']))}


def pair(rng):
    whole = rng.random() < 0.7
    a, b, c = [point(rng, whole) for _ in range(3)]
    if rng.random() < 0.3:
        b = {**a, 'c': list(a['c'])}
        if rng.random() < 0.6:
            j = rng.randrange(5)
            b['c'][j] = rng.randint(0, 5) if j != 3 else 50
    m = point(rng, False)
    given = rng.choice([0, 1])
    v = [] if not given else rng.choice([[], [rng.randint(-9, 9)]])
    return {'kind': 'p', 'a': a, 'b': b, 'c': c, 'm': {'c': m['c'], 'date': m['date'], 'v': v, 'given': given, 'vk': 'scalar'}}


def listed(rng):
    have = rng.sample(range(5), rng.choice([1, 2, 3, 5]))
    return {'kind': 'l', 'ps': [{'c': [rng.randint(-90, 90) if j in have else ABSENT for j in range(5)], 'v': [rng.randint(-9, 99) for _ in range(rng.choice([0, 1, 1, 2]))]} for _ in range(rng.choice([1, 2, 5]))]}


# ------------------------------------------------------------------ running
def number(x):
    return ABSENT if x is None else C.MASKED if x is np.ma.masked else C.enc(x)


def seen(p):
    return {'c': [number(x) for x in list(p)[:5]], 'v': [number(x) for x in p[5]]}


def column(x):
    return [] if x is None else C.enc_arr(x)


def array(vals, shape):
    m = [v == C.MASKED for v in vals]
    return np.ma.array([0 if x else v for v, x in zip(vals, m)], mask=m, dtype=float).reshape(shape)


def columns(e):
    return [np.array(c, dtype=float).reshape(e['shape']) if c else None for c in e['cols']]


def loose(e, cols, data, tu='days since 1600-01-01'):
    from cis.data_io.Coord import Coord, CoordList
    from cis.data_io.ungridded_data import Metadata, UngriddedData, UngriddedCoordinates
    cs = CoordList([Coord(c, Metadata(name=n[:3], standard_name=n, units=tu if n == 'time' else '1')) for c, n in zip(cols, NAMES) if c is not None])
    for x in e['extra']:
        cs.append(Coord(np.array(x['v'], dtype=float).reshape(e['shape']), Metadata(name=x['name'], units='1')))
    return cs if e['where'] == 'list' else UngriddedCoordinates(cs) if e['where'] == 'coords' else UngriddedData(data, Metadata(name='v', units='1'), cs)


def table(e):
    """the data frame of the data, and their points one by one"""
    from cis.time_util import cis_standard_time_unit as unit
    data = array(e['vals'], e['shape']) if e['has'] else None
    o = loose(e, columns(e), data, 'days since 1900-01-01' if e['tu'] == '1900' else unit)
    out = {'single': [seen(o.hyper_point(k)) for k in range(int(np.prod(e['shape'])))]}
    if e['tu'] == 'object' and e['cols'][4]:
        o.coord('time').convert_standard_time_to_datetime()
    f = o.as_data_frame(time_index=False)
    f.pop('time') if e['tu'] == 'object' and e['cols'][4] else None
    t = o.as_data_frame()
    out['frame'] = [[str(c), C.enc_arr(f[c].values)] for c in f.columns if c != 'time']
    out['framed'] = [[str(c), C.enc_arr(t[c].values)] for c in t.columns]
    out['times'] = C.enc_arr(f['time'].values) if 'time' in f else []
    out['index'] = [C.enc(unit.date2num(x)) for x in t.index] if e['cols'][4] else [int(x) for x in t.index]
    return out


def view(e):
    from cis.data_io.hyperpoint_view import UngriddedHyperPointView, GriddedHyperPointView
    data = array(e['vals'], e['shape']) if e['has'] else None
    if e['kind'] == 'g':
        if e['where'] == 'raw':
            dims = [None] * 5
            for d, j in enumerate(e['names']):
                if j:
                    dims[j - 1] = (np.array(e['pts'][d], dtype=float), d)
            return GriddedHyperPointView(dims, data, non_masked_iteration=bool(e['nm']))
        import iris
        from cis.data_io.gridded_data import make_from_cube
        cube = iris.cube.Cube(data, var_name='v', units='1')
        for d, j in enumerate(e['names']):
            if j:
                name = NAMES[j - 1]
                cube.add_dim_coord(iris.coords.DimCoord(np.array(e['pts'][d], dtype=float), standard_name=name, var_name=name, units='days since 1600-01-01' if name == 'time' else '1'), d)
            elif not e['bare']:
                cube.add_dim_coord(iris.coords.DimCoord(np.array(e['pts'][d], dtype=float), long_name='other%d' % d, units='1'), d)
        o = make_from_cube(cube)
    else:
        cols = columns(e)
        if e['where'] == 'raw':
            return UngriddedHyperPointView([c if c is None else c.flatten() for c in cols], data if data is None else data.flatten(), non_masked_iteration=bool(e['nm']))
        o = loose(e, cols, data)
        if e['where'] == 'list':
            return o.get_coordinates_points()
    return o.get_non_masked_points() if e['nm'] else o.get_all_points()


def refused(f, *kinds):
    try:
        f()
    except kinds or Exception:
        return 1
    return 0


def sight(e):
    from cis.data_io.hyperpoint import HyperPoint
    v = view(e)
    refusals = []
    for o in e['ops']:
        if o['op'] == 'lon':
            v.set_longitude_range(o['k'])
            refusals.append(0)
            continue
        x = np.ma.masked if o['v'] == C.MASKED else o['v']
        if o['op'] == 'point':
            x = HyperPoint(*(o['c'] + [[x]]))
        at = tuple(o['at']) if o['at'] else o['k']
        refusals.append(refused(lambda: v.__setitem__(at, x)))
    n = len(v)
    s = '' if e['kind'] == 'u' else 's'
    numbered = list(v.enumerate_non_masked_points())
    out = {'outcome': 'ok', 'n': n, 'refused': refusals, 'points': [seen(v[k]) for k in range(n)], 'iter': [seen(p) for p in v], 'all': [seen(p) for p in v.iter_all_points()],
           'there': [seen(p) for p in v.iter_non_masked_points()], 'numbers': [int(k) for k, _ in numbered], 'numbered': [seen(p) for _, p in numbered],
           'cols': [column(getattr(v, x)) for x in (['latitude' + s, 'longitude' + s, 'altitude' + s, 'air_pressure' + s, 'time' + s])],
           'outside': [refused(lambda: v[k], IndexError) for k in (n, n + 3, -1)]}
    if e['kind'] == 'u' and e['where'] in ('data', 'coords'):
        out.update(table(e))
    if e['kind'] == 'u':
        out['vals'] = column(v.vals)
        both = list(v.enumerate_all_points())
        out['placed'] = [seen(p) for k, p in both] if [k for k, _ in both] == list(range(n)) else []
    else:
        out['vals'] = column(v.data)
        out['placed'] = [seen(v[tuple(coords(e['shape'], k))]) for k in range(n)]
    return out


def make(a):
    from cis.data_io.hyperpoint import HyperPoint
    v = {'none': None, 'scalar': a['v'][0] if a['v'] else None, 'list': list(a['v']), 'tuple': tuple(a['v'])}[a['vk']]
    c = [None if x == ABSENT else x for x in a['c']]
    if a['date']:
        c[4] = datetime.datetime(*a['date'])
    return HyperPoint(*(c + [v]))


def points(e):
    a, b, c = make(e['a']), make(e['b']), make(e['c'])
    m = e['m']
    mc = [None if x == ABSENT else x for x in m['c']]
    if m['date']:
        mc[4] = datetime.datetime(*m['date'])
    changed = a.modified(*mc, **({'val': m['v'][0] if m['v'] else []} if m['given'] else {}))
    out = {'outcome': 'ok', 'a': seen(a), 'b': seen(b), 'named': named(a), 'changed': seen(changed), 'named2': named(changed), 'space': bool(a.same_point_in_space(b)),
           'time': bool(a.same_point_in_time(b)), 'both': bool(a.same_point_in_space_and_time(b))}
    if all(x is not None for p in (a, b, c) for x in list(p)[:5]):
        out.update(tsep=C.enc(a.time_sep(b)), asep=C.enc(a.alt_sep(b)), psep=C.enc(a.pres_sep(b) * 16), ctime=bool(a.comptime(b, c)), calt=bool(a.compalt(b, c)),
                   cpres=bool(a.comppres(b, c)), cdist=bool(a.compdist(b, c)), opposite=seen(a.furthest_point_from()))
    return out


def named(p):
    return [[NAMES.index(k) + 1, C.enc(v)] for k, v in p.coord_tuple]


def listing(e):
    from cis.data_io.hyperpoint import HyperPoint, HyperPointList
    from cis.data_io.ungridded_data import UngriddedData
    ps = [HyperPoint(*([None if x == ABSENT else x for x in p['c']] + [list(p['v'])])) for p in e['ps']]
    li = HyperPointList(ps)
    both = list(li.enumerate_non_masked_points())
    d = UngriddedData.from_points_array(ps if len(ps) % 2 else li)
    return {'outcome': 'ok', 'n': len(li), 'numbers': [k for k, _ in both], 'numbered': [seen(p) for _, p in both], 'vals': column(li.vals),
            'cols': [column(x) for x in (li.latitudes, li.longitudes, li.altitudes, li.air_pressures, li.times)], 'shape': list(d.data.shape), 'data': column(d.data),
            'found': [column(c if c is None else c.data) for c in d.find_standard_coords()]}


def execute(e):
    return sight(e) if e['kind'] in 'ug' else points(e) if e['kind'] == 'p' else listing(e)


def nontrivial(rec):
    return rec['out'].get('outcome') == 'ok' and (rec['kind'] in 'pl' or rec['out']['n'] > 1)
