"""D06: lists of data."""
import copy
import re

import numpy as np

import common as C

JUDGE = 'JudgeLists'
GEN = ['GenLists']
SECONDS = 20


def models(tier):
    return [('MCLists', 'MCLists' if tier == 'quick' else 'MCLists_t')]


def made(kind, name, dim, n, lats, lons, rng):
    o = {'kind': kind, 'name': name, 'n': n, 'dim': dim, 'ax': ['y', 'x'] if kind in 'gc' else [], 'hist': []}
    size = int(np.prod(dim))
    o['lat'], o['lon'] = (lats[:dim[0]], lons[:dim[1]]) if kind in 'gc' else (lats[:size], lons[:size])
    o['v'] = [C.MASKED if rng.random() < 0.2 else rng.randint(-99, 999) for _ in range(size)]
    return o


def random_cases(rng, tier):
    for _ in range(250 if tier == 'quick' else 2000):
        lats, lons = rng.sample(range(-80, 80), 9), sorted(rng.sample(range(-180, 170), 9))
        glat = sorted(lats, reverse=rng.random() < 0.5)
        shapes = {'g': [[2, 2], [2, 3], [3, 2]], 'c': [[2, 2], [2, 3]], 'u': [[3], [2], [2, 2], [3, 2], [2, 3]]}
        main = {k: rng.choice(v) for k, v in shapes.items()}
        pool = []
        for k in range(rng.randint(4, 7)):
            kind = rng.choice(['g', 'g', 'g', 'u', 'u', 'u', 'c'])
            dim = main[kind] if rng.random() < 0.7 else rng.choice(shapes[kind])
            pool.append(made(kind, k + 1, dim, 3 if rng.random() < 0.15 else 2, lats if kind == 'u' else glat, lons, rng))
        pool.append({'kind': 'junk', 'name': len(pool) + 1, 'n': 0, 'dim': [], 'ax': [], 'lat': [], 'lon': [], 'v': [], 'hist': []})
        start = [{'kind': 'g', 'at': []}, {'kind': 'u', 'at': []}]
        prog = []
        for _ in range(rng.randint(4, 12)):
            a, b = sorted([rng.randint(-90, 90), rng.randint(-90, 90)])
            prog.append(rng.choice([
                dict(op='append', l=rng.choice([1, 1, 2, 2, 3]), a=rng.randint(1, len(pool))), dict(op='append', l=rng.choice([1, 2, 2]), a=rng.randint(1, len(pool))),
                dict(op='append', l=rng.choice([1, 1, 2]), a=rng.randint(1, len(pool))),
                dict(op=rng.choice(['extend', 'iadd', 'plus']), l=rng.randint(1, 4), m=rng.randint(1, 4)),
                dict(op='slice', l=rng.randint(1, 4), a=rng.randint(-4, 3), b=rng.randint(-2, 4), c=rng.choice([1, 1, 2, -1])),
                dict(op='copy', l=rng.randint(1, 3)), dict(op='lon', l=rng.randint(1, 4), a=rng.choice([0, -180, -100, 77])),
                dict(op='note', l=rng.randint(1, 4), a=rng.randint(1, 99)), dict(op='transpose', l=rng.randint(1, 4)),
                dict(op='poke', l=rng.randint(1, 4), a=rng.randint(1, 3), b=rng.randint(1, 4), c=rng.choice([C.MASKED, 5, 77])),
                dict(op=rng.choice(['subset', 'subset', 'between', 'extract']), l=rng.randint(1, 4), a=a, b=b),
                dict(op='names', l=rng.randint(1, 3)), dict(op='frame', l=rng.randint(2, 4), c=rng.choice([0, 1]))]))
        yield {'pool': pool, 'lists': start, 'prog': [{**dict(l=0, m=0, a=0, b=0, c=0), **p} for p in prog]}


# ------------------------------------------------------------------ running
def array(o, dtype=float):
    m = [v == C.MASKED for v in o['v']]
    return np.ma.array([0 if x else v for v, x in zip(o['v'], m)], mask=m, dtype=dtype).reshape(o['dim'])


def real(o):
    from cis.data_io.gridded_data import make_from_cube
    from cis.data_io.ungridded_data import Metadata, UngriddedData
    from cis.data_io.Coord import Coord, CoordList
    from iris.coords import DimCoord, AuxCoord
    from iris.cube import Cube
    if o['kind'] == 'junk':
        return [3, None, 'v1', [1, 2], {}][o['name'] % 5]
    if o['kind'] == 'u':
        cs = CoordList([Coord(np.array(o[k], dtype=float).reshape(o['dim']), Metadata(name=k, standard_name=s, units=u)) for k, s, u in
                        [('lat', 'latitude', 'degrees_north'), ('lon', 'longitude', 'degrees_east')]])
        if o['n'] == 3:
            cs.append(Coord(np.zeros(o['dim']), Metadata(name='alt', standard_name='altitude', units='m')))
        return UngriddedData(array(o), Metadata(name='v%d' % o['name'], units='1'), cs)
    ax = [DimCoord(np.array(o[k], dtype=float), standard_name=s, units=u, var_name=k) for k, s, u in [('lat', 'latitude', 'degrees'), ('lon', 'longitude', 'degrees')]]
    c = Cube(array(o), var_name='v%d' % o['name'], units='1', dim_coords_and_dims=[(ax[0], 0), (ax[1], 1)])
    if o['n'] == 3:
        c.add_aux_coord(AuxCoord([5.], standard_name='altitude', units='m'))
    return c if o['kind'] == 'c' else make_from_cube(c)


def seen(x, kind=None):
    from cis.data_io.gridded_data import GriddedData
    from cis.data_io.ungridded_data import UngriddedData
    if not isinstance(x, (GriddedData, UngriddedData)):
        return {'kind': 'other'}
    lat, lon = x.coord('latitude'), x.coord('longitude')
    g = isinstance(x, GriddedData)
    return {'kind': 'g' if g else 'u', 'name': int(x.var_name[1:]), 'n': len(x.coords()), 'dim': [int(k) for k in x.shape],
            'ax': [{'latitude': 'y', 'longitude': 'x'}[c.name()] for d in range(x.ndim) for c in x.coords(dimensions=d, dim_coords=True)] if g else [],
            'lat': C.enc_arr(lat.points), 'lon': C.enc_arr(lon.points), 'v': C.enc_arr(x.data),
            'hist': [int(k) for k in re.findall(r'note(\d+)', str(x.attributes.get('history', '') if g else x.metadata.history))]}


def single(l, a, b):
    """a limit which keeps one latitude of a grid only"""
    return l.is_gridded and any(sum(a <= y <= b for y in o.coord('latitude').points) == 1 for o in l)


def can(lists, heap, op):
    if not 1 <= op['l'] <= len(lists):
        return False
    l, o = lists[op['l'] - 1], op['op']
    if o == 'append':
        return 1 <= op['a'] <= len(heap)
    if o in ('extend', 'iadd', 'plus'):
        return 1 <= op['m'] <= len(lists)
    if o == 'copy':
        return len({id(x) for x in l}) == len(l)
    if o in ('names', 'note', 'lon', 'slice'):
        return True
    if o == 'poke':
        return op['a'] <= len(l) and op['b'] <= l[op['a'] - 1].data.size
    if not len(l) or (o == 'frame' and l.is_gridded) or (o in ('transpose', 'between', 'extract') and not l.is_gridded):
        return False
    return not (o in ('subset', 'between', 'extract') and single(l, op['a'], op['b']))


def do(lists, heap, op):
    import iris
    l, o = lists[op['l'] - 1], op['op']
    new, ans = 'no', []
    if o == 'append':
        l.append(heap[op['a'] - 1])
    elif o == 'extend':
        l.extend(lists[op['m'] - 1])
    elif o == 'iadd':
        l += lists[op['m'] - 1]
        if l is not lists[op['l'] - 1]:
            lists[op['l'] - 1] = l
    elif o == 'plus':
        new = l + lists[op['m'] - 1]
    elif o == 'slice':
        new = l[::-1] if op['c'] < 0 else l[op['a']:op['b']:op['c']]
    elif o == 'copy':
        new = l.copy() if op['a'] == 0 else copy.deepcopy(l)
    elif o == 'lon':
        l.set_longitude_range(op['a'])
    elif o == 'note':
        l.add_history('note%d' % op['a'])
    elif o == 'transpose':
        l.transpose()
    elif o == 'poke':
        x = l[op['a'] - 1]
        ix = np.unravel_index(op['b'] - 1, x.shape)
        x.data[ix] = np.ma.masked if op['c'] == C.MASKED else op['c']
    elif o == 'subset':
        new = l.subset(latitude=[op['a'], op['b']])
    elif o == 'between':
        new = l.intersection(latitude=(op['a'], op['b']))
    elif o == 'extract':
        new = l.extract(iris.Constraint(latitude=lambda c: op['a'] <= c.point <= op['b']))
    elif o == 'names':
        ans = [int(x[1:]) for x in l.var_name]
    elif o == 'frame':
        f = l.as_data_frame(copy=bool(op['c'])) if not any(np.ma.is_masked(x.data) for x in l) else l.as_data_frame()
        ans = [[str(c), C.enc_arr(f[c].values)] for c in f.columns]
    if new is None:
        return 'none', ans
    if not isinstance(new, str):
        lists.append(new)
    return 'ok', ans


def execute(case):
    from cis.data_io.gridded_data import GriddedDataList
    from cis.data_io.ungridded_data import UngriddedDataList
    heap = [real(o) for o in case['pool']]
    lists = [{'g': GriddedDataList, 'u': UngriddedDataList}[l['kind']]([heap[k - 1] for k in l['at']]) for l in case['lists']]
    steps = []

    def place(x):
        for k, y in enumerate(heap):
            if x is y:
                return k + 1
        heap.append(x)
        return len(heap)
    for op in case['prog']:
        if not can(lists, heap, op):
            steps.append({'out': 'skip'})
            continue
        try:
            out, ans = do(lists, heap, op)
        except (TypeError, ValueError) as e:
            if op['op'] not in ('append', 'extend', 'iadd', 'plus'):
                raise
            out, ans = 'refused', []
        if max(len(l) for l in lists) > 60 or len(lists) > 20:
            steps.append({'out': 'endless'})
            break
        at = [{'kind': {GriddedDataList: 'g', UngriddedDataList: 'u'}.get(type(l), type(l).__name__), 'at': [place(x) for x in l]} for l in lists]
        steps.append({'out': out, 'ans': ans, 'lists': at, 'heap': [seen(x) for x in heap]})
    return {'outcome': 'ok', 'steps': steps}


def nontrivial(rec):
    return sum(s['out'] in ('ok', 'none', 'refused') for s in rec['out'].get('steps', [])) >= 3
