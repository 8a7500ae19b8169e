"""W01: saving ungridded data and reading it back."""
import itertools
import os

import numpy as np

import build
import common as C

JUDGE = 'JudgeStore'
GEN = ['GenStore']
SECONDS = 25
COUNT = itertools.count()
DEFC, INFC = 44444444, 55555555
TYPES = ['bool', 'i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8', 'f2', 'f4', 'f8', '>i2', '>f4', '>f8']
UNITS = ['1', 'm', 'kg m-3', '', 'K', 'weird_units', 'days since 1600-01-01 00:00:00']


def models(tier):
    return [('MCStore', 'MCStore' if tier == 'quick' else 'MCStore_t')]


def random_cases(rng, tier):
    for _ in range(350 if tier == 'quick' else 8000):
        shape = rng.choice([[1], [2], [5], [6], [2, 3], [3, 1], [1, 4], [2, 1, 2], [9]])
        n = int(np.prod(shape))
        mask = lambda p: [int(rng.random() < p) for _ in range(n)] if rng.random() < 2 * p else []
        stds = rng.choice([['latitude', 'longitude', 'time'], ['latitude', 'longitude'], ['latitude', 'longitude', 'altitude', 'air_pressure', 'time'], ['time', 'longitude']])
        coords = [{'std': s, 'v': [rng.randint(0, 9) for _ in range(n)], 'm': mask(0.07)} for s in stds]
        if all(any(c['m'] and c['m'][k] for c in coords) for k in range(n)):
            for c in coords:
                c['m'] = []
        vs = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            dt = rng.choice(TYPES)
            flt = dt[-2] == 'f'
            lo, hi = (0, 1) if dt == 'bool' else (0, 9) if dt[0] == 'u' else (-9, 9)
            v = [rng.choice([rng.randint(lo, hi)] * 6 + ([DEFC] if dt not in ('bool', 'f2') else []) + ([C.NAN, INFC] if flt else [])) for _ in range(n)]
            name = rng.choice(['x', 'x', 'y', 'x_1', 'aod550', '550-870 aod', 'latitude', 'V.2'])
            d = {'name': name, 'std': rng.choice(['', '', 'air_temperature', 'mass_concentration_of_dust_dry_aerosol_in_air']), 'long': rng.choice(['', 'long name', 'other']),
                 'units': rng.choice(UNITS), 'history': rng.choice(['', 'first\nthen', 'made']), 'dt': dt, 'q': rng.choice([1, 2, 4]) if flt else 1, 'v': v, 'm': mask(0.3),
                 'mv': {'k': rng.choice(['none', 'none', 'num', 'num', 'nan', 'text', 'pair'] + (['def'] if dt not in ('bool', 'f2') else [])), 'n': rng.randint(-9, 9)},
                 'misc': rng.choice(['', '', 'scale_factor', 'add_offset', 'valid_max', 'valid_range', '_FillValue', 'missing_value', 'valid_min']), 'note': rng.choice(['', 'noted'])}
            if name == 'latitude' and 'latitude' not in stds:
                d['name'] = name = 'wind'          # it would be read as the coordinate
            if name == 'latitude':
                d['std'] = 'latitude'
                if rng.random() < 0.5:
                    c = [c for c in coords if c['std'] == 'latitude']
                    if c:
                        d.update(v=list(c[0]['v']), m=[], dt='f8', q=1)
            if vs and rng.random() < 0.2:
                d.update({k: vs[-1][k] for k in ('name', 'v', 'm', 'dt', 'q', 'std')})
            if d['units'].startswith('days') and set(d['v']) & {DEFC, C.NAN, INFC}:      # times are times
                d['units'] = 'K'
            vs.append(d)
        yield {'shape': shape, 'src': 'list' if len(vs) > 1 else rng.choice(['mem', 'lazy', 'list']), 'coords': coords, 'vars': vs}


def plain(dt):
    return {'bool': 'i1', 'f2': 'f4'}.get(dt, dt.lstrip('><'))


def numbers(d):
    from netCDF4 import default_fillvals
    def one(x):
        if x == DEFC:
            return default_fillvals[plain(d['dt'])]
        return {C.NAN: float('nan'), INFC: float('inf')}.get(x, x / d['q'] if d['q'] != 1 else x)
    return np.array([one(x) for x in d['v']], dtype=d['dt'])


def missing_value(d):
    from netCDF4 import default_fillvals
    k, n = d['mv']['k'], d['mv']['n']
    return {'none': None, 'num': n, 'nan': float('nan'), 'text': str(n), 'pair': np.array([float(n), n + 1.]), 'def': default_fillvals[plain(d['dt'])]}[k]


def codes(a):
    from netCDF4 import default_fillvals
    a = np.ma.asarray(a)
    m = np.ma.getmaskarray(a).ravel()
    dt = a.dtype.newbyteorder('=')
    dflt = default_fillvals.get(plain(dt.kind + str(dt.itemsize)) if dt.kind != 'b' else 'i1')
    dflt = np.array(dflt).astype(dt) if dt.kind != 'b' and dt != np.dtype('f2') else None
    out = []
    for k, x in enumerate(a.data.ravel()):
        if m[k]:
            out.append(C.MASKED)
        elif dflt is not None and x == dflt:
            out.append(DEFC)
        elif x != x:
            out.append(C.NAN)
        elif abs(float(x)) == float('inf'):
            out.append(INFC)
        else:
            y = float(x) * 4
            out.append(int(y) if y == int(y) and abs(y) < 2 ** 30 else C.BAD)
    return out


def data(e):
    from cis.data_io.ungridded_data import UngriddedData, UngriddedDataList, Metadata
    out = []
    for d in e['vars']:
        a = numbers(d).reshape(e['shape'])
        if d['m']:
            a = np.ma.array(a, mask=np.array(d['m'], dtype=bool).reshape(e['shape']))
        misc = {}
        if d['note']:
            misc['note'] = d['note']
        if d['misc']:
            misc[d['misc']] = {'valid_range': [1, 2], 'scale_factor': 0.5}.get(d['misc'], d['v'][0] if abs(d['v'][0]) < 1000 else 1)
        meta = Metadata(name=d['name'], standard_name=d['std'], long_name=d['long'], units=d['units'], history=d['history'],
                        missing_value=missing_value(d), misc=misc, shape=tuple(e['shape']))
        lazy = e['src'] == 'lazy'
        cs = build.ug_coords({'shape': e['shape'], 'coords': e['coords'], 'v': d['v']}, 1, 2 if lazy else 0)
        out.append(UngriddedData(build.Part(a).split(2) if lazy else a, meta, cs, build.read_part if lazy else None))
    return UngriddedDataList(out) if e['src'] == 'list' or len(out) > 1 else out[0]


def several(x):
    return x if isinstance(x, list) else [x]


def snap(u):
    return {'v': codes(u.data), 'dt': plain(u.data.dtype.newbyteorder('=').str[1:]) if u.data.dtype.kind != 'b' else 'bool', 'name': str(u.var_name),
            'units': str(u.units), 'long': str(u.long_name or ''), 'std': str(u.standard_name or ''), 'history': str(u.metadata.history),
            'note': str(u.metadata.misc.get('note', u.attributes.get('note', ''))),
            'coords': [{'std': str(c.standard_name), 'v': codes(c.data), 'units': str(c.units)} for c in u.coords()]}


def store(e, obj, names):
    from netCDF4 import Dataset
    import cis
    from cis.data_io.products.AProduct import get_product_full_name
    path = os.path.abspath('s%d.nc' % next(COUNT))
    obj.save_data(path)
    with Dataset(path) as f:
        found = [str(v) for v in f.variables]
    try:
        product = get_product_full_name([path]).split('/')[1]
        back = [snap(cis.read_data(path, n)) for n in names(found)]
        objs = cis.read_data_list(path, names(found))
    finally:
        os.remove(path)
    return found, product, back, objs


def execute(e):
    obj = data(e)
    before = [snap(u) for u in several(obj)]
    found, product, read, objs = store(e, obj, lambda found: given(e, found))
    after = [snap(u) for u in several(obj)]
    same = [r['name'] for r in read]
    _, _, again, _ = store(e, objs, lambda found: same)
    return {'outcome': 'ok', 'before': before, 'after': after, 'names': found, 'product': product, 'read': read, 'again': again,
            'meta': [{'units': b['units']} for b in before], 'cunits': [str(build.std_units(c['std'])) for c in e['coords']]}


def given(e, found):
    """the name each variable was given: its own, or the own name with the next free number where that is taken by something else"""
    rest, out = [n for n in found if n not in [c['std'] for c in e['coords']]], []
    whole = [not any(c['m'] and c['m'][k] for c in e['coords']) for k in range(len(e['vars'][0]['v']))]
    pick = lambda v, m, q: [(C.MASKED if m and m[k] else x if abs(x) > 40000000 else x * 4 // q) for k, x in enumerate(v) if whole[k]]
    file = {c['std']: pick(c['v'], [], 1) for c in e['coords']}
    for d in e['vars']:
        v, n, k = pick(d['v'], d['m'], d['q']), d['name'], 0
        if DEFC in v:       # what netCDF fills elements with depends on their type
            v.append(plain(d['dt']).replace('f4', 'f8'))
        if n in file and file[n] != v:
            k = 1
            while '%s_%d' % (n, k) in file:
                k += 1
            n = '%s_%d' % (n, k)
        file.setdefault(n, v)
        out.append(n)
    return out


def nontrivial(rec):
    return rec['out']['outcome'] == 'ok' and any(C.MASKED in d['v'] for d in rec['out']['read'])
