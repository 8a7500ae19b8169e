"""R05: points of satellite swaths and profiles."""
import itertools
import os

import numpy as np

import common as C
import hdfbuild

JUDGE = 'JudgeSwath'
GEN = ['GenSwath']
SECONDS = 25
COUNT = itertools.count()
ABSENT, MISS = -88888888, -77777777
FILL = -9999
BASE = 143541           # days from 1600-01-01 to 1993-01-01
SCALE = 25


def models(tier):
    return [('MCSwath', 'MCSwath' if tier == 'quick' else 'MCSwath_t')]


def random_cases(rng, tier):
    for _ in range(20 if tier == 'quick' else 300):
        yield summary(rng)
        yield scene(rng, bare=True)
    for _ in range(150 if tier == 'quick' else 3000):
        if rng.random() < 0.12:
            yield summary(rng)
            continue
        if rng.random() < 0.15:
            yield scene(rng)
            continue
        kind = rng.choice(['modis', 'modis', 'modis1km', 'caliop', 'caliop', 'column', 'cloudsat', 'table'])
        lead = [rng.randint(1, 3) for _ in range(rng.choice([0, 1, 1, 2, 3]))] if kind == 'modis' else []
        level = rng.choice(['1', '2', '2', '2np']) if kind == 'caliop' else '2'
        w, off = ((rng.choice([1, 3]), 1) if level == '1' else (3, 2)) if kind in ('caliop', 'column') else (1, 1)
        pressure = kind == 'caliop' and level != '2np' and rng.random() < 0.7
        mixed = kind == 'caliop' and level != '1' and rng.random() < 0.25
        m = rng.randint(1, 4)
        heights = kind == 'cloudsat' or rng.random() < 0.7
        gaps = rng.random() < 0.6
        hole = lambda x, p=0.1: MISS if gaps and rng.random() < p else x
        files = []
        table = [rng.randint(-4, 120) for _ in range(m)]
        east = rng.choice([0, 170, -175, 100])
        for f in range(rng.choice([1, 1, 2, 3])):
            n = rng.randint(1, 4)
            wide = m if kind in ('caliop', 'cloudsat', 'column') else rng.randint(1, 3) if kind == 'table' else m
            pos = n * wide if kind in ('modis', 'modis1km') else n * w
            els = 25 * n * wide if kind == 'modis1km' else n if kind in ('column', 'table') else n * wide
            lon = lambda: (east + rng.randint(-40, 40) + 180) % 360 - 180
            files.append({'n': n, 'm': wide, 'lat': [hole(rng.randint(-90, 90)) for _ in range(pos)], 'lon': [hole(lon()) for _ in range(pos)],
                          't': [hole(rng.randint(0, 400)) for _ in range(pos)],
                          'v': [[hole(rng.randint(-99, 999), 0.2) for _ in range(els)] for _ in range(int(np.prod(lead)))],
                          'z': table if kind == 'caliop' else [hole(rng.randint(-4, 500)) for _ in range(n * wide)] if kind in ('cloudsat', 'table') and heights else [],
                          'p': [hole(rng.randint(1, 1000)) for _ in range(els)] if kind == 'caliop' else []})
        lo = rng.randint(-90, 60)
        yield {'kind': kind, 'lead': lead, 'w': w, 'off': off, 'pressure': pressure, 'files': files, 'cut': [lo, lo + rng.choice([10, 40, 90])], 'level': level, 'mixed': mixed,
               'thin': rng.randint(0, 1), 'look': rng.randint(0, 2), 'listed': [] if kind in ('modis1km', 'column') or lead or mixed else ['v'], 'unlisted': ['other'],
               'alone': not gaps and kind in ('modis', 'caliop', 'cloudsat')}


# days from 1993-01-01 to the last day of each month of two years
MONTHENDS = [sum([31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][k % 12] for k in range(j + 1)) - 1 for j in range(24)]


def summary(rng):
    n, m = rng.randint(1, 4), rng.randint(1, 5)
    lat, lon = sorted(rng.sample(range(-90, 91), n), reverse=rng.random() < 0.7), sorted(rng.sample(range(-180, 180), m))
    # the periods of the files of a product do not overlap
    mids, h = rng.sample(range(0, 3000, 8), rng.choice([1, 1, 2, 3])), rng.choice([0, 1, 2, 3])
    if rng.random() < 0.6:      # months: they end with the last of their days
        mids, h = [4 * (MONTHENDS[k] - 1) for k in rng.sample(range(24), rng.choice([1, 2, 3]))], 4
    files = [{'n': n, 'm': m, 'lat': lat, 'lon': lon, 't': [x - h, x + h], 'z': [], 'p': [], 'v': [[MISS if rng.random() < 0.2 else rng.randint(-99, 999) for _ in range(n * m)]]}
             for x in mids]
    lo = rng.randint(-90, 60)
    return {'kind': 'grid', 'lead': [], 'w': 1, 'off': 1, 'pressure': False, 'files': files, 'cut': [lo, lo + rng.choice([10, 40, 90])], 'level': '2', 'mixed': False, 'thin': 0,
            'look': rng.randint(0, 2), 'listed': ['v'], 'unlisted': ['other', 'XDim', 'YDim'], 'alone': False, 'brand': rng.choice(['modis', 'cloud', 'aerosol'])}


def write_summary(e, f, path, number):
    """daily and monthly files of the climate change initiative; a month may end on its 44th day"""
    import datetime
    from netCDF4 import Dataset
    n, m, cloud = f['n'], f['m'], e['brand'] == 'cloud'
    ends = []
    for x in f['t']:
        d = datetime.datetime(1993, 1, 1) + datetime.timedelta(hours=6 * x)
        last = (d + datetime.timedelta(days=1)).day == 1
        ends.append(d.strftime('%Y%m' + ('44' if last else '%d') + 'T%H%M%SZ'))
    with Dataset(path, 'w') as d:
        d.setncatts({'time_coverage_start': ends[0], 'time_coverage_end': ends[1], 'id': 'i%d' % number, 'tracking_id': 't%d' % number, 'date_created': 'c%d' % number, 'Conventions': 'CF-1.5'})
        if cloud:
            d.number_of_processed_orbits = number
        else:
            d.setncatts({'history': 'h%d' % number, 'inputfilelist': 'f%d' % number, 'time_coverage_duration': 'd%d' % number})
        for name, std, values, units in (('lat', 'latitude', f['lat'], 'degrees_north'), ('lon', 'longitude', f['lon'], 'degrees_east')):
            d.createDimension(name, len(values))
            v = d.createVariable(name, 'f4', (name,))
            v.units, v.standard_name = units, std
            v[:] = values
        dims = ('lat', 'lon')
        if cloud:
            d.createDimension('time', 1)
            v = d.createVariable('time', 'f8', ('time',))
            v.units, v.standard_name, v.calendar = 'days since 1970-01-01 00:00:00', 'time', 'gregorian'
            v[:] = [sum(f['t']) / 8 + 8401]
            dims = ('time',) + dims
        v = d.createVariable('v', 'i2', dims, fill_value=FILL)
        v.units, v.long_name = '1', 'a variable'
        v[...] = arr(f['v'][0], (n, m))


LEVELS = ['layer', 'JSG_height']
WHERE = {'class': 2, 'aerosol_components': 2, 'band': 0, 'VNS_band': 0, 'background': 1}
MARK = {'class': '_CLASSNUM_', 'aerosol_components': '_AEROSOL_COMPONENTSNUM_', 'band': '_BANDNUM_', 'VNS_band': '_BANDNUM_', 'background': '_BACKGROUNDNUM_'}


def scene(rng, bare=False):
    kind, m = rng.choice(['scene', 'curtain', 'curtain', 'trail']), rng.randint(1, 4)
    if bare:        # profiles whose levels have no heights
        kind, m = 'curtain', rng.randint(2, 4)
    extra = '' if bare else rng.choice(['', '', 'band', 'VNS_band', 'background'] + ([] if kind == 'trail' else ['class', 'aerosol_components']))
    deep = rng.choice([1, 2, 3, 12]) if extra else 1
    hole = lambda x, p=0.08: MISS if rng.random() < p else x
    files, heights = [], not bare and rng.random() < 0.6
    for _ in range(rng.choice([1, 1, 2, 3])):
        n = rng.randint(1, 4)
        pos, els = n * m if kind == 'scene' else n, n if kind == 'trail' else n * m
        files.append({'n': n, 'm': m, 'lat': [hole(rng.randint(-90, 90)) for _ in range(pos)], 'lon': [hole(rng.randint(-180, 179)) for _ in range(pos)], 't': [hole(rng.randint(0, 400)) for _ in range(n)],
                      'z': [hole(rng.randint(-4, 500)) for _ in range(n * m)] if heights and kind != 'scene' else [], 'p': [],
                      'v': [[hole(rng.randint(-99, 999), 0.2) for _ in range(els)] for _ in range(deep)]})
    lo = rng.randint(-90, 60)
    return {'kind': kind, 'lead': [], 'w': 1, 'off': 1, 'pressure': False, 'files': files, 'cut': [lo, lo + rng.choice([10, 40, 90])], 'level': '2', 'mixed': False, 'thin': rng.randint(0, 1),
            'look': rng.randint(0, 2), 'listed': [], 'unlisted': [], 'alone': False, 'extra': extra, 'pick': rng.choice([0, 0, rng.randrange(deep), deep - 1])}


def write_scene(e, f, path):
    """MSI and ATLID files; thin ones have the other names for positions"""
    from netCDF4 import Dataset
    n, m, kind, extra = f['n'], f['m'], e['kind'], e['extra']
    with Dataset(path, 'w') as d:
        g = d.createGroup('ScienceData')
        for name, size in (('along_track', n), (LEVELS[len(f['z']) > 0] if kind == 'curtain' else 'across_track', m)) + (((extra, len(f['v'])),) if extra else ()):
            g.createDimension(name, size)
        flat, full = ('along_track',), ('along_track', LEVELS[len(f['z']) > 0] if kind == 'curtain' else 'across_track')
        pos = full if kind == 'scene' else flat

        def put(name, values, dims, dtype, **kw):
            v = g.createVariable(name, dtype, dims, fill_value=FILL)
            for k, x in kw.items():
                setattr(v, k, x)
            v[...] = values
        old = 'ellipsoid_' if e['thin'] else ''
        put(old + 'latitude', arr(f['lat'], (n, m) if kind == 'scene' else n), pos, 'f8', units='degree_north', long_name='latitude')
        put(old + 'longitude', arr(f['lon'], (n, m) if kind == 'scene' else n), pos, 'f8', units='degree_east', long_name='longitude')
        put('time', seconds(f['t'], (n,), 4 * 2556), flat, 'f8', units='seconds since 2000-01-01', long_name='time')
        if f['z']:
            put('sample_altitude' if e['thin'] else 'height', arr(f['z'], (n, m)), full, 'f4', units='m', long_name='height')
        dims = list(flat if kind == 'trail' else full)
        v = np.stack([arr(x, (n,) if kind == 'trail' else (n, m)) for x in f['v']], axis=WHERE[extra]) if extra else arr(f['v'][0], (n,) if kind == 'trail' else (n, m))
        if extra:
            dims.insert(WHERE[extra], extra)
        put('v', v, dims, 'i2', units='1', long_name='a variable')


def stamps(f):
    """the part of the metadata which tells the times, in quarter days since 1993"""
    import datetime
    out = ''
    for name, x in (('ENDING', f['t'][1]), ('BEGINNING', f['t'][0])):
        d = datetime.datetime(1993, 1, 1) + datetime.timedelta(hours=6 * x)
        for part, text in (('DATE', d.strftime('%Y-%m-%d')), ('TIME', d.strftime('%H:%M:%S.%f'))):
            k = 'RANGE%s%s' % (name, part)
            out += '    OBJECT                 = %s\n      NUM_VAL              = 1\n      VALUE                = "%s"\n    END_OBJECT             = %s\n\n' % (k, text, k)
    return 'GROUP = INVENTORYMETADATA\n  OBJECT = SHORTNAME\n    VALUE = "MOD08_D3"\n  END_OBJECT = SHORTNAME\n' + out + 'END'


def arr(s, shape, scale=1):
    return np.array([FILL if x == MISS else x * scale for x in s], dtype=float).reshape(shape)


def seconds(s, shape, start=0):
    """quarter days"""
    return np.array([FILL if x == MISS else (x - start) * 21600.0 for x in s]).reshape(shape)


def write(e, f, path, number):
    n, m, kind = f['n'], f['m'], e['kind']
    if 'extra' in e:
        return write_scene(e, f, path)
    if e.get('brand', 'modis') != 'modis':
        return write_summary(e, f, path, number)
    fill = [('_FillValue', 'f4', FILL)]
    if kind in ('modis', 'modis1km'):
        h = hdfbuild.Hdf(path)
        h.array('Latitude', arr(f['lat'], (n, m)), 'f4', fill)
        h.array('Longitude', arr(f['lon'], (n, m)), 'f4', fill)
        h.array('Scan_Start_Time', seconds(f['t'], (n, m)), 'f8', [('_FillValue', 'f8', FILL), ('units', 'text', 'Seconds since 1993-1-1 00:00:00.0 0')])
        at = [('_FillValue', 'i2', FILL), ('long_name', 'text', 'a variable'), ('units', 'text', 'none')]
        if kind == 'modis1km':
            h.array('v', arr(f['v'][0], (5 * n, 5 * m)), 'i2', at, ('Cell_Along_Swath_1km:mod06', 'Cell_Across_Swath_1km:mod06'))
        else:
            h.array('v', np.stack([arr(x, (n, m)) for x in f['v']]).reshape(e['lead'] + [n, m]), 'i2', at)
        h.array('other', np.zeros((n + 1, m)), 'i2', at)
    elif kind == 'grid':
        h = hdfbuild.Hdf(path)
        dims = ('YDim:mod08', 'XDim:mod08')
        h.attribute('StructMetadata.0', 'GROUP=GridStructure\nEND_GROUP=GridStructure\n')
        h.attribute('CoreMetadata.0', stamps(f))
        h.array('YDim', arr(f['lat'], (n,)), 'f4', [('units', 'text', 'Degrees_North')], dims[:1])
        h.array('XDim', arr(f['lon'], (m,)), 'f4', [('units', 'text', 'Degrees_East')], dims[1:])
        h.array('v', arr(f['v'][0], (n, m)), 'i2', [('_FillValue', 'i2', FILL), ('long_name', 'text', 'a variable'), ('units', 'text', 'none')], dims)
        h.array('other', np.zeros((2, n, m)), 'i2', (), ('Band:mod08',) + dims)
    elif kind in ('caliop', 'column'):
        w = e['w']
        fill = [('format', 'text', 'Float_32'), ('units', 'text', 'deg'), ('valid_range', 'text', '-9998.0...99999.0')]
        table = (f['z'] if f['z'] else [0] * m)
        h = hdfbuild.Hdf(path, ('metadata', [[z / 4 for z in table]] if m > 1 else [z / 4 for z in table], 'f4', (), 'Lidar_Data_Altitudes', m))
        h.array('Latitude', arr(f['lat'], (n, w)), 'f4', fill)
        h.array('Longitude', arr(f['lon'], (n, w)), 'f4', fill)
        h.array('Profile_Time', seconds(f['t'], (n, w)), 'f8', [('fillvalue', 'f8', FILL)])
        if kind == 'caliop':
            odd = not e['pressure'] and e['level'] != '2np'
            h.array('Pressure', np.ones((n, m + 2)) if odd else arr(f['p'], (n, m)), 'f4', [('format', 'text', 'Float_32'), ('units', 'text', 'hPA')])
        at = [('format', 'text', 'Int_16'), ('units', 'text', 'NoUnits')]
        if kind == 'column':
            h.array('Column_v', arr(f['v'][0], (n, 1) if e['thin'] else (n,)), 'i2', at)
        elif e['mixed']:
            v = arr(f['v'][0], (n, m))
            h.array('CAD_Score', np.stack([v, v + 1], axis=2), 'i2', at)
        else:
            h.array('v', arr(f['v'][0], (n, m)), 'i2', at)
        h.array('other', np.zeros((n + 1, m)), 'i2', at)
    else:
        h = hdfbuild.Hdf(path)
        if f['z']:
            h.array('Height', arr(f['z'], (n, m) if kind == 'cloudsat' or len(f['z']) == n * m else (n, 1)), 'i2', [('_FillValue', 'i2', FILL), ('units', 'text', 'm')])
        else:
            h.array('other', np.zeros((n + 1, m)), 'i2')
        at = [('missing', 'f4', FILL)]
        start = 3 * number
        h.table('Latitude', arr(f['lat'], n), 'f4', at)
        h.table('Longitude', arr(f['lon'], n), 'f4', at)
        h.table('Profile_time', seconds(f['t'], n, start), 'f4', at)
        h.table('TAI_start', [start * 21600.0], 'f8')
        if kind == 'table':
            h.table('v', arr(f['v'][0], n), 'i2', [('missing', 'i2', FILL)])
        else:
            h.array('v', arr(f['v'][0], (n, m)), 'i2', [('_FillValue', 'i2', FILL)])
            h.array('other', np.zeros((n + 1, m)), 'i2')
    h.close()


def snap(x, scale):
    x = np.ma.asarray(x)
    m = np.ma.getmaskarray(x).ravel()
    out = []
    for k, y in enumerate(np.asarray(x.data, dtype=float).ravel()):
        y = y * scale
        out.append(MISS if m[k] or not np.isfinite(y) else int(round(y)) if abs(y - round(y)) < 2e-3 else C.BAD)
    return out


UNIT = {'altitude': 'm', 'time': None}


def points(d, kind, values=True):
    """one record per point, in the order in which they are held"""
    if kind == 'grid':
        return cells(d)
    cs = {c.standard_name or {'Latitude': 'latitude', 'Longitude': 'longitude', 'Pressure': 'air_pressure', 'Height': 'altitude'}.get(c.name(), c.name()): c for c in d.coords()}
    v = snap(d.data_flattened, 1) if values else None
    flat = {k: c.data_flattened for k, c in cs.items()}
    col = {'lat': snap(flat['latitude'], SCALE), 'lon': snap(flat['longitude'], SCALE), 't': snap(flat['time'] - BASE, 4 * SCALE)}
    n = len(col['lat'])
    col['z'] = snap(flat['altitude'], SCALE / 250. if kind == 'caliop' else SCALE) if 'altitude' in flat else [ABSENT] * n
    col['p'] = snap(flat['air_pressure'], SCALE) if 'air_pressure' in flat else [ABSENT] * n
    lens = set(len(x) for x in col.values()) | (set([len(v)]) if values else set())
    if len(lens) != 1:
        raise AssertionError('%s values and positions' % sorted(lens))
    out = []
    for k in range(n):
        r = {c: col[c][k] for c in col}
        r['v'] = v[k] if values else 0
        if r['lon'] not in (MISS, C.BAD):
            r['lon'] %= 360 * SCALE
        out.append(r)
    return out


def cells(d):
    """the same of a grid"""
    wide = lambda c: np.broadcast_to(np.expand_dims(c.points, [k for k in range(d.ndim) if k not in d.coord_dims(c)]) if d.coord_dims(c) else c.points.reshape([1] * d.ndim), d.shape)
    v = snap(d.data, 1)
    lat, lon, t = [snap(wide(d.coord(s)) - b, q * SCALE) for s, b, q in (('latitude', 0, 1), ('longitude', 0, 1), ('time', BASE, 4))]
    return [{'v': a, 'lat': b, 'lon': c % (360 * SCALE) if c != C.BAD else c, 't': w, 'z': ABSENT, 'p': ABSENT} for a, b, c, w in zip(v, lat, lon, t)]


NAMES = {'scene': 'ECA_MSI_RGR_1C_%d.h5', 'curtain': 'ECA_ATL_EBD_2A_%d.h5', 'trail': 'ECA_ATL_ICE_2A_%d.h5', 'grid': 'MOD08_D3.x%d.hdf', 'modis': 'MYD04_L2.x%d.hdf', 'modis1km': 'MOD06_L2.x%d.hdf', 'cloudsat': 'x%d_CS_GRANULE_.hdf', 'table': 'x%d_CS_GRANULE_.hdf'}
CAL = {'1': 'CAL_LID_L1.x%d.hdf', '2': 'CAL_LID_L2_05kmAPro.x%d.hdf', '2np': 'CAL_LID_L2_05kmAPro.x%d.hdf'}


def execute(e):
    import cis
    from cis.data_io.products.AProduct import get_coordinates
    k = next(COUNT)
    name = NAMES[e['kind']] if e['kind'] in NAMES else CAL[e['level']]
    product = {'1': 'Caliop_L1', '2': 'Caliop_L2', '2np': 'Caliop_L2_NO_PRESSURE'}[e['level']] if e['kind'] in ('caliop', 'column') and (k % 2 or e['level'] == '2np') else None
    paths = [os.path.abspath(name % (1000 * k + n)) for n in range(len(e['files']))]
    if e.get('brand', 'modis') != 'modis':
        paths = [os.path.join(os.path.dirname(p), '%d-ESACCI-L3%s-x.nc' % (1000 * k + n, {'cloud': ['C_CLOUD', 'U_CLOUD'][k % 2], 'aerosol': 'C_AEROSOL'}[e['brand']])) for n, p in enumerate(paths)]
    for n, (p, f) in enumerate(zip(paths, e['files'])):
        write(e, f, p, n)
    var = 'Column_v' if e['kind'] == 'column' else 'CAD_Score' if e['mixed'] else 'v'
    if 'extra' in e:
        var = 'ScienceData/v' + (MARK[e['extra']] + str(e['pick']) if e['extra'] and (e['pick'] or k % 2) else '')
    try:
        d = cis.read_data(paths, var, product)
        ds = list(d) if isinstance(d, list) else [d]
        size = [int(np.prod(x.shape)) for x in ds] if e['look'] == 1 else []
        sets = [None] * len(ds)
        order = list(range(len(ds)))
        if e['look'] == 1:
            order.reverse()
        for n in order:
            x = ds[n]
            if e['look'] == 2:
                x.coord('latitude').data if e['kind'] != 'grid' else x.coord('latitude').points
                x.coord('longitude')
            sets[n] = {'pts': points(x, e['kind']), 'spans': snap(x.coord('time').bounds - BASE, 4 * SCALE) if e['kind'] == 'grid' else []}
        after = [int(np.prod(x.shape)) for x in ds]
        for n in order:
            s = ds[n].subset(latitude=[e['cut'][0] + 0.02, e['cut'][1] + 0.02])      # no pixel lies exactly there
            sets[n]['sub'] = points(s, e['kind']) if s is not None else []
        alone = []
        if e['alone']:
            alone = points(get_coordinates(paths, product), e['kind'], False)
        return {'outcome': 'ok', 'sets': sets, 'size': size, 'after': after, 'alone': alone, 'listed': listing(paths, product)}
    finally:
        for p in paths:
            os.remove(p)


def listing(paths, product):
    from cis.data_io.products.AProduct import get_variables
    return sorted(str(x) for x in get_variables(paths, product) if str(x) in ('v', 'other', 'XDim', 'YDim'))


def nontrivial(rec):
    return rec['out']['outcome'] == 'ok' and any(len(s['pts']) > 1 for s in rec['out']['sets'])
