"""R01: what the stored elements of file variables mean."""
import itertools
import os

import numpy as np

import common as C
import hdfbuild

JUDGE = 'JudgePacked'
GEN = ['GenPacked']
SECONDS = 20
COUNT = itertools.count()


def models(tier):
    return [('MCPacked', 'MCPacked' if tier == 'quick' else 'MCPacked_t')]


def random_cases(rng, tier):
    for _ in range(250 if tier == 'quick' else 6000):
        conv = rng.choice(['nc', 'nc', 'nc', 'sd', 'modis', 'caliop', 'cs', 'vd', 'table'])
        dt = rng.choice(['i1', 'u1', 'i2', 'u2', 'i4', 'f4', 'f8'])
        if conv in ('vd', 'table') and dt == 'i1':      # pyhdf cannot write these
            dt = 'i2'
        flt, low = dt[0] == 'f', 0 if dt[0] == 'u' else -100

        def num():
            n = rng.choice([rng.randint(low, 100), rng.randint(max(low, -5), 5)])
            if flt and rng.random() < 0.4:
                return rat(4 * n + rng.randint(0, 3), 4)
            return [n, 1]
        opt = lambda f, p=0.5: f() if rng.random() < p else []
        pair = lambda: sorted([num(), num()], key=lambda x: x[0] / x[1])
        files = []
        for k in range(rng.choice([1, 1, 2, 3])):
            files.append([num() if rng.random() < 0.95 or not flt else [0] for _ in range(rng.randint(1, 9))])
        e = {'conv': conv, 'dt': dt, 'fill': [], 'missing': [], 'missop': '', 'vmin': [], 'vmax': [], 'vrange': [], 'fmt': '', 'fillvalue': [],
             'scale': [], 'offset': [], 'atype': rng.choice(['same', 'double', 'text']), 'stype': rng.choice(['same', 'double']), 'junk': '', 'files': files}
        stored = [x for f in files for x in f if len(x) == 2] or [[1, 1]]
        known = lambda: rng.choice(stored) if rng.random() < 0.7 else num()
        if conv not in ('vd', 'table'):
            e['fill'] = opt(known)
        if conv in ('nc', 'cs', 'vd', 'table'):
            e['missing'] = opt(lambda: [known() for _ in range(rng.choice([1, 2]) if conv == 'nc' else 1)])
            if conv == 'cs' and e['missing']:
                e['missop'] = rng.choice(['<', '<=', '==', '=>', '>', ''])
        if conv == 'nc':
            e['vmin'], e['vmax'] = opt(known, 0.3), opt(known, 0.3)
        if conv != 'table':
            e['vrange'] = opt(pair, 0.3)
            e['scale'] = opt(lambda: rng.choice([[1, 2], [2, 1], [3, 1], [-1, 4], [1, 1], [16, 1], [64, 1]]))
            e['offset'] = opt(lambda: rng.choice([[1, 2], [2, 1], [-7, 1], [0, 1], [100, 1]]))
        if conv == 'caliop':
            e['fmt'], e['fillvalue'] = rng.choice(['', 'Float_32', 'Int_16', 'UInt_8', 'Int_8', 'Int_32']), opt(known, 0.3)
        yield e


def rat(n, d):
    from fractions import Fraction
    f = Fraction(n, d)
    return [f.numerator, f.denominator]


def rats(a):
    """the fractions elements stand for; their denominators are small"""
    from fractions import Fraction
    a = np.ma.asarray(a)
    m, out = np.ma.getmaskarray(a).ravel(), []
    for k, x in enumerate(np.asarray(a.data).ravel()):
        x = float(x)
        f = Fraction(x).limit_denominator(1000) if np.isfinite(x) else None
        if m[k]:
            out.append([])
        elif f is None:
            out.append([0])
        else:
            good = abs(float(f) - x) <= 1e-6 * max(1, abs(x)) and abs(f.numerator) < 2 ** 31
            out.append([f.numerator, f.denominator] if good else [C.BAD, 0, 0, 0])
    return out


def num(x, dt):
    if len(x) == 1:
        if x[0] == 0:
            return float('nan')
        from netCDF4 import default_fillvals
        return default_fillvals[dt]
    return x[0] / x[1] if x[0] % x[1] else x[0] // x[1]


def whole(x):
    return x[1] == 1


def typ(kind, dt, *xs):
    """the storage type of an attribute: that of the variable where it can hold the numbers"""
    if kind == 'same' and (dt[0] == 'f' or all(whole(x) and fits(x, dt) for x in xs)):
        return dt
    return 'f8'


def fits(x, dt):
    info = np.iinfo(dt)
    return info.min <= x[0] <= info.max


def roomy(e):
    """whether arithmetic in the storage type itself would hold every result: attributes of that type promise so"""
    if e['dt'][0] == 'f':
        return True
    info = np.iinfo(e['dt'])
    s, o = (num(e[k], 'f8') if e[k] else d for k, d in (('scale', 1), ('offset', 0)))
    raws = [num(x, e['dt']) for f in e['files'] for x in f]
    return all(info.min <= y <= info.max for x in raws for y in (x * s, x * s + o, x - o, (x - o) * s))


def word(x):
    v = num(x, 'f8')
    return '%s' % v


def attributes(e):
    """(name, storage type, value) as the convention spells them"""
    conv, dt = e['conv'], e['dt']
    out = []
    if e['fill']:
        out.append(('_FillValue', dt, num(e['fill'], dt)))
    if e['fillvalue']:
        out.append(('fillvalue', typ(e['atype'], dt, e['fillvalue']), num(e['fillvalue'], dt)))
    if e['fmt']:
        out.append(('format', 'text', e['fmt']))
    if e['missing']:
        m = [num(x, dt) for x in e['missing']]
        name = 'missing_value' if conv == 'nc' else 'missing'
        t = dt if conv == 'nc' else typ(e['atype'], dt, *e['missing'])
        out.append((name, t, m if len(m) > 1 else m[0]))
    if e['missop']:
        out.append(('missop', 'text', e['missop']))
    for key, name in (('vmin', 'valid_min'), ('vmax', 'valid_max')):
        if e[key]:
            if e['atype'] == 'text':
                out.append((name, 'text', word(e[key])))
            else:
                out.append((name, typ(e['atype'], dt, e[key]), num(e[key], dt)))
    if e['vrange']:
        if conv == 'caliop':
            out.append(('valid_range', 'text', '...'.join(word(x) for x in e['vrange'])))
        else:
            out.append(('valid_range', typ(e['atype'], dt, *e['vrange']), [num(x, dt) for x in e['vrange']]))
    elif e['junk'] == 'valid_range' and conv in ('nc', 'caliop'):
        out.append(('valid_range', 'text', 'see the manual' if conv == 'nc' else '5'))
    sname, oname = ('factor', 'offset') if conv in ('cs', 'vd') else ('scale_factor', 'add_offset')
    kind = e['stype'] if roomy(e) else 'double'
    for key, name in (('scale', sname), ('offset', oname)):
        if e[key]:
            out.append((name, typ(kind, dt, e[key]), num(e[key], 'f8')))
    return out


def write_nc(path, e, raw, first):
    from netCDF4 import Dataset
    n = len(raw)
    with Dataset(path, 'w') as f:
        f.source = 'CIS verification'
        f.createDimension('obs', n)
        for name, units in (('latitude', 'degrees'), ('longitude', 'degrees'), ('time', 'days since 1600-01-01 00:00:00')):
            c = f.createVariable(name, 'f8', ('obs',))
            c.standard_name, c.units = name, units
            c[:] = first + np.arange(n)
        at = attributes(e)
        fill = [v for k, _, v in at if k == '_FillValue']
        v = f.createVariable('v', e['dt'], ('obs',), fill_value=fill[0] if fill else None)
        v.set_auto_maskandscale(False)
        v.units = '1'
        for k, t, x in at:
            if k != '_FillValue':
                v.setncattr(k, x if t == 'text' else np.array(x, dtype=t))
        v[:] = np.array(raw, dtype=e['dt'])


def pairs(a):
    """a two-dimensional array of these elements, one row each"""
    return np.array(a).reshape(len(a), 1)


def write_hdf(path, e, raw, first):
    n, conv, at = len(raw), e['conv'], attributes(e)
    h = hdfbuild.Hdf(path, ('metadata', [[1.0, 2.0]], 'f4', (), 'Lidar_Data_Altitudes', 2) if conv == 'caliop' else None)
    pos = first + np.arange(n)
    sec = pos * 86400.0
    two = lambda x: np.stack([x, x], axis=1)
    if conv == 'modis':
        h.array('Latitude', two(pos), 'f4')
        h.array('Longitude', two(pos), 'f4')
        h.array('Scan_Start_Time', two(sec), 'f8')
        h.array('v', two(raw), e['dt'], at)
    elif conv == 'caliop':
        three = lambda x: np.stack([x - 0.25, x, x + 0.25], axis=1)
        h.array('Latitude', three(pos), 'f4')
        h.array('Longitude', three(pos), 'f4')
        h.array('Profile_Time', three(sec), 'f8')
        h.array('Pressure', two(pos), 'f4', [('units', 'text', 'hPa')])
        h.array('v', two(raw), e['dt'], at)
    elif conv == 'cs':
        h.array('Height', two(pos), 'f4')
        h.array('v', two(raw), e['dt'], at)
    elif conv == 'sd':
        h.array('v', np.array(raw), e['dt'], at)
    if conv in ('cs', 'vd'):
        for name in ('Latitude', 'Longitude'):
            h.table(name, pos, 'f4')
        h.table('Profile_time', sec, 'f4')
        h.table('TAI_start', [0.0], 'f8')
    if conv in ('vd', 'table'):
        h.table('v', raw, e['dt'], at)
    h.close()


NAMES = {'nc': 'x%d.nc', 'modis': 'MYD04_L2.x%d.hdf', 'caliop': 'CAL_LID_L2_05kmAPro.x%d.hdf', 'cs': 'x%d_CS_GRANULE_.hdf', 'vd': 'x%d_CS_GRANULE_.hdf',
         'sd': 'x%d.hdf', 'table': 'x%d.hdf'}
PRODUCT = {'nc': None, 'modis': None, 'caliop': 'Caliop_L2', 'cs': None, 'vd': 'CloudSat'}


def read(e, paths):
    import cis
    from cis.data_io import hdf
    from cis.data_io.ungridded_data import UngriddedData, Metadata
    if e['conv'] in ('sd', 'table'):       # as a product plugin reads: the routine for the kind of handle
        sd, vd = hdf.read(paths, 'v')
        handles = (sd if e['conv'] == 'sd' else vd)['v']
        n = sum(len(f) for f in e['files'])
        from build import ug_coords
        cs = ug_coords({'coords': [{'std': 'latitude', 'v': list(range(n)), 'm': []}], 'v': list(range(n)), 'shape': [n]}, 1)
        return UngriddedData(handles, Metadata(name='v', shape=(n,)), cs)
    return cis.read_data(paths, 'v', PRODUCT[e['conv']])


def values(e, d):
    """what was read, one value for each stored element; both columns of a row hold the same"""
    a = rats(d.data)
    if e['conv'] in ('modis', 'caliop', 'cs'):
        if a[0::2] != a[1::2]:
            return None
        return a[0::2]
    return a


def execute(e):
    k = next(COUNT)
    paths = []
    first = 0
    for n, f in enumerate(e['files']):
        p = os.path.abspath(NAMES[e['conv']] % (1000 * k + n))
        raw = [num(x, e['dt']) for x in f]
        (write_nc if e['conv'] == 'nc' else write_hdf)(p, e, raw, first)
        first += len(f)
        paths.append(p)
    try:
        d = read(e, paths)
        v = values(e, d)
        lat = d.coord('latitude').data_flattened
        step = 2 if e['conv'] in ('modis', 'caliop', 'cs') else 1
        order = [round(float(x), 3) for x in lat[::step]] == [float(x) for x in range(first)]
        return {'outcome': 'ok', 'v': v if v is not None else [], 'again': values(e, read(e, paths)), 'order': bool(order)}
    finally:
        for p in paths:
            os.remove(p)


def nontrivial(rec):
    return rec['out']['outcome'] == 'ok' and any(x == [] for x in rec['out']['v']) and any(len(x) == 2 for x in rec['out']['v'])
