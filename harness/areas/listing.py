"""R07: what files say they hold."""
import contextlib
import io
import itertools
import os
import re

import numpy as np

import build
import common as C

JUDGE = 'JudgeInfo'
GEN = ['GenInfo']
SECONDS = 25
COUNT = itertools.count()
GRID_UNITS = ['days since 2000-01-01', 'hours since 1970-01-01 00:00:00', 'hours', 's', 'm', 'km', 'hPa', 'Pa', 'nm', 'mbar', 'degrees', 'degrees_north', 'degrees_east',
              'radian', '1', 'percent', 'K', 'J', 'kg', 'none', 'm s-1', 'micron']


def models(tier):
    return [('MCInfo', 'MCInfo' if tier == 'quick' else 'MCInfo_t')]


def random_cases(rng, tier):
    for n in range(260 if tier == 'quick' else 4000):
        r = rng.random()
        yield tree_case(rng) if r < 0.45 else grid_case(rng) if r < 0.6 else hdf_case(rng) if r < 0.7 else summary_case(rng)


def tree_case(rng):
    files = []
    product = rng.random() < 0.5
    n = rng.randint(1, 3)
    for f in range(rng.choice([1, 1, 2, 3])):
        vs = []
        for k in range(rng.randint(0, 6)):
            if files and rng.random() < 0.6:
                path = rng.choice([v['path'] for v in files[0]])
            else:
                path = [rng.choice('abcd') for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 4]))] + [rng.choice(['a', 'v', 'w', 'AOD_550', 'x-y', 'b.c'])]
            dims = rng.choice([[], ['pixel_number'], ['pixel_number'], ['other'], ['pixel_number', 'other'], ['other', 'pixel_number'], ['pixel_x'], ['pixel_number', 'pixel_number2']])
            if any(path == v['path'] or path == v['path'][:len(path)] or v['path'] == path[:len(v['path'])] for v in vs) or path[0] in ('latitude', 'longitude'):
                continue
            vs.append({'path': path, 'dims': dims, 'values': [100 * f + 10 * k + j for j in range(n)]})
        for c in ('latitude', 'longitude'):
            vs.insert(rng.randint(0, len(vs)), {'path': [c], 'dims': ['pixel_number'], 'values': [f + j for j in range(n)]})
        files.append(vs)
    return {'kind': 'tree', 'valid': {'any': product, 'names': [] if product else ['pixel_number']}, 'ext': rng.choice(['nc', 'nc', 'h5']), 'files': files}


def grid_case(rng):
    files = []
    for f in range(rng.choice([1, 1, 2])):
        coords = [{'dim': '%s%d' % (d, f), 'n': rng.choice([0, 1, 2, 3]), 'units': rng.choice(GRID_UNITS if rng.random() < 0.5 else ['degrees', 'm', 's'])} for d in 'xyw']
        vs = []
        for k in range(rng.randint(1, 4)):
            dims = [c['dim'] for c in coords]
            rng.shuffle(dims)
            vs.append({'name': 'v%d%d' % (f, k), 'dims': dims[:rng.randint(0, 3)]})
        files.append({'coords': coords, 'vars': vs})
    return {'kind': 'grid', 'files': files}


def hdf_case(rng):
    names = ['A_%d' % k for k in range(rng.randint(1, 4))]
    return {'kind': 'hdf', 'arrays': [n for n in names if rng.random() < 0.6], 'tables': ['T' + n for n in names if rng.random() < 0.6], 'type': rng.choice(['SD', 'VD', 'sd', 'vd']).upper(),
            'lower': rng.random() < 0.5, 'two': rng.random() < 0.3}


def summary_case(rng):
    coords = ['latitude', 'longitude'] + [c for c in ('time', 'altitude', 'air_pressure') if rng.random() < 0.5]
    vs = [{'name': n, 'units': rng.choice(['K', '1', 'm s-1'])} for n in ['v', 'w', 'AOD'][:rng.randint(1, 3)]]
    parts = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        n = rng.randint(1, 4)
        parts.append({'coords': [[rng.randint(0, 400000 * 8 // 3) if c == 'time' else rng.randint(-60, 60) for _ in range(n)] for c in coords],
                      'values': [[C.MASKED if rng.random() < 0.3 else rng.randint(-9, 9) for _ in range(n)] for _ in vs]})
    asked = list(range(1, len(vs) + 1))
    rng.shuffle(asked)
    return {'kind': 'summary', 'coords': coords, 'vars': vs, 'parts': parts, 'asked': asked[:rng.randint(1, len(asked))]}


def command(words):
    from cis.cis_main import info_cmd
    from cis.parse import parse_args
    b = io.StringIO()
    with contextlib.redirect_stdout(b), contextlib.redirect_stderr(io.StringIO()):
        info_cmd(parse_args(['info'] + words))
    return b.getvalue()


def printed_by(files, product, kind=None):
    from cis.info import info
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        info(files, None, product, kind)
    return b.getvalue()


def write_tree(path, vs):
    from netCDF4 import Dataset
    n = len(vs[0]['values'])
    with Dataset(path, 'w') as ds:
        for d, size in (('pixel_number', n), ('other', 2), ('pixel_x', 2), ('pixel_number2', 2)):
            ds.createDimension(d, size)
        for k, v in enumerate(vs):
            g = ds
            for name in v['path'][:-1]:
                g = g.groups[name] if name in g.groups else g.createGroup(name)
            if k % 3 == 2 and g is not ds and 'pixel_number' not in g.dimensions:
                g.createDimension('pixel_number', n)        # the group has one of its own
            x = g.createVariable(v['path'][-1], 'f8', tuple(v['dims']))
            x.units = '1'
            if v['path'] in (['latitude'], ['longitude']):
                x.standard_name, x.units = v['path'][0], 'degrees'
            a = np.array(v['values'], dtype=float)
            x[...] = a[0] if not v['dims'] else np.broadcast_to(a.reshape([n if d == 'pixel_number' else 1 for d in v['dims']]) if 'pixel_number' in v['dims'] else a[0], x.shape)
        ds.source = 'CIS1.7'


def tree(e):
    import cis
    from cis.data_io.products.AProduct import get_variables
    product = 'cis' if e['valid']['any'] else 'Aerosol_CCI_L2'
    k = next(COUNT)
    paths = [os.path.abspath('t%d_%d.%s' % (k, j, e['ext'])) for j in range(len(e['files']))]
    try:
        for p, vs in zip(paths, e['files']):
            write_tree(p, vs)
        got = [str(x).split('/') for x in get_variables(paths, product)]
        text = command([','.join(paths)]) if e['valid']['any'] and e['ext'] == 'nc' else printed_by(paths, product)
        printed = [l.split('/') for l in text.splitlines() if l]
        reads = []
        if e['valid']['any']:
            for v in e['files'][0]:
                there = [w for vs in e['files'] for w in vs if w['path'] == v['path'] and w['dims'] == ['pixel_number']]
                if len(there) == len(e['files']):
                    reads.append({'path': v['path'], 'values': C.enc_arr(cis.read_data(paths, '/'.join(v['path']), product).data, 1)})
        return {'outcome': 'ok', 'got': got, 'printed': printed, 'reads': reads}
    finally:
        for p in paths:
            os.path.exists(p) and os.remove(p)


def grid(e):
    from netCDF4 import Dataset
    from cis.data_io.products.AProduct import get_variables
    k = next(COUNT)
    paths = [os.path.abspath('g%d_%d.nc' % (k, j)) for j in range(len(e['files']))]
    try:
        for p, f in zip(paths, e['files']):
            with Dataset(p, 'w') as ds:
                for c in f['coords']:
                    ds.createDimension(c['dim'], c['n'] or 2)
                    if c['n']:
                        x = ds.createVariable(c['dim'], 'f8', (c['dim'],))
                        x[:] = np.arange(c['n']) * 1.0
                        if c['units'] != 'none':
                            x.units = c['units']
                for v in f['vars']:
                    x = ds.createVariable(v['name'], 'f8', tuple(v['dims']))
                    x.long_name = 'long ' + v['name']
                    x[...] = 1.0
        got = sorted(str(x) for x in get_variables(paths, 'NetCDF_Gridded'))
        printed = command([','.join(paths)]).split()
        return {'outcome': 'ok', 'got': got, 'printed': printed}
    finally:
        for p in paths:
            os.path.exists(p) and os.remove(p)


def hdf(e):
    from hdfbuild import Hdf
    from cis.data_io.products.AProduct import get_variables
    k = next(COUNT)
    paths = [os.path.abspath('h%d_%d.hdf' % (k, j)) for j in range(2 if e['two'] else 1)]
    kind = e['type'].lower() if e['lower'] else e['type']
    try:
        for j, p in enumerate(paths):
            f = Hdf(p)
            for n, name in enumerate(e['arrays']):
                if len(paths) == 1 or n % 2 == j:
                    f.array(name, [1, 2, 3], 'i2')
            for n, name in enumerate(e['tables']):
                if len(paths) == 1 or n % 2 == j:
                    f.table(name, [1, 2, 3], 'i4')
            f.close()
        names = e['arrays'] + e['tables']
        got = sorted(str(x) for x in get_variables(paths, 'cis', kind) if str(x) in names)
        printed = [x for x in printed_by(paths, 'cis', kind).split() if x in names]
        return {'outcome': 'ok', 'got': got, 'printed': printed}
    finally:
        for p in paths:
            os.path.exists(p) and os.remove(p)


def bound(s, time):
    """one end of a printed range"""
    if time:
        return [int(x) for x in re.findall(r'\d+', s.split('has_year')[0])][:6]
    return [C.enc(float(re.sub(r'^\w+\.\w+\(|\)$', '', s.strip())), 1)]


def report(text):
    m = re.search(r'^Ungridded data: (.*) / \((.*)\)', text)
    head, tail = text.split('Coordinates:', 1)
    out = {'name': m.group(1), 'units': m.group(2), 'coords': [],
           'shape': [int(x) for x in re.findall(r'\d+', re.search(r'Shape = \((.*)\)', head).group(1))],
           'points': int(re.search(r'Total number of points = (\d+)', head).group(1)),
           'present': int(re.search(r'Number of non-masked points = (\d+)', head).group(1))}
    for block in re.split(r'^ {7}(?=\S)', tail, flags=re.M)[1:]:
        name = block.splitlines()[0].strip()
        r = re.search(r'Range = \((.*)\)$', block, flags=re.M).group(1)
        if name == 'time':
            lo, hi = re.split(r'\), ', r) if 'cftime' in r else r.split(', ')
            out['coords'].append({'name': name, 'range': [dated(lo), dated(hi)]})
        else:
            lo, hi = r.split(', ')
            out['coords'].append({'name': name, 'range': [bound(lo, False), bound(hi, False)]})
    return out


def dated(s):
    f = [int(x) for x in re.findall(r'\d+', re.sub(r'has_year_zero.*', '', s))][:6]
    return f + [0] * (6 - len(f))


def summary(e):
    from cis.data_io.ungridded_data import UngriddedDataList
    k = next(COUNT)
    paths = [os.path.abspath('s%d_%d.nc' % (k, j)) for j in range(len(e['parts']))]
    try:
        for p, part in zip(paths, e['parts']):
            cs = [{'std': c, 'v': v, 'q': 8 if c == 'time' else 1} for c, v in zip(e['coords'], part['coords'])]
            ds = UngriddedDataList()
            for v, vals in zip(e['vars'], part['values']):
                ds.append(build.ungridded({'coords': cs, 'v': vals, 'm': [int(x == C.MASKED) for x in vals], 'name': v['name'], 'units': v['units'], 'long': v['name']}, q=1))
            ds.save_data(p)
        text = command([','.join(e['vars'][k - 1]['name'] for k in e['asked']) + ':' + ','.join(paths)])
        blocks = re.split(r'^(?=Ungridded data: )', text, flags=re.M)[1:]
        return {'outcome': 'ok', 'reports': [report(b) for b in blocks]}
    finally:
        for p in paths:
            os.path.exists(p) and os.remove(p)


def execute(e):
    return {'tree': tree, 'grid': grid, 'hdf': hdf, 'summary': summary}[e['kind']](e)


def nontrivial(rec):
    return rec['out']['outcome'] == 'ok' and (rec['kind'] == 'summary' or len(rec['out']['got']) > 0)
