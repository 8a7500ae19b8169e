"""Turning specification-level descriptions (integers) into real cis objects, and back."""
import zlib

import numpy as np

import common as C

UNITS = {'latitude': 'degrees', 'longitude': 'degrees', 'altitude': 'm', 'air_pressure': 'Pa',
         'time': 'days since 1600-01-01 00:00:00'}
AXIS = {'latitude': 'Y', 'longitude': 'X', 'altitude': 'Z', 'air_pressure': 'Z', 'time': 'T'}


def t_unit():
    from cis.time_util import cis_standard_time_unit
    return cis_standard_time_unit


def std_units(std):
    return t_unit() if std == 'time' else UNITS.get(std, '1')


def lay(a, key):
    """the same array held in memory in another way; which one follows from the contents"""
    k = zlib.crc32(repr(key).encode()) % 8
    if a.ndim == 0 or k == 0 or k == 1 and a.ndim < 2:
        return a
    if k in (1, 2):
        return np.ma.array(np.asfortranarray(a.data), mask=np.asfortranarray(np.ma.getmaskarray(a))) if np.ma.isMA(a) else np.asfortranarray(a)
    if k == 3:
        return np.repeat(a, 2, axis=0)[::2] if not np.ma.isMA(a) else np.ma.array(np.repeat(a.data, 2, axis=0)[::2], mask=np.ma.getmaskarray(a))
    if k == 4:
        return a[::-1].copy()[::-1]
    if k == 5 and not np.ma.isMA(a):
        return np.ma.array(a)
    if k == 6 and not np.ma.isMA(a):
        return np.ma.array(a, mask=np.zeros(a.shape, dtype=bool))
    return a


def marr(ints, mask, shape, scale=1, dtype=float, fill=None):
    """integers/scale as an array; a masked array when mask is not empty"""
    a = np.array([v / scale if scale != 1 else v for v in ints], dtype=dtype).reshape(shape)
    if mask:
        m = np.array(mask, dtype=bool).reshape(shape)
        a = np.ma.array(a, mask=m)
    a = lay(a, ints)
    if mask and fill is not None:
        a.fill_value = fill
    return a


class Part(object):
    """a data manager: what a product hands over before anything has been read"""
    def __init__(self, values):
        self.values = values

    def split(self, n):
        """the managers of n files whose contents concatenate to these values"""
        v, rows = self.values, len(self.values)
        cuts = [rows * k // n for k in range(n + 1)]
        return [Part(v[a:b]) for a, b in zip(cuts, cuts[1:])]


def read_part(p):
    return p.values.copy()


def ug_coords(d, q=4, lazy=0):
    from cis.data_io.Coord import Coord, CoordList
    from cis.data_io.ungridded_data import Metadata
    shape = d.get('shape') or [len(d['v'])]
    coords = CoordList()
    for c in d['coords']:
        vals = np.array([float('nan') if v == C.NAN else v / c.get('q', q) for v in c['v']]).reshape(shape)
        if c.get('m'):
            vals = np.ma.array(vals, mask=np.array(c['m'], dtype=bool).reshape(shape))
        vals = lay(vals, c['v'])
        coords.append(Coord(vals if not lazy else Part(vals).split(lazy),
                            Metadata(name=c.get('name', c['std']), standard_name=c['std'],
                                     units=c.get('units', std_units(c['std']))),
                            AXIS.get(c['std'], ''), read_part if lazy else None))
    return coords


def ungridded(d, q=4, vs=1, name='x', std=None, units='1', coords=None, lazy=0):
    """d = {shape, coords: [{std, v, (m)}], v, (m), (name)}"""
    from cis.data_io.Coord import Coord, CoordList
    from cis.data_io.ungridded_data import UngriddedData, Metadata
    shape = d.get('shape') or [len(d['v'])]
    if coords is None:
        coords = ug_coords(d, q, lazy)
    data = marr(d['v'], d.get('m'), shape, vs, dtype=d.get('dtype', 'float64'))
    meta = Metadata(name=d.get('name', name), standard_name=d.get('stdname', std), long_name=d.get('long', 'long x'),
                    units=d.get('units', units), history=d.get('history', ''))
    return UngriddedData(data if not lazy else Part(data).split(lazy), meta, coords, read_part if lazy else None)


def coords_only(d, q=4):
    from cis.data_io.Coord import Coord, CoordList
    from cis.data_io.ungridded_data import UngriddedCoordinates, Metadata
    shape = d.get('shape') or [len(d['coords'][0]['v'])]
    coords = CoordList()
    for c in d['coords']:
        vals = np.array([float('nan') if v == C.NAN else v / c.get('q', q) for v in c['v']]).reshape(shape)
        if c.get('m'):
            vals = np.ma.array(vals, mask=np.array(c['m'], dtype=bool).reshape(shape))
        coords.append(Coord(lay(vals, c['v']), Metadata(name=c['std'], standard_name=c['std'], units=std_units(c['std'])),
                            AXIS.get(c['std'], '')))
    return UngriddedCoordinates(coords)


def snap_ug(u, q=4, vs=1, rounded=False):
    """Observed ungridded data: per point values (masked -> MASKED), coordinate values by standard name, name, units."""
    coords = []
    for c in u.coords():
        cq = q.get(c.standard_name, 4) if isinstance(q, dict) else q
        coords.append({'std': str(c.standard_name or c.name()), 'v': C.enc_arr(c.data, cq)})
    coords.sort(key=lambda c: c['std'])
    return {'v': C.enc_arr(u.data, vs, rounded), 'coords': coords}


def cube(d, q=4, vs=1, name='x', units='1', cls=None):
    """d = {dims: [std...], axes: {std: {pts, (bnds: flat lo,hi,lo,hi)}}, (circ), (aux: [{std, dims:[std..], v}]), v, (m)}"""
    import iris.coords
    from cis.data_io.gridded_data import GriddedData
    cls = cls or GriddedData
    shape = [len(a['pts']) for a in d['axes']]
    data = marr(d['v'], d.get('m'), shape, vs, dtype=d.get('dtype', 'float64'))
    dcs, names = [], []
    for k, a in enumerate(d['axes']):
        pts = np.array([p / a.get('q', q) for p in a['pts']])
        bnds = None
        if a.get('bnds'):
            bnds = np.array([p / a.get('q', q) for p in a['bnds']]).reshape(len(pts), 2)
        std = a['std']
        kw = dict(standard_name=std, var_name=a.get('var', {'latitude': 'lat', 'longitude': 'lon', 'air_pressure': 'pres'}.get(std, std)),
                  units=a.get('units', std_units(std)), bounds=bnds)
        c = iris.coords.DimCoord(pts, circular=bool(a.get('circ', 0)), **kw)
        dcs.append((c, k))
        names.append(std)
    aux = []
    for a in d.get('aux', []):
        dims = [names.index(s) for s in a['dims']]
        v = np.array([p / a.get('q', q) for p in a['v']]).reshape([shape[k] for k in dims])
        kw = dict(var_name=a['var'], units=a.get('units', '1'))
        if a.get('std'):
            kw['standard_name'] = a['std']
        else:
            kw['long_name'] = a['var']
        if not dims:
            v = v.reshape(())
        if a.get('b'):
            kw['bounds'] = np.array([p / a.get('q', q) for p in a['b']]).reshape(v.shape + (2,))
        aux.append((iris.coords.AuxCoord(v, **kw), tuple(dims)))
    g = cls(data, long_name=d.get('long', 'long x'), var_name=d.get('name', name), units=d.get('units', units),
            dim_coords_and_dims=dcs, aux_coords_and_dims=aux)
    if d.get('stdname'):
        g.standard_name = d['stdname']
    return g


def snap_gd(g, q=4, vs=1, rounded=False, aux=True):
    """Observed gridded data."""
    axes = []
    for k in range(g.ndim):
        cs = [c for c in g.coords(dim_coords=True) if g.coord_dims(c) == (k,)]
        if not cs:
            axes.append({'std': '?', 'pts': [], 'bnds': []})
            continue
        c = cs[0]
        cq = q.get(c.name(), 4) if isinstance(q, dict) else q
        axes.append({'std': str(c.name()), 'pts': C.enc_arr(c.points, cq),
                     'bnds': C.enc_arr(c.bounds, cq) if c.has_bounds() else []})
    auxs = []
    if aux:
        for c in g.coords(dim_coords=False):
            auxs.append({'std': str(c.name()), 'dims': [int(x) + 1 for x in g.coord_dims(c)],
                         'v': C.enc_arr(c.points, q.get(c.name(), 4) if isinstance(q, dict) else q)})
        auxs.sort(key=lambda a: a['std'])
    return {'axes': axes, 'aux': auxs, 'v': C.enc_arr(g.data, vs, rounded), 'shape': [int(s) for s in g.shape]}
