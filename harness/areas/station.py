"""R06: rows of stations, flights, retrievals and text files; maps of periods."""
import datetime
import itertools
import os

import numpy as np

import common as C

JUDGE = 'JudgeStation'
GEN = ['GenStation']
SECONDS = 25
COUNT = itertools.count()
ABSENT, MISS = -88888888, -77777777
FILL = -9999.
TEXT = ('points', 'aeronet2', 'aeronet3', 'cruise')
AIR = ('flight', 'best', 'ship', 'station')


def models(tier):
    return [('MCStation', 'MCStation' if tier == 'quick' else 'MCStation_t')]


def moment(rng):
    return [rng.choice([1999, 2000, 2004, 2008, 2011, 2013]), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59)]


def random_cases(rng, tier):
    for _ in range(160 if tier == 'quick' else 3000):
        kind = rng.choice(TEXT + AIR + AIR + ('cloud', 'aerosol', 'l3aerosol', 'l3cloud'))
        if kind.startswith('l3'):
            yield month(rng, kind)
            continue
        gaps = rng.random() < 0.5
        hole = lambda x, p=0.12: MISS if gaps and rng.random() < p else x
        bins = [hole(rng.randint(0, 400), 0.1) for _ in range(rng.randint(1, 3))] if kind in AIR and rng.random() < 0.35 else []
        u, q = rng.choice([(86400, 1), (86400, 4), (3600, 1), (3600, 4), (60, 1), (60, 4), (1, 1)])
        if kind == 'cloud':
            q = rng.choice([1, 2, 8])
        files = []
        for k in range(rng.choice([1, 1, 2, 3])):
            rows = []
            for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
                if kind in TEXT:
                    t = moment(rng)
                elif kind == 'cloud':
                    t = [rng.randint(0, 5000 * q)]
                elif kind == 'aerosol':
                    t = [rng.randint(900000000, 1400000000)]
                else:
                    t = [rng.randint(-20 if rng.random() < 0.2 else 0, 4000)]
                if kind not in TEXT and hole(0) == MISS:
                    t = []
                fixed = kind in ('station', 'aeronet2')
                rows.append({'lat': 0 if fixed else hole(rng.randint(-360, 360)), 'lon': 0 if fixed else hole(rng.randint(-720, 1440)),
                             'z': hole(rng.randint(0, 8000)) if kind in ('points', 'flight', 'best', 'aeronet3') else 0,
                             'p': hole(rng.randint(400, 4000)), 't': t, 'v': [hole(rng.randint(-90, 4000), 0.2) for _ in range(max(1, len(bins)))]})
            files.append({'rows': rows, 'stamp': moment(rng), 'lat': rng.randint(-360, 360), 'lon': rng.randint(-720, 720), 'z': rng.randint(0, 8000)})
        lo = rng.randint(-90, 60) * 4 + 1
        yield finish({'kind': kind, 'files': files, 'bins': bins, 'pressure': rng.choice(['none', 'PRE', 'PSXC', 'both']) if kind in AIR else 'none', 'unit': u, 'q': q,
               'cut': [lo, lo + rng.choice([40, 160, 400])], 'tells': rng.choice(['number', 'words', 'words', 'nothing', 'unreadable']) if kind == 'station' else 'number',
               'look': rng.randint(0, 7), 'alone': rng.random() < 0.6, 'units': '' if kind not in AIR + ('cloud', 'aerosol') else 'K', 'listed': [], 'unlisted': []})


def finish(e):
    """what follows from the kind of file"""
    if e['kind'] in AIR:
        e['listed'], e['unlisted'] = ['v'], ['other']
    elif e['kind'] in ('aeronet2', 'aeronet3', 'cruise'):
        e['listed'] = [NAMES[e['look'] % 3][1]]
    elif e['kind'] == 'points':
        e['listed'] = ['value']
    if e['kind'] in ('aeronet2', 'aeronet3', 'cruise'):
        e['units'] = NAMES[e['look'] % 3][2]
    elif e['kind'] == 'points':
        e['units'] = 'unknown'
    return e


# in the file, as a variable, its units
NAMES = [('AOT_500', 'AOT_500', '1'), ('Water(cm)', 'Water(cm)', 'cm'), ('%Triplet[AOT]', 'TripletAOT', '1')]


def month(rng, kind):
    files, y = [], rng.choice([2003, 2008, 2010, 2012])
    lat, lon = sorted(rng.sample(range(-300, 300), rng.randint(2, 3))), sorted(rng.sample(range(-700, 700), rng.randint(2, 3)))
    for m in rng.sample(range(1, 13), rng.choice([1, 1, 2, 3])):
        end = [y, m, rng.choice([44, 27, 14]), rng.choice([23, 0]), rng.choice([59, 30]), rng.choice([58, 59, 0])]
        files.append({'from': [y, m, 1, rng.choice([0, 6]), 0, rng.choice([0, 1])], 'to': end, 'n': 4 * (datetime.date(y, m, rng.randint(2, 14)) - datetime.date(1970, 1, 1)).days + rng.randint(0, 3),
                      'v': [MISS if rng.random() < 0.15 else rng.randint(-90, 999) for _ in range(len(lat) * len(lon))]})
    return {'kind': kind, 'files': files, 'lat': lat, 'lon': lon, 'look': rng.randint(0, 7)}


# ------------------------------------------------------------------ files
def text(x, dot=3):
    return '' if x == MISS else '%.*f' % (dot, x / 4.)


def words(t, sep=':'):
    return '%02d%s%02d%s%04d' % (t[2], sep, t[1], sep, t[0]), '%02d:%02d:%02d' % tuple(t[3:])


def iso(t):
    return '%04d-%02d-%02d %02d:%02d:%02d' % tuple(t)


def write_text(e, f, path):
    kind, look = e['kind'], e['look']
    out = []
    if kind == 'points':
        for r in f['rows']:
            t = iso(r['t']) if look % 2 else iso(r['t']).replace(' ', 'T')
            out.append(','.join([text(r['lat']), text(r['lon']), text(r['z']), t, text(r['v'][0])]))
    else:
        name = NAMES[look % 3][0]
        first = look // 3 % 2
        val = lambda x: text(x, 6) if x != MISS else 'N/A' if kind == 'aeronet2' else '-10000' if kind == 'cruise' and look % 2 and not first else '-999.000000'
        cols = [name, 'Spare_1'] if first else ['Spare_1', name]
        values = lambda r: [val(r['v'][0]), '7.5'] if first else ['7.5', val(r['v'][0])]
        place = lambda r: [val(r['lat']), val(r['lon'])]
        if kind == 'aeronet2':
            out = ['Level 2.0. Quality Assured Data.<p>The following data are pre and post field calibrated', 'Version 2 Direct Sun Algorithm',
                   'Location=Here,long=%s,lat=%s,elev=%s,Nmeas=24,PI=Nobody,Email=x' % (f['lon'] / 4., f['lat'] / 4., f['z'] / 4.), 'AOD Level 2.0,All Points,UNITS can be found at,,, x',
                   ','.join(['Date(dd-mm-yy)', 'Time(hh:mm:ss)', 'Julian_Day'] + cols + ['Last_Processing_Date(dd/mm/yyyy)'])]
            tail = lambda r: ['03/04/2009']
            place = lambda r: []
        elif kind == 'aeronet3':
            out = ['AERONET Version 3; ' + ('SDA' if first else ''), 'Here', 'Version 3: AOD Level 2.0', 'The following data', 'Contact: PI=x; PI Email=y', 'UNITS can be found at,,, x',
                   ','.join(['Date(dd:mm:yyyy)', 'Time(hh:mm:ss)', 'Day_of_Year'] + cols + ['Site_Latitude(Degrees)', 'Site_Longitude(Degrees)', 'Site_Elevation(m)'])]
            tail = lambda r: [val(r['z'])]
        else:
            out = ['Maritime Aerosol Network (MAN) ' + ('SDA' if first else ''), 'Version', 'Level 1.5', 'Contact',
                   ','.join(['Date(dd:mm:yyyy)', 'Time(hh:mm:ss)', 'Air Mass'] + cols + ['Latitude', 'Longitude'])]
            tail = lambda r: []
        for r in f['rows']:
            out.append(','.join(list(words(r['t'])) + ['288.43'] + values(r) + place(r) + tail(r)))
    with open(path, 'w') as g:
        g.write('\n'.join(out) + '\n')


def column(nc, name, values, dims, scale=4., **attrs):
    v = nc.createVariable(name, attrs.pop('dtype', 'f8'), dims, fill_value=FILL)
    for k, x in attrs.items():
        setattr(v, k, x)
    v[:] = np.ma.masked_equal(np.array([FILL if x == MISS else x / scale for x in values], dtype=float), FILL).reshape(v.shape if len(dims) > 1 else -1)


UNIT = {86400: 'days', 3600: 'hours', 60: 'minutes', 1: 'seconds'}


def write_air(e, f, path):
    import netCDF4
    kind, look, rows = e['kind'], e['look'], f['rows']
    nc = netCDF4.Dataset(path, 'w')
    at = {'GASSP_Version': '1.0'} if look % 2 else {'Conventions': 'NCAR-RAF/nimbus', 'ConventionsVersion': '1.2'}
    n, m = len(rows), len(e['bins'])
    nc.createDimension('Time', n)
    nc.createDimension('elsewhere', n)
    if kind == 'best':
        at['Coordinates'] = 'LO LA AL Time'
    else:
        at['Time_Coordinate'] = 'Time'
        if kind == 'station':
            at['Station_Lat'] = '%s' % (f['lat'] / 4.) if look < 4 else '%s N' % (f['lat'] / 4.)
            at['Station_Lon'] = '%s' % (f['lon'] / 4.) if look < 4 else '%s E' % (f['lon'] / 4.)
            if e['tells'] != 'nothing':
                at['Station_Altitude'] = {'number': '%s' % (f['z'] / 4.), 'words': '%s m asl' % (f['z'] / 4.), 'unreadable': 'high up'}[e['tells']]
        else:
            at['Latitude_Coordinate'], at['Longitude_Coordinate'] = 'LA', 'LO'
            if kind == 'flight':
                at['Vertical_Coordinate'] = 'AL'
    stamped = look // 2 % 2
    if stamped:
        at['Time_Stamp_Info'] = iso(f['stamp'])
    for k, x in at.items():
        setattr(nc, k.upper() if look == 5 else k, x)
    unit = UNIT[e['unit']] + (' from the stamp' if stamped else ' since ' + iso(f['stamp']))
    if look // 4:
        nc.createVariable('flag', 'f8', ())[...] = 3.
    column(nc, 'other', [4] * n, ('elsewhere',))
    name = 'bins'
    if m:
        nc.createDimension('bins', m)
        if look % 3 == 0:
            column(nc, 'rates', [8] * (m * n), ('bins', 'elsewhere'))
        if look % 3 < 2:
            name = 'widths'
        column(nc, name, e['bins'], ('bins',), units='um')
    column(nc, 'Time', [MISS if not r['t'] else r['t'][0] for r in rows], ('Time',), float(e['q']), units=unit)
    if kind != 'station':
        column(nc, 'LA', [r['lat'] for r in rows], ('Time',), units='degrees_north')
        column(nc, 'LO', [r['lon'] for r in rows], ('Time',), units='degrees_east')
    if kind in ('flight', 'best'):
        column(nc, 'AL', [r['z'] for r in rows], ('Time',), units='m')
    if e['pressure'] in ('PRE', 'both'):
        column(nc, 'PRE', [r['p'] if e['pressure'] == 'PRE' or r['p'] == MISS else r['p'] + 40 for r in rows], ('Time',), units='hPa')
    if e['pressure'] in ('PSXC', 'both'):
        column(nc, 'PSXC', [r['p'] for r in rows], ('Time',), units='hPa')
    column(nc, 'v', sum([r['v'] for r in rows], []), ('Time', 'bins') if m else ('Time',), units='K')
    nc.close()


def write_cci(e, f, path):
    import netCDF4
    rows, look = f['rows'], e['look']
    nc = netCDF4.Dataset(path, 'w')
    nc.createDimension('pixel_number', len(rows))
    d = ('pixel_number',)
    lon, lat = ('lon', 'lat') if look % 2 else ('longitude', 'latitude')
    column(nc, lon, [r['lon'] for r in rows], d, standard_name='longitude', units='degrees_east', dtype='f4')
    column(nc, lat, [r['lat'] for r in rows], d, standard_name='latitude', units='degrees_north', dtype='f4')
    t = [MISS if not r['t'] else r['t'][0] for r in rows]
    if e['kind'] == 'cloud':
        column(nc, 'time', [x if x == MISS else x + 2451545 * e['q'] for x in t], d, float(e['q']), standard_name='time', units='Julian Date')
    else:
        column(nc, 'time', t, d, 1., standard_name='time', units='seconds since 1970-01-01')
    column(nc, 'v', [r['v'][0] for r in rows], d, units='K')
    nc.close()


def zulu(t):
    return ('%04d%02d%02dT%02d%02d%02dZ' % tuple(t)) if t[2] != 44 else '%04d%02d44T%02d%02d%02dZ' % (t[0], t[1], t[3], t[4], t[5])


def write_map(e, f, path, k):
    import netCDF4
    nc = netCDF4.Dataset(path, 'w')
    nc.time_coverage_start, nc.time_coverage_end, nc.id, nc.tracking_id = zulu(f['from']), zulu(f['to']), 'x%d' % k, 'y%d' % k
    cloud = e['kind'] == 'l3cloud'
    nc.createDimension('lat', len(e['lat']))
    nc.createDimension('lon', len(e['lon']))
    column(nc, 'lat', e['lat'], ('lat',), standard_name='latitude', units='degrees_north')
    column(nc, 'lon', e['lon'], ('lon',), standard_name='longitude', units='degrees_east')
    if cloud:
        nc.createDimension('time', 1)
        column(nc, 'time', [f['n']], ('time',), standard_name='time', units='days since 1970-01-01')
    column(nc, 'v', f['v'], ('time', 'lat', 'lon') if cloud else ('lat', 'lon'), units='K')
    nc.close()


# ------------------------------------------------------------------ what is read
def snap(x, tol=1e-3):
    x = np.ma.asarray(x)
    m = np.ma.getmaskarray(x).ravel()
    out = []
    for k, y in enumerate(np.asarray(x.data, dtype=float).ravel()):
        y = y * 4
        out.append(MISS if m[k] or not np.isfinite(y) else int(round(y)) if abs(y - round(y)) < tol else C.BAD)
    return out


def instants(x, per=1):
    """days since 1600 as [day, seconds]"""
    x = np.ma.asarray(x)
    m = np.ma.getmaskarray(x).ravel()
    out = []
    for k, y in enumerate(np.asarray(x.data, dtype=float).ravel()):
        if m[k] or not np.isfinite(y):
            out.append([])
            continue
        s = (y - np.floor(y)) * 86400 * per
        d, r = int(np.floor(y)), int(round(s))
        out.append([C.BAD, 0] if abs(s - r) > 0.02 else [d + r // (86400 * per), r % (86400 * per)])
    return out


def points(d, values=True):
    cs = {c.standard_name or c.name(): c for c in d.coords()}
    extra = [c for c in cs if c not in ('latitude', 'longitude', 'altitude', 'time', 'air_pressure')]
    col = {'lat': snap(cs['latitude'].data_flattened), 'lon': snap(cs['longitude'].data_flattened), 't': instants(cs['time'].data_flattened)}
    n = len(col['lat'])
    none = [ABSENT] * n
    for k, c in (('z', 'altitude'), ('p', 'air_pressure'), ('b', extra[0] if extra else None)):
        col[k] = snap(cs[c].data_flattened) if c in cs else none
    col['v'] = snap(d.data_flattened) if values else [0] * n
    if len(extra) > 1 or len(set(len(x) for x in col.values())) != 1:
        raise AssertionError('%s %s' % (extra, {k: len(x) for k, x in col.items()}))
    out = [{c: col[c][k] for c in col} for k in range(n)]
    for r in out:
        if r['lon'] not in (MISS, C.BAD):
            r['lon'] %= 1440
    return out


FILES = {'points': 'x%d.txt', 'aeronet2': 'x%d.lev20', 'aeronet3': 'x%d.lev15', 'cruise': 'x%d_all_points.lev20', 'cloud': 'x%d-ESACCI-L2_CLOUD-y.nc', 'aerosol': 'x%d-ESACCI-L2P_AEROSOL-y.nc',
         'l3aerosol': 'x%d-ESACCI-L3C_AEROSOL-y.nc', 'l3cloud': 'x%d-ESACCI-L3U_CLOUD-y.nc'}


def execute(e):
    import cis
    from cis.data_io.products.AProduct import get_coordinates, get_variables
    n, kind = next(COUNT), e['kind']
    paths = [os.path.abspath(FILES.get(kind, 'x%d.nc') % (1000 * n + k)) for k in range(len(e['files']))]
    for k, (p, f) in enumerate(zip(paths, e['files'])):
        if kind in TEXT:
            write_text(e, f, p)
        elif kind in AIR:
            write_air(e, f, p)
        elif kind.startswith('l3'):
            write_map(e, f, p, k)
        else:
            write_cci(e, f, p)
    try:
        if kind.startswith('l3'):
            d = cis.read_data(paths if len(paths) > 1 else paths[0], 'v')
            t = d.coord('time')
            ts, bs = instants(t.points, 2), t.bounds
            vals = np.ma.asarray(d.data).reshape((len(ts), -1))
            return {'outcome': 'ok', 'lat': snap(d.coord('latitude').points), 'lon': snap(d.coord('longitude').points),
                    'sheets': [{'t': ts[k], 'lo': instants(bs[k][0], 2)[0], 'hi': instants(bs[k][1], 2)[0], 'v': snap(vals[k])} for k in range(len(ts))]}
        var = 'value' if kind == 'points' else NAMES[e['look'] % 3][1] if kind in TEXT else 'v'
        d = cis.read_data(paths, var)
        out = {'outcome': 'ok', 'pts': points(d), 'units': str(d.units), 'alone': []}
        s = d.subset(latitude=[(e['cut'][0] + 0.5) / 4., (e['cut'][1] + 0.5) / 4.])
        out['sub'] = points(s) if s is not None else []
        if e['alone']:
            out['alone'] = points(get_coordinates(paths), False)
        out['listed'] = sorted(str(x) for x in get_variables(paths))
        return out
    finally:
        for p in paths:
            os.remove(p)


def nontrivial(rec):
    return rec['out']['outcome'] == 'ok' and (len(rec['out'].get('pts', ())) > 1 or 'sheets' in rec['out'])
