"""V01: what a plot shows."""
import datetime
import itertools
import os

import numpy as np

import build
import common as C
from areas.stats import rat

JUDGE = 'JudgePlot'
GEN = ['GenPlot']
SECONDS = 80
ABSENT = -88888888
COUNT = itertools.count()
DAY0 = (datetime.date(1970, 1, 1) - datetime.date(1600, 1, 1)).days
D1990 = (datetime.date(1990, 1, 1) - datetime.date(1600, 1, 1)).days
Q = 8
DEEP = ('heatmap', 'contour', 'contourf', 'scatter2d')
PAIR = ('comparativescatter', 'histogram2d')


def models(tier):
    return [('MCPlot', 'MCPlot' if tier == 'quick' else 'MCPlot_t')]


# ------------------------------------------------------------------ cases
def blank(**kw):
    e = {'call': 'basic', 'how': '', 'layers': [], 'xaxis': '', 'yaxis': '', 'xbins': 10, 'ybins': 10, 'lims': [ABSENT] * 4, 'xstep': ABSENT, 'ystep': ABSENT,
         'size': [ABSENT, ABSENT], 'title': '', 'xlabel': '', 'ylabel': '', 'logx': 0, 'logy': 0, 'logv': 0, 'vlims': [ABSENT, ABSENT], 'vstep': ABSENT,
         'levels': [], 'bar': True, 'nopts': ABSENT, 'many': False, 'tunit': 0, 'extend': 0, 'fold': False, 'gammamax': ABSENT}
    e.update(kw)
    return e


def layer(kind, shape, coords, v, m=(), **kw):
    d = {'kind': kind, 'shape': shape, 'coords': coords, 'v': v, 'm': list(m), 'name': 'v', 'long': '', 'units': 'K', 'how': '', 'label': '', 'style': ''}
    d.update(kw)
    return d


def coord(std, v, edges=(), dim=1):
    return {'std': std, 'v': list(v), 'edges': list(edges), 'dim': dim}


RANGE = {'latitude': (-70, 70), 'longitude': (-180, 360), 'altitude': (0, 9000), 'air_pressure': (100, 100000), 'surface_altitude': (1, 2000)}


def axis(rng, std, n, order=True):
    if std == 'time':
        a = 8 * (D1990 + rng.randint(-20000, 12000)) + rng.randint(0, 7)
        s = [a + 2 * x for x in rng.sample(range(0, rng.choice([40, 400, 4000])), n)]
    else:
        lo, hi = RANGE[std]
        if std == 'longitude':
            lo = rng.choice([-180, 0, -60, 10])
            hi = lo + rng.choice([60, 180, 355])
        s = [8 * x for x in rng.sample(range(lo, hi), n)]
        if rng.random() < 0.3:
            s = [x + 2 * rng.randint(0, 3) for x in s]
    if order:
        s.sort()
        if rng.random() < 0.3 and std != 'time':
            s.reverse()
    return s


def around(rng, n):
    """longitudes which go all the way round"""
    a, s = rng.choice([0, 0, -180, 10]), 360 // n
    v = [8 * (a + s * k) for k in range(n)]
    return v[::-1] if rng.random() < 0.3 else v


def values(rng, n, low=-90):
    return [rng.randint(low, 400) for _ in range(n)]


def mask(rng, n, p=0.4):
    if rng.random() > p:
        return []
    m = [int(rng.random() < 0.25) for _ in range(n)]
    if sum(m) > n - 2:
        m[0] = m[-1] = 0
    return m


def words(rng, k=0):
    return {'name': rng.choice(['v', 'q', 'AOT550']) + ('' if not k else str(k)), 'long': rng.choice(['', 'A long name%d' % k]), 'units': rng.choice(['K', '1', 'kg m-3']),
            'label': rng.choice(['', '', 'Label %d' % k])}


def points(rng, stds, n, low=-90, k=0, axes=None):
    return layer('points', [n], axes or [coord(s, axis(rng, s, n, False)) for s in stds], values(rng, n, low), mask(rng, n), **words(rng, k))


def grid(rng, stds, low=-90, k=0, ones=True, aux=True, world=0.4, sizes=(2, 3, 4, 5)):
    shape, cs, extra = [], [], []
    dims = list(stds)
    if ones and rng.random() < 0.25:
        rest = [s for s in ('latitude', 'longitude', 'time', 'air_pressure') if s not in stds]
        if rest:
            dims.insert(rng.randint(0, len(dims)), rng.choice(rest))
    for j, s in enumerate(dims):
        if s not in stds:
            n = 1
            cs.append(coord(s, axis(rng, s, 1), (), j + 1))
        else:
            n = rng.choice(sizes)
            v = around(rng, 4 if rng.random() < 0.5 else 6) if s == 'longitude' and rng.random() < world else axis(rng, s, n)
            n = len(v)
            edges = []
            if rng.random() < 0.25 and s != 'longitude':
                # the edges of cells which are not half way
                up = v[1] > v[0]
                edges = [v[0] - (16 if up else -16)] + [v[i] + (v[i + 1] - v[i]) // 4 for i in range(n - 1)] + [v[-1] + (8 if up else -8)]
            cs.append(coord(s, v, edges, j + 1))
            if aux and rng.random() < 0.15 and not extra and s != 'air_pressure':
                extra.append(coord('surface_altitude', axis(rng, 'surface_altitude', n), (), j + 1))
        shape.append(n)
    n = int(np.prod(shape))
    return layer('grid', shape, cs + extra, values(rng, n, low), mask(rng, n), **words(rng, k))


def pickname(rng, d, but=()):
    wide = [c['std'] for c in d['coords'] if len(c['v']) > 1 and c['std'] not in but]
    return rng.choice(wide)


def random_cases(rng, tier):
    for _ in range(300 if tier == 'quick' else 6000):
        e = blank(call=rng.choice(['basic', 'basic', 'multi', 'plotter', 'plotter', 'command']), tunit=rng.choice([0, 0, 1]))
        what = rng.choice(['flat', 'flat', 'dots', 'one', 'mesh', 'mesh', 'mesh', 'hist', 'pair', 'pair', 'taylor', 'taylor', 'mixed', 'over', 'refused'])
        low = -90
        if what in ('flat', 'hist', 'dots') and e['call'] == 'plotter' and rng.random() < 0.25:
            low = 1
        many = rng.choice([1, 2, 3]) if e['call'] != 'basic' else 1
        stds = rng.choice([['latitude', 'longitude', 'time'], ['longitude', 'latitude', 'altitude', 'time'], ['latitude', 'longitude', 'time', 'air_pressure']])
        if e['call'] != 'command' and rng.random() < 0.3:
            stds = rng.choice([['time', 'altitude'], ['altitude', 'air_pressure'], ['latitude', 'altitude', 'time'], ['time']])
        n = rng.randint(2, 7)
        if what == 'flat':
            e['how'] = rng.choice(['line', 'scatter'])
            e['layers'] = [points(rng, stds, rng.randint(2, 7), low, k) for k in range(many)]
            e['xaxis'] = rng.choice(['', rng.choice(stds)])
            if len(stds) > 1 and rng.random() < 0.4:
                e['xaxis'] = rng.choice(stds)
                e['yaxis'] = rng.choice([s for s in stds if s != e['xaxis']])
            elif e['how'] == 'line' and not ('longitude' in stds and 'latitude' in stds and e['xaxis'] in ('', 'longitude')) and rng.random() < 0.5:
                e['how'] = ''
        elif what == 'dots':
            e['layers'] = [points(rng, stds, rng.randint(2, 7), low, k) for k in range(many)]
            e['how'] = 'scatter2d'
            if 'longitude' in stds and 'latitude' in stds and rng.random() < 0.6:
                e['how'] = rng.choice(['', 'scatter2d'])
            elif len(stds) > 1:
                e['xaxis'], e['yaxis'] = rng.sample(stds, 2)
            else:
                e['xaxis'] = e['yaxis'] = stds[0]
        elif what == 'one':
            s = rng.choice(['latitude', 'longitude', 'time', 'air_pressure'])
            e['layers'] = [grid(rng, [s], low, k, aux=False) for k in range(many)]
            e['how'] = rng.choice(['', 'line', 'scatter'])
            if rng.random() < 0.3:
                e['xaxis'] = s
        elif what == 'mesh':
            s = rng.sample(['latitude', 'longitude', 'time', 'air_pressure'], 2)
            if rng.random() < 0.4:
                s = rng.choice([['latitude', 'longitude'], ['longitude', 'latitude']])
            sizes = rng.choice([(2, 3, 4, 5), (3,), (4,)])
            e['layers'] = [grid(rng, s, low, 0, sizes=sizes, world=0.4 if len(sizes) > 1 else 0)]
            e['how'] = rng.choice(['', 'heatmap', 'contour', 'contourf', 'scatter2d'])
            name(rng, e)
            if e['how'].startswith('contour') and rng.random() < 0.5:
                if rng.random() < 0.5:
                    e['levels'] = sorted(rng.sample(range(-100, 400), rng.randint(2, 5)))
                else:
                    e['vstep'] = rng.choice([16, 40, 100])
                    if rng.random() < 0.5:
                        e['vlims'] = [rng.randint(-100, 0), rng.randint(50, 300)]
        elif what == 'hist':
            e['how'] = 'histogram'
            e['layers'] = [points(rng, stds, rng.randint(1, 12), low, k) if rng.random() < 0.6 else grid(rng, ['latitude', 'longitude'][:rng.randint(1, 2)], low, k) for k in range(many)]
            e['xbins'] = rng.choice([1, 2, 4, 8, 16, 10])
            for d in e['layers']:
                tidy(rng, d, e['xbins'])
                d['style'] = rng.choice(['', 'bar', 'step', 'stepfilled'])
        elif what in ('pair', 'taylor'):
            e['how'] = rng.choice(['comparativescatter', 'histogram2d']) if what == 'pair' else 'taylor'
            if what == 'pair' and e['call'] == 'basic':
                e['call'] = 'against'
                e['how'] = rng.choice(['', 'comparativescatter', 'histogram2d'])
            elif e['call'] == 'basic':
                e['call'] = 'multi'
            g = rng.random() < 0.4
            size = 2 if what == 'pair' else rng.choice([2, 3])
            first = grid(rng, ['latitude', 'longitude'], world=0, aux=False, sizes=(2, 3)) if g else points(rng, stds, rng.randint(3, 8) if what == 'pair' else rng.randint(3, 6))
            e['layers'] = [first]
            for k in range(1, size):
                v = values(rng, len(first['v']))
                e['layers'].append(dict(first, v=v, m=mask(rng, len(v)), **words(rng, k)))
            e['xbins'], e['ybins'] = rng.choice([1, 2, 4, 8, 10]), rng.choice([1, 2, 4, 10])
            if e['how'] == 'histogram2d':
                a, b = e['layers']
                tidy(rng, a, e['xbins'])
                tidy(rng, b, e['ybins'])
                both = [j for j in range(len(a['v'])) if not (a['m'] and a['m'][j]) and not (b['m'] and b['m'][j])]
                if not both:
                    a['m'] = b['m'] = []
                if g or a['kind'] == 'grid' and len(both) < 2:
                    pass
            elif what == 'taylor':
                base = first['v']
                for d in e['layers']:
                    if rng.random() < 0.7:
                        d['m'] = []
                    d['v'] = [x % 7 * 8 for x in d['v']]
                if not usable(e['layers']):
                    continue
                if rng.random() < 0.6:
                    e['extend'] = rng.choice([0, 0, -2, -4, -7, -8])
                    e['fold'] = rng.random() < 0.5
                    e['gammamax'] = rng.choice([ABSENT, ABSENT, 9, 12, 20])
        elif what == 'mixed':
            # different kinds of layer on the same axes
            if e['call'] == 'basic':
                e['call'] = 'plotter'
            if rng.random() < 0.5:
                a = grid(rng, rng.choice([['latitude', 'longitude'], ['longitude', 'latitude']]), aux=False, ones=False)
                b = dict(a, v=values(rng, len(a['v'])), m=[], **words(rng, 1))
                e['layers'] = [dict(a, how=rng.choice(['', 'heatmap', 'contourf'])), dict(b, how=rng.choice(['', 'contour', 'heatmap']))]
                if rng.random() < 0.5:
                    e['layers'].append(dict(points(rng, ['longitude', 'latitude', 'time'], 4, k=2), how=rng.choice(['', 'scatter2d'])))
                rng.shuffle(e['layers'])
            else:
                e['layers'] = [dict(points(rng, ['latitude', 'longitude', 'time'], rng.randint(2, 5), k=k), how=rng.choice(['line', 'scatter'])) for k in range(rng.randint(1, 3))]
                e['how'] = rng.choice(['', 'line', 'scatter'])
                e['xaxis'] = rng.choice(['latitude', 'time'])
        elif what == 'over':
            # the same kind of map twice
            e['how'] = rng.choice(['heatmap', 'contour', 'scatter2d'])
            e['layers'] = [grid(rng, ['latitude', 'longitude'], k=k, aux=False) for k in range(many)]
            for d in e['layers']:
                d['how'] = rng.choice(['', 'contourf', 'heatmap'])
        else:
            e['layers'] = [points(rng, ['latitude', 'longitude', 'time'], 4, k=k) for k in range(rng.randint(1, 3))]
            e['call'] = rng.choice(['basic', 'multi', 'against', 'plotter'])
            e['how'] = rng.choice(['', 'scatter3d', 'line', 'histogram', 'heatmap2', 'comparativescatter', 'histogram2d', 'scatter'])
            if e['call'] == 'against':
                e['layers'] = e['layers'][:1] * 2
                e['how'] = rng.choice(['scatter', 'line', 'heatmap', 'histogram', 'scatter2d'])
            elif e['how'] in PAIR and len(e['layers']) == 1:
                e['how'] = 'heatmap2'
            elif e['call'] == 'basic':
                e['layers'] = e['layers'][:1]
                e['how'] = rng.choice(['scatter3d', 'Line', 'histogram', 'line'])
                if rng.random() < 0.3:
                    d = grid(rng, ['time', 'latitude', 'longitude'], aux=False, ones=False, world=0)
                    e.update(layers=[d], how='')
            if e['how'] in ('line', 'histogram'):
                for d in e['layers']:
                    d['style'] = rng.choice(['dotted', 'wavy', 'bar', 'step', ''])
                    tidy(rng, d, 10)
            elif e['how'] in PAIR:
                e['xbins'], e['ybins'] = 2, 4
            if e['call'] == 'multi' and rng.random() < 0.4:
                e['nopts'] = rng.choice([1, 2, 4])
                e['layers'] = [dict(d, label='', style='') for d in e['layers']]
        if len(e['layers']) > 1 and e['call'] == 'basic':
            e['call'] = 'plotter'
        if e['call'] == 'multi' and e['layers'][0]['kind'] == 'grid' and any(d['kind'] != 'grid' for d in e['layers']):
            e['call'] = 'plotter'
        e['many'] = e['call'] == 'multi' or len(e['layers']) > 1
        if e['call'] == 'command':
            for k, d in enumerate(e['layers']):
                d['name'] = d['name'].rstrip('0123') + 'abc'[k]
                d['style'] = d['style'] if e['how'] in ('line', 'histogram') else ''
        frame(rng, e, what, low)
        yield e


def name(rng, e):
    d = e['layers'][0]
    dims = {c['std']: c['dim'] for c in d['coords']}
    if rng.random() < 0.5:
        e['xaxis'] = pickname(rng, d)
        if rng.random() < 0.6:
            other = [c['std'] for c in d['coords'] if len(c['v']) > 1 and dims[c['std']] != dims[e['xaxis']]]
            e['yaxis'] = rng.choice(other)
    elif rng.random() < 0.4:
        e['yaxis'] = pickname(rng, d)


def tidy(rng, d, n):
    """the edges of n bins are exact"""
    m = d['m']
    here = [k for k in range(len(d['v'])) if not (m and m[k])]
    if not here:
        d['m'] = []
        here = list(range(len(d['v'])))
    if n & (n - 1):
        lo = min(d['v'][k] for k in here)
        d['v'] = [lo + (x - lo) // n * n for x in d['v']]
        top = max(d['v'][k] for k in here)
        d['v'] = [min(x, top) for x in d['v']]


def usable(layers):
    r = layers[0]
    ok = lambda d, j: not (d['m'] and d['m'][j])
    for d in layers:
        both = [j for j in range(len(r['v'])) if ok(r, j) and ok(d, j)]
        if len(both) < 2 or len({r['v'][j] for j in both}) < 2 or len({d['v'][j] for j in both}) < 2:
            return False
    return True


def frame(rng, e, what, low):
    """limits, steps, sizes, words"""
    d = e['layers'][0]
    if rng.random() < 0.3 and what in ('dots', 'mesh', 'over', 'mixed') and (e['how'] in DEEP or all(x['how'] in DEEP for x in e['layers'])):
        e['bar'] = False
    if e['how'] == 'histogram2d' and rng.random() < 0.3:
        e['bar'] = False
    if what in ('dots', 'mesh') and e['how'] in ('heatmap', 'scatter2d') and rng.random() < 0.3:
        e['vlims'] = [rng.choice([ABSENT, rng.randint(-50, 20)]), rng.choice([ABSENT, rng.randint(100, 300)])]
    if what in ('dots', 'mesh') and low == 1 and e['how'] == 'scatter2d':
        e['logv'] = 1
        e['vlims'] = [ABSENT, ABSENT]
    if e['call'] not in ('plotter', 'command'):
        return
    if rng.random() < 0.3:
        e['size'] = [rng.choice([ABSENT, 8, 4, 12]), rng.choice([ABSENT, 3, 6, 9])]
    if rng.random() < 0.3:
        e['title'] = 'A title'
    if rng.random() < 0.2 and what != 'taylor':
        e['xlabel'] = 'Along'
    if rng.random() < 0.2 and what != 'taylor':
        e['ylabel'] = 'Up'
    if what in ('taylor', 'refused', 'pair') or e['call'] == 'command' and what == 'hist':
        return
    bounds = what == 'mesh' or what == 'over'
    if low == 1 and what in ('flat',) and e['yaxis'] == '' and rng.random() < 0.7:
        e['logy'] = 1
        return
    if rng.random() < 0.5:
        # the extent of what is drawn, roughly
        def extent(a):
            c = guess(e, d, a)
            if c is None:
                v = [x for x in d['v']]
                return min(v), max(v), None
            return min(c['v']), max(c['v']), c['std']
        for a, k in (('X', 0), ('Y', 2)):
            lo, hi, std = extent(a)
            if what == 'hist' and a == 'Y':
                lo, hi, std = 0, 80, None
            elif what == 'hist':
                lo, hi, std = min(d['v']), max(d['v']), None
            elif a == 'Y' and e['yaxis'] == '' and e['how'] in ('line', 'scatter', '') and std is not None and what in ('flat', 'one', 'mixed') :
                lo, hi, std = min(d['v']), max(d['v']), None
            real = axis_of(e, d, a)
            if (real and real['std']) != std:
                # limits of something else say nothing
                continue
            pad = max(8, (hi - lo) // 4) // 2 * 2
            a1, a2 = lo + rng.choice([-pad, 0, pad // 2]), hi + rng.choice([pad, 0, 1 - pad // 2])
            if std in ('latitude',):
                a1, a2 = max(a1, -640), min(a2, 640)
            if std == 'longitude':
                a1, a2 = max(a1, -1440), min(a2, 2880)
            if std == 'time' and e['call'] == 'command':
                a1, a2 = a1 // 8 * 8, a2 // 8 * 8
            if a1 >= a2:
                continue
            if rng.random() < 0.7:
                e['lims'][k] = a1
            if rng.random() < 0.7:
                e['lims'][k + 1] = a2
            if rng.random() < 0.4 and ABSENT not in e['lims'][k:k + 2] and 'map' != std:
                e['xstep' if k == 0 else 'ystep'] = max(1, (a2 - a1) // rng.choice([2, 3, 5]))
                if std == 'time':
                    e['xstep' if k == 0 else 'ystep'] = 8 * max(1, (a2 - a1) // 24)


def guess(e, d, a):
    """roughly which coordinate is on an axis: only to choose limits near the data"""
    n = e['xaxis' if a == 'X' else 'yaxis']
    n = n or ('longitude' if a == 'X' else 'latitude')
    c = [c for c in d['coords'] if c['std'] == n and len(c['v']) > 1]
    if not c:
        o = e['yaxis' if a == 'X' else 'xaxis']
        c = [c for c in d['coords'] if len(c['v']) > 1 and c['std'] != o]
    if a == 'Y' and e['yaxis'] == '' and d['kind'] == 'points' and e['how'] != 'scatter2d':
        return None
    return c[0] if c else None


# ------------------------------------------------------------------ making the data
def tvals(c, e, v):
    """numbers and units of a time coordinate"""
    if e['tunit'] == 1:
        return [3 * (x - 8 * D1990) for x in v], 1, 'hours since 1990-01-01 00:00:00'
    return v, Q, None


def make(e, d, only=None):
    cs = []
    for c in d['coords']:
        v, q, u = tvals(c, e, c['v']) if c['std'] == 'time' and e['call'] != 'command' else (c['v'], Q, None)
        r = {'std': c['std'], 'q': q, 'v': v, 'pts': v}
        if u:
            from cf_units import Unit
            r['units'] = Unit(u, calendar='standard')
        elif c['std'] == 'surface_altitude':
            r['units'] = 'm'
        if c['edges']:
            b = tvals(c, e, c['edges'])[0] if c['std'] == 'time' and e['call'] != 'command' else c['edges']
            r['bnds'] = [x for k in range(len(b) - 1) for x in (b[k], b[k + 1])]
        r['dim'] = c['dim']
        cs.append(r)
    if d['kind'] == 'points':
        return build.ungridded({'v': d['v'], 'm': d['m'], 'coords': cs, 'name': d['name'], 'long': d['long'], 'units': d['units']}, q=Q, vs=Q)
    axes = [c for c in cs if c['std'] != 'surface_altitude']
    aux = [{'std': c['std'], 'var': 'orog', 'units': 'm', 'dims': [axes[c['dim'] - 1]['std']], 'v': c['v']} for c in cs if c['std'] == 'surface_altitude']
    g = build.cube({'axes': axes, 'aux': aux, 'v': d['v'], 'm': d['m'], 'name': d['name'], 'long': d['long'] or None, 'units': d['units']}, q=Q, vs=Q)
    return g


def snap(x):
    return build.snap_gd(x, Q, Q) if hasattr(x, 'coord_dims') else build.snap_ug(x, Q, Q)


# ------------------------------------------------------------------ watching matplotlib
class Watch(object):
    """the grids which are handed to the axes, outermost call only"""
    METHODS = ('pcolormesh', 'pcolor', 'contour', 'contourf')

    def __enter__(self):
        import matplotlib.axes as ma
        from cartopy.mpl.geoaxes import GeoAxes
        self.calls, self.depth, self.saved = [], 0, []
        for cls in (ma.Axes, GeoAxes):
            for m in self.METHODS:
                if m in cls.__dict__:
                    self.saved.append((cls, m, cls.__dict__[m]))
                    setattr(cls, m, self.wrap(m, cls.__dict__[m]))
        return self

    def wrap(self, m, f):
        def method(ax, *args, **kw):
            self.depth += 1
            try:
                r = f(ax, *args, **kw)
            finally:
                self.depth -= 1
            if self.depth == 0:
                self.calls.append((ax, m, args, r))
            return r
        return method

    def __exit__(self, *a):
        for cls, m, f in self.saved:
            setattr(cls, m, f)


def one(x, scale=Q):
    return C.enc(x, scale) if x is not np.ma.masked else C.MASKED


def xy(line):
    return [[C.MASKED if np.isnan(v) else C.enc(v, Q) for v in p] for p in np.ma.filled(line.get_xydata().astype(float), np.nan)]


def cells(x, y, z):
    """the cells of a mesh with the values which are there"""
    x, y, z = np.asarray(x, dtype=float), np.asarray(y, dtype=float), np.ma.masked_invalid(np.ma.array(z, dtype=float))
    out = []
    for j in range(z.shape[0]):
        for i in range(z.shape[1]):
            if z[j, i] is np.ma.masked:
                continue
            if x.ndim == 1:
                px, py = (x[i], x[i + 1]), (y[j], y[j + 1])
            else:
                px, py = (x[j, i], x[j, i + 1]), (y[j, i], y[j + 1, i])
            out.append([min(px), max(px), min(py), max(py), float(z[j, i])])
    return out


def lattice(x, y, z):
    x, y, z = np.asarray(x, dtype=float), np.asarray(y, dtype=float), np.ma.masked_invalid(np.ma.array(z, dtype=float))
    if x.ndim == 1:
        x, y = np.meshgrid(x, y)
    return [[C.enc(x[k], Q), C.enc(y[k], Q), C.enc(float(z[k]), Q)] for k in np.ndindex(*z.shape) if z[k] is not np.ma.masked]


def limits(p):
    a, b = sorted(float(v) * Q for v in p)
    a = round(a) if abs(a - round(a)) < 1e-5 * max(1, abs(a) / 1000) else int(np.floor(a))
    b = round(b) if abs(b - round(b)) < 1e-5 * max(1, abs(b) / 1000) else int(np.ceil(b))
    big = 2000000000
    return [int(max(-big, min(big, a))), int(max(-big, min(big, b)))]


def norm(artist):
    from matplotlib.colors import LogNorm
    lo, hi = artist.get_clim()
    return {'clim': [C.enc(lo, Q), C.enc(hi, Q)], 'log': isinstance(artist.norm, LogNorm)}


def observe(e, ax, watch):
    from matplotlib.collections import PathCollection
    from matplotlib.container import BarContainer
    from matplotlib.patches import Polygon
    o = {'lines': [], 'marks': [], 'dots': [], 'meshes': [], 'contours': [], 'bars': [], 'grid2': [], 'oneone': False, 'taylor': []}
    fig = ax.get_figure()
    if e['how'] == 'taylor':
        return taylor(o, ax)
    pair = e['call'] == 'against' or e['how'] in PAIR
    for l in ax.lines:
        p = l.get_xydata()
        if pair and l.get_linestyle() != 'None' and len(p) == 2 and (p[:, 0] == p[:, 1]).all():
            o['oneone'] = True
        elif l.get_linestyle() == 'None':
            o['marks'].append(xy(l))
        else:
            o['lines'].append(xy(l))
    for c in ax.collections:
        if isinstance(c, PathCollection):
            xyv, v = np.ma.masked_invalid(c.get_offsets()), np.ma.masked_invalid(np.ma.array(c.get_array()))
            pts = [[one(p[0]), one(p[1]), one(w)] for p, w in zip(xyv, v.flatten()) if w is not np.ma.masked]
            o['dots'].append(dict(norm(c), pts=pts))
    for a, m, args, r in watch.calls:
        if a is not ax:
            continue
        if m in ('contour', 'contourf'):
            o['contours'].append({'pts': lattice(*args[:3]), 'filled': m == 'contourf', 'levels': [C.enc(v, Q) for v in r.levels]})
        elif pair:
            nx, ny = e['xbins'], e['ybins']
            o['grid2'] = [[C.enc(c[0], Q * nx), C.enc(c[1], Q * nx), C.enc(c[2], Q * ny), C.enc(c[3], Q * ny), C.enc(c[4])] for c in cells(*args[:3])]
        else:
            o['meshes'].append(dict(norm(r), cells=[[C.enc(v, Q) for v in c] for c in cells(*args[:3])]))
    n = e['xbins']
    for c in [c for c in ax.containers if isinstance(c, BarContainer)]:
        p = c.patches
        o['bars'].append((id(p[0]), [C.enc(b.get_x(), Q * n) for b in p] + [C.enc(p[-1].get_x() + p[-1].get_width(), Q * n)], [C.enc(b.get_height()) for b in p]))
    for p in ax.patches:
        if isinstance(p, Polygon):
            v = p.get_xy()
            if p.get_closed() and len(v) > 2 * (2 * n + 2):
                v = v[:2 * n + 2]
            v = v[:2 * n + 2]
            o['bars'].append((id(p), [C.enc(v[2 * k][0], Q * n) for k in range(n + 1)], [C.enc(v[2 * k + 1][1]) for k in range(n)]))
    order = {id(p): k for k, p in enumerate(ax.patches)}
    o['bars'] = [{'edges': b[1], 'counts': b[2]} for b in sorted(o['bars'], key=lambda b: order[b[0]])]
    o['map'] = hasattr(ax, 'projection')
    x = ax.get_xlim()
    if o['map']:
        import cartopy.crs as ccrs
        centre = ccrs.PlateCarree().transform_point(0.0, 0.0, ax.projection)[0]
        x = [v + centre for v in x]
    o['x'], o['y'] = limits(x), limits(ax.get_ylim())
    o['xticks'], o['yticks'] = [[C.enc(t, Q) for t in ts] for ts in (ax.get_xticks(), ax.get_yticks())]
    o['down'] = bool(ax.yaxis_inverted())
    o['logx'], o['logy'] = ax.get_xscale() == 'log', ax.get_yscale() == 'log'
    o['xlabel'], o['ylabel'], o['title'] = ax.get_xlabel().strip(), ax.get_ylabel().strip(), ax.get_title().strip()
    o['cbars'] = [(a.get_ylabel() or a.get_xlabel()).strip() for a in fig.axes if a is not ax and a.get_label() == '<colorbar>']
    leg = ax.get_legend()
    o['legend'] = [t.get_text() for t in leg.get_texts()] if leg is not None else []
    return o


def taylor(o, ax):
    for a in [ax] + list(ax.parasites):
        for l in a.lines:
            if l.get_linestyle() == 'None' and l.get_marker() not in (' ', 'None', ''):
                c, g = [float(v[0]) for v in (l.get_xdata(), l.get_ydata())]
                sq = rat(c * c)
                o['taylor'].append({'sgn': 0 if sq == [0, 1] else int(np.sign(c)), 'sq': sq, 'ratio': rat(g * g), 'neg': c < 0, 'label': l.get_label()})
    return o


# ------------------------------------------------------------------ calling
def when(n):
    return datetime.datetime(1970, 1, 1) + datetime.timedelta(hours=3 * (n - 8 * DAY0))


def on_time(e, a):
    """is a limit of this axis a time? the name of the coordinate drawn along it is in the label"""
    d = e['layers'][0]
    c = axis_of(e, d, a)
    return c is not None and c['std'] == 'time'


def axis_of(e, d, a):
    """the coordinate which limits along an axis are given in, or none for values"""
    if e['call'] == 'against' or e['how'] in PAIR or (d['how'] or e['how']) == 'histogram':
        return None
    how = d['how'] or e['how']
    wide = [c for c in d['coords'] if len(c['v']) > 1]
    dims = sorted({c['dim'] for c in wide})
    if a == 'Y' and not e['yaxis'] and (how in ('line', 'scatter') or how == '' and (d['kind'] == 'grid' and len(dims) == 1)):
        return None
    get = lambda n: next((c for c in wide if c['std'] == n), None)
    n, o = (e['xaxis'], e['yaxis']) if a == 'X' else (e['yaxis'], e['xaxis'])
    if n:
        return get(n)
    g = get('longitude' if a == 'X' else 'latitude')
    if d['kind'] == 'points' or len(dims) != 2:
        r = g or wide[0]
        if a == 'Y' and how == '' and d['kind'] == 'points' and not (r['std'] == 'latitude' and (e['xaxis'] or 'longitude') == 'longitude' and get('longitude')):
            return None
        return r
    other = get(o) if o else get('latitude' if a == 'X' else 'longitude')
    od = other['dim'] if other else dims[1 if a == 'X' else 0]
    if g is not None and not (o and g['dim'] == od):
        return g
    return next((c for c in wide if c['dim'] != od), g)


def options(e):
    kw = {}
    for k in ('xaxis', 'yaxis', 'title', 'xlabel', 'ylabel'):
        if e[k]:
            kw[k] = e[k]
    if e['how'] in ('histogram', 'histogram2d'):
        # ten when not asked for
        if e['xbins'] != 10:
            kw['xbins'] = e['xbins']
        if e['how'] == 'histogram2d' and e['ybins'] != 10:
            kw['ybins'] = e['ybins']
    if e['how'] == 'taylor':
        if e['extend']:
            kw['extend'] = e['extend'] / float(Q)
        if e['fold']:
            kw['fold'] = True
        if e['gammamax'] != ABSENT:
            kw['gammamax'] = e['gammamax'] / float(Q)
    if e['logv']:
        kw['logv'] = True
    for k in ('logx', 'logy'):
        if e[k]:
            kw[k] = True
    for k, v in zip(('vmin', 'vmax'), e['vlims']):
        if v != ABSENT:
            kw[k] = v / float(Q)
    if e['vstep'] != ABSENT:
        kw['vstep'] = e['vstep'] / float(Q)
    if e['levels'] and e['call'] != 'command':
        kw['contlevels'] = [v / float(Q) for v in e['levels']]
    if not e['bar']:
        kw['colourbar'] = False
    for k, v in zip(('width', 'height'), e['size']):
        if v != ABSENT:
            kw[k] = v
    for k, a, v in zip(('xmin', 'xmax', 'ymin', 'ymax'), 'XXYY', e['lims']):
        if v != ABSENT:
            kw[k] = when(v) if on_time(e, a) else v / float(Q)
    for k, a in (('xstep', 'X'), ('ystep', 'Y')):
        if e[k] != ABSENT:
            kw[k] = datetime.timedelta(hours=3 * e[k]) if on_time(e, a) else e[k] / float(Q)
    return kw


def layer_options(e):
    r = []
    for d in e['layers']:
        o = {}
        if d['how']:
            o['type'] = d['how']
        if d['label']:
            o['label'] = d['label']
        if d['style']:
            o['itemstyle'] = d['style']
        if e['how'] in PAIR:
            o.pop('itemstyle', None)
        r.append(o)
    if e['nopts'] != ABSENT:
        r = [{} for _ in range(e['nopts'])]
    return r


def number(v):
    if isinstance(v, datetime.datetime):
        return v.isoformat()
    if isinstance(v, datetime.timedelta):
        return 'P%dD' % v.days if not v.seconds else 'P%dDT%dH' % (v.days, v.seconds // 3600)
    return repr(v)


def command(e, out):
    from cis.parse import parse_args
    import cis.cis_main as main
    groups = []
    for k, (d, o) in enumerate(zip(e['layers'], layer_options(e))):
        f = os.path.abspath('pic%d_%d.nc' % (next(COUNT), k))
        make(e, d).save_data(f)
        if e['levels']:
            o['contlevels'] = '[' + ','.join(repr(v / float(Q)) for v in e['levels']) + ']'
        opts = ','.join('%s=%s' % i for i in sorted(o.items()))
        groups.append(d['name'] + ':' + f + (':' + opts if opts else ''))
    argv = ['plot'] + groups + ['-o', out, '--force-overwrite']
    if e['how']:
        argv += ['--type', e['how']]
    for k, v in options(e).items():
        if k == 'colourbar':
            argv.append('--nocolourbar')
        elif v is True:
            argv.append('--' + k)
        else:
            argv.append('--%s=%s' % (k, v if isinstance(v, str) else number(v)))
    args = parse_args(argv)
    main.plot_cmd(args)


def execute(e):
    import matplotlib.pyplot as plt
    from cis.data_io.gridded_data import GriddedDataList
    from cis.data_io.ungridded_data import UngriddedDataList
    from cis.exceptions import CISError
    plt.close('all')
    out = os.path.abspath('pic%d.png' % next(COUNT))
    try:
        with Watch() as w:
            try:
                if e['call'] == 'command':
                    data, before = [], []
                    command(e, out)
                    ax = plt.figure(1).axes[0] if plt.get_fignums() else None
                else:
                    data = [make(e, d) for d in e['layers']]
                    before = [snap(d) for d in data]
                    kw, lo = options(e), layer_options(e)
                    how = e['how'] or None
                    if e['call'] == 'basic':
                        lo[0].pop('type', None)
                        ax = data[0].plot(how=e['layers'][0]['how'] or how, **dict(kw, **lo[0]))
                    elif e['call'] == 'against':
                        kw.pop('xaxis', None)
                        ax = data[1].plot(how=how, xaxis=data[0], **kw)
                    elif e['call'] == 'multi':
                        kw['layer_opts'] = lo if any(lo) or e['nopts'] != ABSENT else None
                        if len({repr((d['kind'], d['coords'])) for d in e['layers']}) == 1:
                            ax = (GriddedDataList if e['layers'][0]['kind'] == 'grid' else UngriddedDataList)(data).plot(how=how, **kw)
                        else:
                            from cis.plotting.plot import multilayer_plot
                            ax = multilayer_plot(data, how, **kw)[1]
                    else:
                        from cis.plotting.formatted_plot import Plotter
                        ax = Plotter(data, type=how, output=out, layer_opts=lo, **kw).ax
            except (ValueError, CISError) as x:
                return {'outcome': 'error', 'exc': 'CISError' if isinstance(x, CISError) else 'ValueError', 'msg': '%s' % x}
            o = observe(e, ax, w)
        o['outcome'] = 'ok'
        o['intact'] = before == [snap(d) for d in data]
        o['saved'] = os.path.exists(out) and os.path.getsize(out) > 1000
        o['size'] = [C.enc(v, 12) for v in ax.get_figure().get_size_inches()]
        return o
    finally:
        plt.close('all')
        if os.path.exists(out):
            os.remove(out)


def nontrivial(r):
    return r['out'].get('outcome') == 'ok'


def matches_finding(f, case, out, clauses):
    return False
