"""Random rectilinear grids in specification units (q per degree / unit)."""
import common as C

DAY0 = 149000
VAR = {'latitude': 'lat', 'longitude': 'lon', 'altitude': 'alt', 'time': 'time', 'air_pressure': 'pres'}


def lon_axis(rng, q, n=None, desc=0.15, circ=True, glob=None):
    n = n or rng.choice([2, 3, 4, 6, 8])
    start = rng.choice([-180, 0, -180, 0, 30, -90, 10])
    glob = rng.random() < 0.6 if glob is None else glob
    if glob:
        step = 360 * q // n
        off = rng.choice([0, step // 2])
        pts = [start * q + off + k * step for k in range(n)]
    else:
        step = rng.choice([10, 20, 30, 45 if n < 8 else 30]) * q
        if step * n > 359 * q:
            step = 359 * q // n
        pts = [start * q + k * step for k in range(n)]
        if rng.random() < 0.3:        # irregular
            cuts = sorted(rng.sample(range(0, 300), n))
            pts = [start * q + c * q for c in cuts]
    a = {'std': 'longitude', 'pts': pts, 'circ': int(glob and circ and rng.random() < 0.6)}
    if rng.random() < desc:
        a['pts'] = pts[::-1]
        a['circ'] = 0
    a['glob'] = int(glob)
    return a


def lat_axis(rng, q, n=None, desc=0.3):
    n = n or rng.choice([2, 3, 4, 5])
    if rng.random() < 0.6:
        step = 180 * q // n
        pts = [-90 * q + step // 2 + k * step for k in range(n)]
    else:
        pts = [x * q for x in sorted(rng.sample(range(-90, 91, 5), n))]
    if rng.random() < desc:
        pts = pts[::-1]
    return {'std': 'latitude', 'pts': pts}


def other_axis(rng, std, q, n=None, desc=0.2):
    n = n or rng.choice([1, 2, 3, 4])
    if std == 'time':
        pts = [DAY0 * q + k * q * rng.choice([1, 1]) for k in range(n)]
    else:
        pts = [x * q for x in sorted(rng.sample(range(1, 12), n))]
        if rng.random() < desc:
            pts = pts[::-1]
    return {'std': std, 'pts': pts}


def guess_bounds(a, q, lim=None):
    """contiguous bounds midway between points (points must have even spacing in spec units)"""
    p = a['pts']
    if len(p) < 2:
        return [p[0] - q, p[0] + q]
    mid = [(p[k] + p[k + 1]) // 2 for k in range(len(p) - 1)]
    lo = [2 * p[0] - mid[0] if False else p[0] - (mid[0] - p[0])] + mid
    hi = mid + [p[-1] + (p[-1] - mid[-1])]
    if a['std'] == 'latitude':
        lo = [max(-90 * q, min(90 * q, x)) for x in lo]
        hi = [max(-90 * q, min(90 * q, x)) for x in hi]
    return [x for pair in zip(lo, hi) for x in pair]


def grid(rng, q, extra=(0, 0, 1), bounds=0.3, **kw):
    axes = [lat_axis(rng, q), lon_axis(rng, q, **kw)]
    for s in rng.sample(['altitude', 'time', 'air_pressure'], rng.choice(list(extra))):
        axes.append(other_axis(rng, s, q))
    if rng.random() < 0.5:
        rng.shuffle(axes)
    if rng.random() < bounds:
        for a in axes:
            if rng.random() < 0.8 and all(x % 2 == 0 for x in a['pts']):
                a['bnds'] = guess_bounds(a, q)
    for a in axes:
        a.setdefault('bnds', [])
    n = 1
    for a in axes:
        n *= len(a['pts'])
    return axes, n


def values(rng, n, lo=-50, hi=50, pmask=0.5, masked=0.3):
    return {'v': [rng.randint(lo, hi) for _ in range(n)],
            'm': [int(rng.random() < masked) for _ in range(n)] if rng.random() < pmask else []}


def norm_gd(g, axes, aux, q, vs=1, rounded=False):
    """Observed gridded data, described by the axes of the source (a collapsed axis has length one)."""
    import numpy as np
    out, order, last = [], 1, -1
    for a in axes:
        c = g.coord(a['std'])
        dims = g.coord_dims(c)
        if len(dims) > 1:
            order = 0
        if dims:
            if dims[0] <= last:
                order = 0
            last = dims[0]
        out.append({'std': str(c.name()), 'pts': C.enc_arr(c.points, q),
                    'bnds': C.enc_arr(c.bounds, q) if c.has_bounds() else []})
    if sum(1 for a in axes if g.coord_dims(a['std'])) != g.ndim:
        order = 0
    auxs = [{'v': C.enc_arr(g.coord(x['var']).points, x.get('q', q))} for x in aux]
    return {'axes': out, 'order': order, 'v': C.enc_arr(g.data, vs, rounded), 'aux': auxs}
