"""V02: the layers of a picture look the way their own options ask."""
import os

import common as C
from areas import picture as P

JUDGE = 'JudgeLook'
GEN = ['GenLook']
SECONDS = 60
NOTE = -1
STRINGS = ('color', 'edge', 'mark', 'line', 'cmap', 'orient', 'blabel', 'bar', 'contlabel', 'label')
NUMBERS = ('width', 'alpha', 'cw', 'scale', 'lo', 'hi', 'nlev')
SHARED = ('cmap', 'orient', 'blabel', 'bar', 'scale', 'lo', 'hi')
KEYWORD = {'color': 'color', 'edge': 'edgecolor', 'mark': 'itemstyle', 'line': 'itemstyle', 'width': 'itemwidth', 'alpha': 'alpha', 'cmap': 'cmap', 'cw': 'contwidth', 'orient': 'cbarorient',
           'blabel': 'cbarlabel', 'bar': 'colourbar', 'scale': 'cbarscale', 'lo': 'vmin', 'hi': 'vmax', 'nlev': 'contnlevels', 'contlabel': 'contlabel', 'label': 'label'}
SCALE = {'width': 10., 'alpha': 8., 'cw': 10., 'scale': 8., 'lo': 8., 'hi': 8., 'nlev': 1}
ABLE = {'line': ('color', 'line', 'width', 'alpha', 'label'), 'scatter': ('color', 'edge', 'mark', 'width', 'alpha', 'label'), 'histogram': ('color', 'alpha', 'label'),
        'heatmap': ('alpha', 'cmap', 'orient', 'blabel', 'bar', 'scale', 'lo', 'hi', 'label'),
        'scatter2d': ('edge', 'mark', 'width', 'alpha', 'cmap', 'orient', 'blabel', 'bar', 'scale', 'lo', 'hi', 'label'),
        'contour': ('color', 'alpha', 'cmap', 'orient', 'blabel', 'bar', 'scale', 'cw', 'nlev', 'contlabel', 'label'),
        'contourf': ('alpha', 'cmap', 'orient', 'blabel', 'bar', 'scale', 'nlev', 'label')}
VALUES = {'color': ['red', 'blue', 'green', 'black', 'grey', 'gray', 'navy'], 'edge': ['white', 'red', 'black'], 'mark': ['s', '^', 'D', 'o'], 'line': ['solid', 'dashed', 'dashdot', 'dotted'],
          'width': [5, 10, 30, 80], 'alpha': [1, 2, 4, 8], 'cmap': ['jet', 'RdBu', 'viridis', 'hot'], 'cw': [10, 20, 50], 'orient': ['horizontal', 'vertical'], 'blabel': ['A bar', 'Values'],
          'bar': ['true', 'false'], 'scale': [2, 4, 8], 'lo': [0, 4, 12], 'hi': [30, 36, 60], 'nlev': [2, 30], 'contlabel': ['true', 'false'], 'label': ['One', 'Two', 'Three']}
BAD = ['color=notacolour', 'edgecolor=nearlyred', 'type=heatmap2', 'alpha=thin', 'vmin=x', 'contlevels=1', 'colourbar=maybe', 'contnlevels=some', 'itemwidth=wide', 'contwidth=x', 'nothing=1', 'cbarscale=big',
       'product=NoSuchProduct']


def models(tier):
    return [('MCLook', 'MCLook' if tier == 'quick' else 'MCLook_t')]


def blank(names):
    return {f: '' if f in STRINGS else NOTE for f in names}


def random_cases(rng, tier):
    for _ in range(110 if tier == 'quick' else 2500):
        call = rng.choice(['basic', 'multi', 'plotter', 'command', 'command'])
        n = 1 if call == 'basic' else rng.choice([1, 1, 2, 3])
        deep = rng.random() < 0.6
        if deep:
            hows = ['heatmap', 'contour', 'contourf', 'scatter2d']
        else:
            hows = ['histogram'] if rng.random() < 0.2 else ['line', 'scatter']
        onmap, wide = deep and rng.random() < 0.6, rng.random() < 0.5
        e = {'call': call, 'layers': [], 'all': blank(SHARED), 'many': n > 1 or call == 'multi', 'grid': False, 'font': NOTE, 'title': ''}
        for k in range(n):
            how = rng.choice(hows)
            grid = how in ('heatmap', 'contour', 'contourf') or how == 'scatter2d' and rng.random() < 0.4 and not onmap
            if deep and not onmap and not grid:
                how, grid = rng.choice(hows[:3]), True
            o = blank(STRINGS + NUMBERS)
            for f in ABLE[how]:
                if rng.random() < rng.choice([0.15, 0.5]):
                    o[f] = rng.choice(VALUES[f])
            if o['color'] and o['cmap']:
                o['cmap' if rng.random() < 0.5 else 'color'] = ''
            if o['lo'] != NOTE and o['hi'] != NOTE and o['lo'] >= o['hi']:
                o['hi'] = NOTE
            if call == 'command' and o['color'] == 'red' and rng.random() < 0.4:
                o['color'] = 'Red'
            if how == 'line' and rng.random() < 0.05:
                o['line'] = rng.choice(['wavy', 'Solid', 'bar'])
            e['layers'].append({'how': how, 'opts': o, 'name': 'pqr'[k], 'n': 6, 'grid': grid, 'map': onmap, 'wide': wide, 'bad': ''})
        if deep and all(d['opts']['color'] == '' for d in e['layers']) and rng.random() < 0.5:
            ok = [f for f in SHARED if all(f in ABLE[d['how']] for d in e['layers'])]
            for f in ok:
                if rng.random() < 0.3:
                    e['all'][f] = rng.choice(VALUES[f])
        if call in ('plotter', 'command'):
            e['grid'] = rng.random() < 0.3
            e['font'] = rng.choice([NOTE, NOTE, 6, 14, 20])
            e['title'] = rng.choice(['', '', '', 'Title'])
        if call == 'command' and rng.random() < 0.12:
            rng.choice(e['layers'])['bad'] = rng.choice(BAD)
        yield e


# ------------------------------------------------------------------ calling
LON = {True: ([0, 40, 80], [0, 8, 16]), False: ([0, 4, 8], [-40, 0, 60])}


def data(e, d):
    lon, lat = LON[d['wide']]
    c = P.coord
    v = [8, 16, 24, 32, 40, 48]
    if not d['grid']:
        t = [P.Q * P.D1990 + 8 * k for k in range(6)]
        cs = [c('latitude', [8 * x for x in lat * 2]), c('longitude', [8 * x for x in lon for _ in (0, 1)]), c('time', t)]
        r = P.layer('points', [6], cs, v)
    elif d['map']:
        r = P.layer('grid', [2, 3], [c('latitude', [8 * x for x in lat[:2]] if d['wide'] else [8 * x for x in lat[1:]], (), 1), c('longitude', [8 * x for x in lon], (), 2)], v)
    else:
        r = P.layer('grid', [2, 3], [c('latitude', [0, 80], (), 1), c('air_pressure', [8000, 16000, 32000], (), 2)], v)
    r['name'] = d['name']
    return P.make({'call': 'basic', 'tunit': 0}, r)


def given(o, names, text):
    r = {}
    for f in names:
        if o[f] in ('', NOTE):
            continue
        x = o[f]
        if f in NUMBERS:
            x = x / SCALE[f] if SCALE[f] != 1 else x
            if f == 'cw':
                x = int(x)
        elif f in ('bar', 'contlabel') and not text:
            x = x == 'true'
        r[KEYWORD[f]] = x
    return r


def command(e, out):
    from cis.parse import parse_args
    import cis.cis_main as main
    groups = []
    for k, d in enumerate(e['layers']):
        f = os.path.abspath('look%d_%d.nc' % (next(P.COUNT), k))
        data(e, d).save_data(f)
        opts = dict(given(d['opts'], STRINGS + NUMBERS, True), type=d['how'])
        opts = ['%s=%s' % i for i in sorted(opts.items()) if not d['bad'].startswith(i[0] + '=')] + ([d['bad']] if d['bad'] else [])
        groups.append('%s:%s:%s' % (d['name'], f, ','.join(opts)))
    argv = ['plot'] + groups + ['-o', out, '--force-overwrite']
    for k, v in given(e['all'], SHARED, True).items():
        if k == 'colourbar':
            if v == 'false':
                argv.append('--nocolourbar')
        else:
            argv.append('--%s=%s' % (k, v))
    argv += (['--grid'] if e['grid'] else []) + (['--fontsize', str(e['font'])] if e['font'] != NOTE else []) + (['--title', e['title']] if e['title'] else [])
    if flat(e):
        argv += ['--xaxis', 'time']
    main.plot_cmd(parse_args(argv))


def flat(e):
    return e['layers'][0]['how'] in ('line', 'scatter', 'histogram')


def execute(e):
    import matplotlib
    import matplotlib.pyplot as plt
    from cis.exceptions import CISError
    plt.close('all')
    out = os.path.abspath('look%d.png' % next(P.COUNT))
    size = matplotlib.rcParams['font.size']
    try:
        try:
            if e['call'] == 'command':
                command(e, out)
                ax = plt.figure(1).axes[0]
            else:
                ds = [data(e, d) for d in e['layers']]
                opts = [given(d['opts'], STRINGS + NUMBERS, False) for d in e['layers']]
                kw = given(e['all'], SHARED, False)
                if flat(e):
                    kw['xaxis'] = 'time'
                if e['call'] == 'basic':
                    ax = ds[0].plot(how=e['layers'][0]['how'], **dict(kw, **opts[0]))
                else:
                    for o, d in zip(opts, e['layers']):
                        o['type'] = d['how']
                    if e['call'] == 'multi':
                        from cis.plotting.plot import multilayer_plot
                        ax = multilayer_plot(ds, None, layer_opts=opts, **kw)[1]
                    else:
                        from cis.plotting.formatted_plot import Plotter
                        if e['font'] != NOTE:
                            kw['fontsize'] = e['font']
                        if e['title']:
                            kw['title'] = e['title']
                        ax = Plotter(ds, output=out, layer_opts=opts, grid=e['grid'], **kw).ax
        except (ValueError, CISError, SystemExit) as x:
            return {'outcome': 'error', 'exc': type(x).__name__, 'msg': '%s' % x}
        o = observe(ax)
        o['outcome'] = 'ok'
        return o
    finally:
        plt.close('all')
        matplotlib.rcParams['font.size'] = size
        if os.path.exists(out):
            os.remove(out)


# ------------------------------------------------------------------ looking
def hexed(c):
    import matplotlib
    from matplotlib.colors import to_hex
    h = to_hex(c)
    return 'cycle' if h in [to_hex(x) for x in matplotlib.rcParams['axes.prop_cycle'].by_key()['color']] else h


def artist(kind, a, **kw):
    alpha = a.get_alpha()
    r = {'kind': kind, 'color': '', 'edge': '', 'mark': '', 'line': '', 'width': NOTE, 'alpha': NOTE if alpha is None else C.enc(float(alpha), 8), 'cmap': '', 'lo': NOTE, 'hi': NOTE, 'labels': False, 'levels': 0}
    r.update(kw)
    return r


def marker(path):
    """which marker has this outline"""
    import numpy as np
    from matplotlib.markers import MarkerStyle
    for m in ('o', 's', '^', 'D'):
        s = MarkerStyle(m)
        p = s.get_path().transformed(s.get_transform())
        if p.vertices.shape == path.vertices.shape and np.allclose(p.vertices, path.vertices):
            return m
    return '?'


def observe(ax):
    import numpy as np
    from matplotlib.collections import PathCollection, QuadMesh
    from matplotlib.container import BarContainer
    from matplotlib.contour import ContourSet
    fig = ax.get_figure()
    fig.canvas.draw()
    seen = []
    for a in ax.get_children():
        if a in ax.lines:
            if a.get_linestyle() == 'None':
                seen.append(artist('scatter', a, color=hexed(a.get_markerfacecolor()), edge=hexed(a.get_markeredgecolor()), mark=str(a.get_marker()), width=C.enc(float(a.get_markersize()), 10)))
            else:
                seen.append(artist('line', a, color=hexed(a.get_color()), width=C.enc(float(a.get_linewidth()), 10),
                                   line={'-': 'solid', '--': 'dashed', '-.': 'dashdot', ':': 'dotted'}.get(a.get_linestyle(), '?')))
        elif isinstance(a, ContourSet):
            kind = 'contourf' if a.filled else 'contour'
            r = artist(kind, a, levels=len(a.levels))
            if a.colors is None:
                r['cmap'] = a.cmap.name
            else:
                cs = {hexed(c) for c in a.get_edgecolors()}
                r['color'] = cs.pop() if len(cs) == 1 else '?'
            if kind == 'contour':
                ws = {C.enc(float(w), 10) for w in np.ravel(a.get_linewidths())}
                r['width'] = ws.pop() if len(ws) == 1 else -2
                r['labels'] = len(a.labelTexts) > 0
            seen.append(r)
        elif isinstance(a, (QuadMesh, PathCollection)):
            lo, hi = a.get_clim()
            r = artist('heatmap' if isinstance(a, QuadMesh) else 'scatter2d', a, cmap=a.cmap.name, lo=C.enc(float(lo), 8), hi=C.enc(float(hi), 8))
            if r['kind'] == 'scatter2d':
                f, g = a.get_facecolors(), a.get_edgecolors()
                es = {hexed(c) for c in g}
                r['edge'] = 'face' if f.shape == g.shape and np.allclose(f, g) else es.pop() if len(es) == 1 else '?'
                r['width'] = C.enc(float(a.get_sizes()[0]), 10)
                r['mark'] = marker(a.get_paths()[0])
            seen.append(r)
    for c in ax.containers:
        if isinstance(c, BarContainer):
            cs = {hexed(p.get_facecolor()) for p in c.patches}
            seen.append(artist('histogram', c.patches[0], color=cs.pop() if len(cs) == 1 else '?'))
    bars = [{'label': (a.get_ylabel() or a.get_xlabel()).strip(), 'orient': a._colorbar.orientation, 'scale': C.enc(float(a._colorbar_info['shrink']), 8)} for a in fig.axes
            if a is not ax and a.get_label() == '<colorbar>']
    leg = ax.get_legend()
    return {'artists': seen, 'bars': bars, 'title': ax.get_title().strip(), 'legend': [t.get_text() for t in leg.get_texts()] if leg is not None else [],
            'grid': all(any(t.gridline.get_visible() for t in x.get_major_ticks()) for x in (ax.xaxis, ax.yaxis)), 'font': C.enc(float(ax.xaxis.label.get_fontsize()))}


def nontrivial(r):
    return r['out'].get('outcome') == 'ok'


def matches_finding(f, case, out, clauses):
    return False
