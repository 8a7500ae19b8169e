"""P01: what a command line means."""
import argparse
import contextlib
import io
import os

JUDGE = 'JudgeGroup'
GEN = ['GenGroup']
FILES = ['a.nc', 'b.nc', 'c:d.nc', 'e', 'x f.nc']
TOKENS = {
    'basic': ['product', 'cis', 'MODIS_L2', 'Bogus', '=', ',', ':', '\\:', '[', ']'],
    'agg': ['product', 'kernel', 'mean', 'max', 'cis', '=', '=', ',', ',', ':', '[', ']', 'product=cis', 'kernel=mean'],
    'sample': ['variable', 'collocator', 'kernel', 'box', 'mean', 'h_sep=1', 'a_sep=2km', 'x', '=', '=', ',', ',', '[', ']', '(', ')',
               '\\:', 'collocator=box[', 'kernel=nn_t', 'product=cis', 'variable=v'],
    'plot': ['label', 'vmin', 'color', 'contlevels', 'x', '1', '-2.5', 'red', '=', '=', ',', ',', '[', ']', '(', ')', '\\:', 'label=',
             'vmax=3', 'product=cis', 'contlevels=[', 'type=line'],
    'eval': ['product', 'cis', '=', ',', ':', 'Bogus'],
}
CMDS = {'basic': ['subset', 'sub', 'info', 'col'], 'agg': ['aggregate', 'agg', 'collapse'], 'sample': ['col'], 'plot': ['plot'],
        'eval': ['eval']}


def models(tier):
    return [('MCGroup', 'MCGroup' if tier == 'quick' else 'MCGroup_t')]


def escape(s):
    return s.replace(':', '\\:')


def random_cases(rng, tier):
    for _ in range(1500 if tier == 'quick' else 30000):
        g = rng.choice(['basic', 'agg', 'sample', 'sample', 'sample', 'plot', 'plot', 'eval'])
        toks = TOKENS[g]
        if rng.random() < 0.5:
            opt = ''.join(rng.choice(toks) for _ in range(rng.randint(1, 7)))
        else:
            opt = ','.join(well_formed(rng, g) for _ in range(rng.choice([1, 2, 3, 4])))
        files = ','.join(escape(rng.choice(FILES)) for _ in range(rng.choice([1, 1, 2, 3])))
        names = [rng.choice(['v', 'w', 'a b', 'x\\:y', 'g/v', 'v_1']) for _ in range(rng.choice([1, 1, 2, 3]))]
        if g == 'eval':
            names = [n + rng.choice(['', '=' + rng.choice('abcd')]) for n in names]
        s = files if g == 'sample' else ','.join(names) + ':' + files
        s += ':' + opt if opt else ''
        cmd = rng.choice(CMDS[g])
        groups = [{'g': g, 's': s}]
        if g == 'sample':
            groups.insert(0, {'g': 'basic', 's': rng.choice(['v:a.nc', 'v,w:b.nc:cis'])})
        elif cmd == 'col':
            groups.append({'g': 'sample', 's': 'b.nc'})
        yield {'cmd': cmd, 'o': '', 'attrs': '', 'dims': ['x'] if cmd == 'collapse' else [], 'groups': groups}


def well_formed(rng, g):
    def nested(d):
        """brackets of both kinds within each other, with separators within and after them"""
        o, c = rng.choice(['[]', '()'])
        inside = [rng.choice(['a', 'b=1', 'c']) + (nested(d - 1) if d and rng.random() < 0.7 else '') + rng.choice(['', 'x']) for _ in range(rng.choice([1, 2, 2, 3]))]
        return o + ','.join(inside) + c

    def value():
        if rng.random() < 0.2:
            return rng.choice(['a', '']) + nested(rng.choice([1, 2, 3]))
        return ''.join(rng.choice(['a', 'b ', '1', '=', '(a,b)', '[c,d]', '\\:', '-']) for _ in range(rng.randint(1, 4)))

    def number():
        return rng.choice(['1', '-2', '0.5', '-0.25', '12.125', '250'])

    def method():
        args = [rng.choice(['h_sep', 'a_sep', 't_sep', 'var_name', 'fill_value', 'extrapolate']) + rng.choice(['', '=' + value(), '=' + number()])
                for _ in range(rng.choice([0, 1, 2, 3]))]
        return rng.choice(['box', 'bin', 'lin', 'nn', 'mean']) + ('[%s]' % ','.join(args) if args or rng.random() < 0.2 else '')
    o = {'basic': ['product'], 'eval': ['product'], 'agg': ['product', 'kernel'],
         'sample': ['variable', 'collocator', 'collocator', 'kernel', 'product', 'constraint'],
         'plot': ['label', 'itemstyle', 'cmap', 'cbarlabel', 'vmin', 'vmax', 'alpha', 'itemwidth', 'contnlevels', 'contlevels', 'contlabel',
                  'color', 'type', 'product']}[g]
    k = rng.choice(o)
    if k == 'product':
        v = rng.choice(['cis', 'NetCDF_Gridded'])
    elif k == 'kernel' and g == 'agg':
        v = rng.choice(['sum', 'mean', 'min', 'max', 'moments', 'stddev'])
    elif k in ('collocator', 'kernel', 'constraint'):
        v = method()
    elif k in ('vmin', 'vmax', 'alpha', 'itemwidth'):
        v = number()
    elif k == 'contnlevels':
        v = '7'
    elif k == 'contlevels':
        v = '[' + ','.join(number() for _ in range(rng.randint(1, 3))) + ']'
    elif k == 'contlabel':
        v = rng.choice(['true', 'False'])
    elif k == 'color':
        v = rng.choice(['red', 'Grey'])
    elif k == 'type':
        v = rng.choice(['line', 'contour'])
    else:
        v = value()
    return k + '=' + v


_DIR = []


def scratch():
    if not _DIR:
        d = os.path.join(os.getcwd(), 'grp')
        os.makedirs(d)
        for f in FILES:
            with open(os.path.join(d, f), 'w'):
                pass
        _DIR.append(d)
    return _DIR[0]


def argv(case):
    gs = [x['s'] for x in case['groups']]
    a = [case['cmd']] + gs
    if case['cmd'] in ('subset', 'sub'):
        a += ['x=[0,10]']
    elif case['cmd'] in ('aggregate', 'agg'):
        a += ['x']
    elif case['cmd'] == 'collapse':
        a += case['dims']
    elif case['cmd'] == 'eval':
        a += ['v', '1']
        if case['attrs']:
            a += ['-a', case['attrs']]
    if case['o']:
        a += ['-o', case['o']]
    return a


def opt(k, v):
    r = {'k': k, 't': '?', 's': '', 'n': 0, 'l': [], 'args': []}
    if isinstance(v, bool):
        r.update(t='b', n=int(v))
    elif isinstance(v, (int, float)):
        m = v * 1000
        r.update(t='n' if m == int(m) else '?', n=int(m))
    elif isinstance(v, str):
        r.update(t='s', s=v)
    elif isinstance(v, tuple):
        r.update(t='m', s=v[0], args=[[a, '', 'bare'] if b is True else [a, str(b), '='] for a, b in v[1].items()])
    elif isinstance(v, list):
        r.update(t='l', l=[int(x * 1000) for x in v])
    return r


def group(d):
    vs = d.get('variables')
    return {'vars': [vs] if isinstance(vs, str) else list(vs or []), 'files': list(d.get('filenames') or []),
            'aliases': list(d.get('aliases') or []),
            'opts': [opt(k, v) for k, v in d.items() if k not in ('variables', 'filenames', 'aliases') and v is not None]}


def execute(case):
    from cis.parse import parse_args
    from cis.exceptions import InvalidCommandLineOptionError
    old = os.getcwd()
    os.chdir(scratch())
    try:
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            a = parse_args(argv(case))
    except (SystemExit, argparse.ArgumentTypeError, ValueError, InvalidCommandLineOptionError, IndexError) as e:
        if isinstance(e, SystemExit) and e.code == 0:
            raise
        return {'outcome': 'refused', 'why': '%s %s' % (type(e).__name__, e)}
    finally:
        os.chdir(old)
    gs = [group(d) for d in a.datagroups]
    if a.command == 'collocate':
        gs.append(group(a.samplegroup))
    at = getattr(a, 'attributes', None) or {}
    return {'outcome': 'ok', 'groups': gs, 'attrs': [[k, v] for k, v in at.items()], 'ovar': getattr(a, 'output_var', None) or '',
            'dims': list(getattr(a, 'dimensions', None) or []), 'command': a.command}


def nontrivial(rec):
    return rec['out'].get('outcome') == 'ok'


def for_property(prop):
    return True


def project(rec):
    r = dict(rec)
    r['out'] = {k: v for k, v in rec['out'].items() if k != 'why'}
    return r
