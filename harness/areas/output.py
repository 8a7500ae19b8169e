"""P02: which files a command may touch."""
import contextlib
import io
import json
import os
import shutil
import signal
import sys
import tempfile

import build

JUDGE = 'JudgeOutput'
GEN = ['GenOutput']
SECONDS = 60


def models(tier):
    return [('MCOutput', 'MCOutput' if tier == 'quick' else 'MCOutput_t')]


DIR = [['g.nc', 1], ['u.nc', 2], ['hard.nc', 1], ['sym.nc', 1], ['old.nc', 3], ['old', 4], ['old.v1', 5], ['p.png', 6], ['usym.nc', 2], ['h.nc', 7], ['v.nc', 8]]
TEXT = {3, 4, 5, 6}


def step(rng, made):
    k = rng.choice(['subset_g', 'subset_u', 'aggregate', 'collapse', 'col_gu', 'col_ug', 'eval_g', 'eval_u', 'stats', 'plot', 'fail', 'eval_gg', 'eval_uu', 'stats_gg', 'plot_uu', 'plot_gg', 'subset_uu'])
    gs = ['g.nc', 'g.nc', 'hard.nc', 'sym.nc', 'h.nc'] + made
    us = ['u.nc', 'u.nc', 'usym.nc', 'v.nc'] + made
    a = rng.choice(us if k in ('subset_u', 'aggregate', 'eval_u', 'plot', 'col_ug') or k.endswith('_uu') else gs)
    b = rng.choice(us) if k == 'col_gu' or k.endswith('_uu') else rng.choice(gs) if k == 'col_ug' or k.endswith('_gg') else ''
    out = rng.choice(['g.nc', 'g', 'hard', 'sym.nc', 'u.nc', 'old', 'old.nc', 'old.v1', 'new', 'new', 'new.nc', 'new.v2', 'a.b.nc', 'p', 'p.png',
                      'usym', 'x.nc.bak', 'NEW.NC', 'h', 'h.nc', 'v', 'v.nc'])
    return {'kind': k, 'a': a, 'b': b, 'out': out, 'pre': rng.choice(['', '', './', '../', 'abs', 'lnk/']),
            'ipre': rng.choice(['', '', './', '../', 'abs', 'lnk/']), 'flag': rng.choice([0, 0, 0, 1, 2]),
            'env': rng.choice(['', '', '', 'TRUE', 'true', 'FALSE', 'false', 'no', '0', '1', 'TRUE1', ' ', 'yes']),
            'answers': [rng.choice(['y', 'n', '', 'Y', 'yes', 'no', 'N', 'x']) for _ in range(rng.choice([0, 1, 1, 2, 3]))]}


def random_cases(rng, tier):
    for _ in range(250 if tier == 'quick' else 5000):
        steps, made = [], []
        for _ in range(rng.choice([1, 2, 3, 4])):
            s = step(rng, made)
            steps.append(s)
            made = made + ['new.nc'] if s['out'].startswith('new') and 'new.nc' not in made and not s['kind'].startswith('plot') else made
        yield {'dir': DIR, 'steps': steps}


_T = []


def make(d):
    from cis.data_io.gridded_data import GriddedDataList
    from cis.data_io.ungridded_data import UngriddedDataList
    ax = [{'std': 'latitude', 'pts': [-40, 0, 40]}, {'std': 'longitude', 'pts': [0, 40, 80, 120]}]
    GriddedDataList([build.cube({'dims': ['latitude', 'longitude'], 'axes': ax, 'v': [k + i for i in range(12)], 'name': n, 'long': 'long ' + n})
                     for n, k in (('a', 1), ('b', 20))]).save_data(d + '/g.nc')
    cs = build.ug_coords({'shape': [5], 'coords': [{'std': 'latitude', 'v': [-30, -10, 10, 20, 30]}, {'std': 'longitude', 'v': [10, 20, 40, 60, 90]},
                                                   {'std': 'time', 'v': [0, 4, 8, 12, 16]}], 'v': [1] * 5})
    UngriddedDataList([build.ungridded({'shape': [5], 'coords': [], 'v': [k + i for i in range(5)], 'name': n}, coords=cs)
                       for n, k in (('a', 1), ('b', 9))]).save_data(d + '/u.nc')
    GriddedDataList([build.cube({'dims': ['latitude', 'longitude'], 'axes': ax, 'v': [k - i for i in range(12)], 'name': n, 'long': 'long ' + n})
                     for n, k in (('a', 31), ('b', 50))]).save_data(d + '/h.nc')
    UngriddedDataList([build.ungridded({'shape': [5], 'coords': [], 'v': [k - i for i in range(5)], 'name': n}, coords=cs)
                       for n, k in (('a', 41), ('b', 69))]).save_data(d + '/v.nc')
    return ['written', '', 0]


def templates():
    """Real data files to start from."""
    if not _T:
        os.makedirs(os.path.join(os.getcwd(), 'tmpl'))
        d = os.path.join(os.getcwd(), 'tmpl')
        in_child(lambda: make(d))              # never in this process: children must not inherit threads
        _T.append(d)
    return _T[0]


def populate(d, names):
    first = {}
    for n, k in names:
        p = os.path.join(d, n)
        if k in first:
            if n.startswith('hard'):
                os.link(os.path.join(d, first[k]), p)
            else:
                os.symlink(first[k], p)
        elif k in (1, 2, 7, 8):
            shutil.copyfile(os.path.join(templates(), {1: 'g.nc', 2: 'u.nc', 7: 'h.nc', 8: 'v.nc'}[k]), p)
        else:
            with open(p, 'w') as f:
                f.write('precious %d\n' % k)
        first.setdefault(k, n)
    os.symlink('.', os.path.join(d, 'lnk'))


def contents(d):
    out = {}
    for n in os.listdir(d):
        p = os.path.join(d, n)
        if n != 'lnk' and os.path.exists(p):
            with open(p, 'rb') as f:
                out[n] = f.read()
    return out


class Keyboard(io.StringIO):
    """Standard input with a few lines typed ahead; counts how often it was asked."""
    def __init__(self, answers):
        io.StringIO.__init__(self, ''.join(a + '\n' for a in answers))
        self.asked = 0

    def readline(self, *a):
        self.asked += 1
        return io.StringIO.readline(self, *a)


def spell(d, pre, name):
    return {'abs': os.path.join(d, name), '../': '../' + os.path.basename(d) + '/' + name}.get(pre, pre + name)


def argv(s, d):
    a, b, o = spell(d, s['ipre'], s['a']), spell(d, s['ipre'], s['b']), spell(d, s['pre'], s['out'])
    k = s['kind']
    r = {'subset_g': ['subset', 'a:' + a, 'y=[-90,90]'], 'subset_u': ['subset', 'a:' + a, 'y=[-90,2]'], 'fail': ['subset', 'a:' + a, 'y=[80,81]'],
         'aggregate': ['aggregate', 'a:' + a, 'y=[-90,90,30]'], 'collapse': ['collapse', 'a:' + a, 'x'],
         'col_gu': ['col', 'a:' + a, b + ':variable=a,collocator=nn'], 'col_ug': ['col', 'a:' + a, b + ':variable=a,collocator=bin'],
         'eval_g': ['eval', 'a:' + a, 'b:' + a, 'a+b', '1'], 'eval_u': ['eval', 'a,b:' + a, 'a*b', '1'],
         'stats': ['stats', 'a:' + a, 'b:' + a], 'plot': ['plot', 'a:' + a, 'b:' + a, '--type', 'comparativescatter'],
         'eval_gg': ['eval', 'a:' + a, 'b:' + b, 'a+b', '1'], 'eval_uu': ['eval', 'a:' + a, 'b:' + b, 'a-b', '1'], 'stats_gg': ['stats', 'a:' + a, 'b:' + b],
         'plot_uu': ['plot', 'a:' + a, 'b:' + b, '--type', 'comparativescatter'], 'plot_gg': ['plot', 'a:' + a, 'b:' + b, '--type', 'comparativescatter'],
         'subset_uu': ['subset', 'a:' + a + ',' + b, 'y=[-90,2]']}[k]
    r += ['-o', ('ov:' if k.startswith('eval') else '') + o]
    if s['flag'] == 1:
        r = ['--force-overwrite'] + r
    elif s['flag'] == 2:
        r.append('--force-overwrite')
    return r


def preload():
    """What the commands import when they run: once here rather than in every child."""
    import importlib
    for m in ('cis.cis_main', 'cis.parse', 'cis.collocation.col_implementations', 'cis.evaluate', 'cis.stats', 'cis.plotting.formatted_plot',
              'cis.aggregation.collapse_kernels', 'cis.aggregation.gridded_collapsor', 'cis.aggregation.ungridded_aggregator', 'cis.subsetting.subset',
              'cis.collocation.col', 'iris.fileformats.netcdf', 'matplotlib.pyplot', 'scipy.stats', 'pandas', 'iris.analysis.cartography',
              'cis.data_io.products.products', 'cis.data_io.products.gridded_NetCDF'):
        try:
            importlib.import_module(m)
        except ImportError:
            pass


def in_child(f):
    """Each command runs in its own process, as it does for a user."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(120)
            res = f()
        except BaseException as e:
            res = ['crash', '%s %s' % (type(e).__name__, e), 0]
        os.write(w, json.dumps(res).encode()[:4000])
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as g:
        res = g.read()
    os.waitpid(pid, 0)
    return json.loads(res) if res else ['crash', 'no answer', 0]


def run(s, d):
    from cis.cis_main import parse_and_run_arguments
    os.environ.pop('CIS_FORCE_OVERWRITE', None)
    if s['env']:
        os.environ['CIS_FORCE_OVERWRITE'] = s['env']
    sys.stdin = kb = Keyboard(s['answers'])
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            parse_and_run_arguments(argv(s, d))
        return ['written', '', kb.asked]
    except SystemExit as e:
        return ['error' if e.code else 'kept', '', kb.asked]
    except Exception as e:
        return ['error', '%s %s' % (type(e).__name__, str(e)[:80]), kb.asked]


def execute(case):
    preload()
    old = os.getcwd()
    templates()
    top = tempfile.mkdtemp(dir=old)
    d = os.path.join(top, 'w')
    os.mkdir(d)
    populate(d, case['dir'])
    out = {'outcome': 'ok', 'steps': []}
    try:
        os.chdir(d)
        for s in case['steps']:
            before = contents(d)
            oc, why, asked = in_child(lambda: run(s, d))
            after = contents(d)
            if sorted(os.listdir(top)) != ['w']:
                oc = 'outside'
            out['steps'].append({'outcome': oc, 'why': why, 'prompts': asked, 'changed': sorted(n for n in before if n in after and after[n] != before[n]),
                                 'created': sorted(set(after) - set(before)), 'removed': sorted(set(before) - set(after)),
                                 'valid': sorted(n for n in after if after[n][:4] in (b'\x89HDF', b'CDF\x01', b'CDF\x02'))})
    finally:
        os.chdir(old)
        shutil.rmtree(top)
    return out


def nontrivial(rec):
    return any(s['outcome'] == 'written' or s['prompts'] for s in rec['out'].get('steps', []))


def for_property(prop):
    return True
