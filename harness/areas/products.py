"""R03: which product opens a file, plugins included. Every case runs in a process of its own, as what was once loaded stays."""
import contextlib
import io
import itertools
import os
import shutil
import subprocess
import sys

import build
from areas import output as O
from areas import pipeline as P

JUDGE = 'JudgeProduct'
GEN = ['GenProduct']
SECONDS = 25
COUNT = itertools.count()


def models(tier):
    return [('MCProduct', 'MCProduct' if tier == 'quick' else 'MCProduct_t')]


def codes(s):
    return [ord(c) for c in s]


def text(s):
    return ''.join(chr(c) for c in s)


CONTENTS = ['text', 'plain', 'cis', 'CIS', 'lowcis', 'numsource', 'gassp', 'lowgassp', 'raf', 'cf', 'numconv', 'cisgassp']
ATTRIBUTES = {'plain': {}, 'cis': {'source': 'CIS1.7.9'}, 'CIS': {'source': 'CIS'}, 'lowcis': {'source': 'cis 1'}, 'numsource': {'source': 5}, 'gassp': {'GASSP_Version': '1.1'},
              'lowgassp': {'gassp_version': '2'}, 'raf': {'Conventions': 'NCAR-RAF/nimbus'}, 'cf': {'Conventions': 'CF-1.6', 'source': 'HadGEM'}, 'numconv': {'Conventions': 4},
              'cisgassp': {'source': 'CIS1.2', 'GASSP_Version': '1'}}
NAMES = ['a.nc', 'A.NC', 'ab.nc', 'a.ncc', 'xglnwa.pm20070601.nc', 'ESACCI-L3C_CLOUD-a.nc', 'x.ESACCI-L2_CLOUD.nc', 'CAL_LID_L2_05kmAPro-x.hdf', 'CAL_LID_L1-x.hdf', 'MYD06_L2.a.hdf', 'MOD08_D3.hdf',
         'a.txt', 'b.lev20', 'c.pp', 'x_CS_y_GRANULE_z.hdf', 'ATL_EBD_2A.h5', 'b.all', 'abc', 'RF01.nc', 'x.nc.gz']
PLUGINS = ['Alpha', 'Beta', 'zeta', 'MyProd', '_P', 'Zed', 'AbstractOne', 'AbstractTwo', 'abstract_three', 'Abstract', 'Kernels', 'AProductTwo', 'alpha', 'A']
BUILTIN = ['NetCDF_Gridded', 'cis', 'Caliop_L2', 'abstract_Caliop', 'NCAR_NetCDF_RAF', 'MODIS_L2', 'Aeronet', 'ASCII_Hyperpoints']
KERNELS = ['my_kernel', 'AKernel', 'moments_too']


def is_abstract(n):
    return n.startswith(('abstract', 'Abstract'))


def twist(rng, n):
    return ''.join(c.upper() if rng.random() < 0.15 else c for c in n) + rng.choice(['', '', '', 'x', '.nc'])


def glob_of(rng, n):
    out = ''
    for c in n:
        r = rng.random()
        out += '*' if r < 0.12 else '?' if r < 0.2 else '[%s]' % rng.choice(['a-z', '!q', 'A-C', '0-9', '.x']) if r < 0.25 else c
    return out if rng.random() < 0.6 else '*' + n[rng.randrange(len(n)):]


def random_cases(rng, tier):
    for _ in range(300 if tier == 'quick' else 6000):
        names = rng.sample(PLUGINS, rng.choice([0, 1, 2, 2, 3, 4]))
        pool = [twist(rng, rng.choice(NAMES)) for _ in range(rng.randint(1, 3))]
        plugins = []
        for k, n in enumerate(names):
            parent, fl = '', rng.randint(1, 3)
            if rng.random() < 0.4:
                parent = rng.choice([p['name'] for p in plugins] or ['NetCDF_Gridded']) if rng.random() < 0.6 else rng.choice(BUILTIN)
                fl = rng.choice([0, 10 + k])
                up = [p for p in plugins if p['name'] == parent]
                if fl == 0:
                    fl = up[0]['file'] if up else 1
            sigs = [[codes(glob_of(rng, rng.choice(pool)) or '*') for _ in range(rng.choice([1, 1, 2, 3]))] for _ in range(rng.choice([0, 1, 1, 2]))]
            plugins.append({'name': n, 'prio': rng.choice([0, 5, 9, 10, 10, 11, 15, 20, 20, 21, 50, 100, 100, 101]), 'sigs': sigs, 'rejects': rng.sample(CONTENTS, rng.choice([0, 0, 1, 4, 8])),
                            'abstract': is_abstract(n), 'parent': parent, 'inherit': bool(parent) and rng.random() < 0.4, 'file': fl, 'style': rng.randrange(4)})
        for p in plugins:
            p['name'], p['parent'] = codes(p['name']), codes(p['parent'])
        qs = []
        for _ in range(rng.randint(2, 6)):
            product = '' if rng.random() < 0.75 else rng.choice(names + BUILTIN + ['nothing', 'CIS'])
            qs.append({'name': codes(rng.choice(pool) if rng.random() < 0.7 else twist(rng, rng.choice(NAMES))), 'content': rng.choice(CONTENTS), 'product': codes(product),
                       'dir': rng.choice(['', '', 'd', 'x.nc', 'a.lev20']), 'more': codes(rng.choice(['', '', 'b.lev20', 'a.txt']))})
        yield {'plugins': plugins, 'kernels': [codes(k) for k in rng.sample(KERNELS, rng.choice([0, 0, 1, 2]))], 'home': rng.choice(['set', 'set', 'set', 'set', 'none', 'missing']),
               'asks': [codes(x) for x in rng.sample(KERNELS + names, rng.choice([0, 0, 1, 2]) if len(names) else 1)], 'queries': qs}


def regex(glob):
    import re
    out, k = '', 0
    while k < len(glob):
        c = glob[k]
        if c == '[':
            e = glob.index(']', k)
            out += '[' + glob[k + 1:e].replace('!', '^') + ']'
            k = e
        else:
            out += '.*' if c == '*' else '.' if c == '?' else re.escape(c)
        k += 1
    return out


def signature(sig, style):
    alts = [regex(text(a)) for a in sig]
    return {0: '|'.join(alts), 1: '(' + '|'.join(alts) + ')', 2: '|'.join(a + '$' for a in alts), 3: '|'.join('(?:%s)' % a for a in alts)}[style]


CLASS = '''
class {n}({parent}):
{body}
'''
DEFS = '''    priority = {prio}
    def get_file_signature(self):
        return {sigs!r}
    def get_file_type_error(self, filename):
        return ['not mine'] if os.path.basename(os.path.dirname(filename)).split('-')[0] in {rejects!r} else None
'''
MAKERS = '''    def create_data_object(self, filenames, variable):
        fail('data')
        return UngriddedData(np.array([1.0]), Metadata(name=str(variable), long_name=self.__class__.__name__, shape=(1,)), self._coords())
    def create_coords(self, filenames):
        fail('coords')
        return UngriddedCoordinates(self._coords())
    def _coords(self):
        n = self.__class__.__name__
        return CoordList([Coord(np.array([1.0]), Metadata(name=s, long_name=n, standard_name=s, shape=(1,)), a) for s, a in (('latitude', 'Y'), ('longitude', 'X'))])
    def get_variable_names(self, filenames, data_type=None):
        fail('names')
        return set([self.__class__.__name__])
    def get_file_format(self, filename):
        fail('format')
        return self.__class__.__name__
'''
HEAD = '''import os
import numpy as np
{odd}from cis.data_io.products.AProduct import AProduct
from cis.data_io.ungridded_data import UngriddedData, UngriddedCoordinates, Metadata
from cis.data_io.Coord import Coord, CoordList

def fail(when):
    what = os.environ.get('PLUGIN_FAILS', '').split()
    if what and what[0] == when:
        raise dict(empty=ValueError(), text=KeyError('some text'), number=IOError(2, 'no such thing'), other=RuntimeError(['a', 1]))[what[1]]
'''
HELPERS = '''
class AProductHelper(object):
    pass
class Helper(AProductHelper):
    def __init__(self, needed):
        pass
'''
KERNEL = '''from cis.collocation.col_framework import Kernel
class {n}(Kernel):
    def get_value(self, point, data):
        return 1.0
'''
MODULE = {'NetCDF_Gridded': 'gridded_NetCDF', 'cis': 'products', 'Caliop_L2': 'caliop', 'abstract_Caliop': 'caliop', 'NCAR_NetCDF_RAF': 'NCAR_NetCDF_RAF', 'MODIS_L2': 'MODIS', 'Aeronet': 'products',
          'ASCII_Hyperpoints': 'products'}


def write_plugins(case, home):
    files, where = {}, {}
    for p in case['plugins']:
        n, parent = text(p['name']), text(p['parent'])
        src = files.setdefault(p['file'], [HEAD.format(odd='from builtins import object\n' if p['style'] == 3 else '')] + ([HELPERS] if p['style'] > 1 else []))
        if parent in MODULE:
            src.append('from cis.data_io.products.%s import %s\n' % (MODULE[parent], parent))
        elif parent and where[parent] != p['file']:
            src.append('from plug%d import %s\n' % (where[parent], parent))
        body = '' if p['inherit'] and parent else DEFS.format(prio=p['prio'], sigs=[signature(s, p['style']) for s in p['sigs']], rejects=p['rejects'])
        src.append(CLASS.format(n=n, parent=parent or 'AProduct', body=body + (MAKERS if not p['abstract'] else '    pass\n')))
        where[n] = p['file']
    for k, n in enumerate(case['kernels']):
        files.setdefault(1 + k if k else 50, []).append(KERNEL.format(n=text(n)))
    for k, src in files.items():
        with open(os.path.join(home, 'plug%d.py' % k), 'w') as f:
            f.write(''.join(src))
    with open(os.path.join(home, 'readme.txt'), 'w') as f:
        f.write('class NotPython:\n')


_T = []


def template(content):
    """made in a child, once"""
    if not _T:
        d = os.path.join(os.getcwd(), 'contents')
        os.makedirs(d)

        def make():
            import netCDF4
            for c, at in ATTRIBUTES.items():
                n = netCDF4.Dataset(os.path.join(d, c), 'w', format='NETCDF4_CLASSIC')
                n.createDimension('x', 1)
                n.createVariable('v', 'f4', ('x',))[:] = 1
                for k, v in at.items():
                    n.setncattr(k, v)
                n.close()
            with open(os.path.join(d, 'text'), 'w') as f:
                f.write('some text\n')
            return ['written', '', 0]
        O.in_child(make)
        _T.append(d)
    return os.path.join(_T[0], content)


def ask(q, path, more, ours):
    import cis
    import cis.data_io.products.AProduct
    from cis.data_io.data_reader import DataReader
    from cis.exceptions import ClassNotFoundError
    A = sys.modules['cis.data_io.products.AProduct']
    product, files = text(q['product']) or None, [path] + more
    r = {'outcome': 'ok', 'got': [], 'uses': [], 'parse': '', 'why': '', 'fails': []}
    try:
        r['got'] = codes(A.get_product_full_name(files, product).split('/')[1])
        if text(r['got']) in ours:
            d = cis.read_data(files, 'v', product)
            c = DataReader().read_coordinates(files, product)
            v = A.get_variables(files, product)
            r['fails'] = failing(A, files, product, text(r['got']), q)
            r['uses'] = [codes(x) for x in [d.long_name, c.coord(standard_name='latitude').long_name] + sorted(v) + [A.get_file_format(files, product)]]
    except ClassNotFoundError:
        r['outcome'] = 'refused'
    except Exception as e:
        r['outcome'], r['why'] = 'error', '%s %s' % (type(e).__name__, str(e)[:200])
    if product and not set(path) & set(':'):
        r['parse'] = parses(['info', 'v:%s:product=%s' % (path, product)])
    return r


FAILS = {'empty': 'ValueError', 'text': 'KeyError', 'number': ('OSError', 'IOError', 'FileNotFoundError'), 'other': 'RuntimeError'}


def failing(A, files, product, name, q):
    """what is said when the product fails while it does one of the things it is asked for"""
    from cis.exceptions import FileFormatError
    said = []
    kind = sorted(FAILS)[(len(q['name']) + len(q['dir'])) % 4]
    for when, call in (('data', lambda: A.get_data(files, 'v', product)), ('coords', lambda: A.get_coordinates(files, product)), ('names', lambda: A.get_variables(files, product)),
                       ('format', lambda: A.get_file_format(files, product)), ('coords', lambda: A.get_file_format(files, product))):
        os.environ['PLUGIN_FAILS'] = when + ' ' + kind
        try:
            call()
            said.append('nothing')
        except A.ProductPluginException as e:
            kinds = FAILS[kind] if isinstance(FAILS[kind], tuple) else (FAILS[kind],)
            said.append('product' if name in str(e) and type(e.original_exception).__name__ in kinds and any(k in str(e) for k in kinds) else 'another product')
        except FileFormatError:
            said.append('format')
        except Exception as e:
            said.append(type(e).__name__)
        finally:
            os.environ.pop('PLUGIN_FAILS')
    return said


def parses(argv):
    from cis.parse import parse_args
    with contextlib.redirect_stderr(io.StringIO()):
        try:
            parse_args(argv)
        except SystemExit:
            return 'no'
    return 'yes'


def kernel(name):
    from cis.collocation.col_framework import get_kernel
    try:
        r = 'yes' if get_kernel(name).__name__ == name else 'another'
    except ValueError:
        r = 'no'
    with open('k.txt', 'w') as f:
        f.write('x')
    return r if parses(['aggregate', 'v:k.txt:kernel=' + name, 'x=[0,1,1]']) == r else 'parser differs'


def work(case, top):
    home = os.path.join(top, 'home')
    os.makedirs(home)
    write_plugins(case, home)
    os.environ.pop('CIS_PLUGIN_HOME', None)
    if case['home'] != 'none':
        os.environ['CIS_PLUGIN_HOME'] = home if case['home'] == 'set' else os.path.join(top, 'nowhere')
    sys.dont_write_bytecode = True
    os.chdir(top)
    out, ours = {'outcome': 'ok', 'q': [], 'k': []}, [text(p['name']) for p in case['plugins']]
    for k, q in enumerate(case['queries']):
        d = os.path.join(top, '%d' % k, q['dir'], q['content'] + '-')
        os.makedirs(d)
        path, more = os.path.join(d, text(q['name'])), []
        shutil.copyfile(template(q['content']), path)
        if q['more'] and text(q['more']) != text(q['name']):
            more = [os.path.join(d, text(q['more']))]
            open(more[0], 'w').close()
        out['q'].append(ask(q, path, more, ours))
    out['k'] = [kernel(text(n)) for n in case['asks']]
    return out


def execute(case):
    O.preload()
    template('plain')
    top = os.path.join(os.getcwd(), 'w%d' % next(COUNT))
    os.makedirs(top)
    try:
        res = P.child(top + '.json', lambda: work(case, top))
        if isinstance(res, list):
            return {'outcome': 'error', 'exc': 'crash', 'msg': str(res[1])[:300]}
        return res
    finally:
        shutil.rmtree(top)


def nontrivial(rec):
    return rec['out']['outcome'] == 'ok' and any(r['uses'] for r in rec['out']['q'])
