"""Shared machinery of the conformance harness: environment, TLC runner, encodings, evidence, known findings.

Everything the checks decide is decided by TLC evaluating the TLA+ specification in /verif/spec.  This package only
  * asks TLC to enumerate behaviours of the specification (Gen*.tla),
  * replays behaviours into the real code of /repo and records what was observed, as ndjson,
  * asks TLC to judge the recorded traces against the specification (Judge.tla).
"""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
EVID = os.path.join(VERIF, 'evidence')
TLA_JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

BAD = 77777777      # a float that is not on the specification's integer grid
NAN = 66666666      # NaN
INF = 55555555
MASKED = 99999999   # a masked (missing) element
SPECIAL = {77777777, 66666666, 99999999}


def setup_env():
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ['MPLBACKEND'] = 'Agg'
    os.environ['TZ'] = 'UTC'
    os.environ['OMP_NUM_THREADS'] = '1'
    for v in ('CIS_DATA_HOME', 'CIS_PLUGIN_HOME', 'PYTHONPATH', 'CIS_FORCE_OVERWRITE'):
        os.environ.pop(v, None)
    sys.dont_write_bytecode = True
    time.tzset()
    scratch = tempfile.mkdtemp(prefix='cisverif_')
    os.environ['MPLCONFIGDIR'] = os.path.join(scratch, 'mpl')
    os.environ['HOME'] = scratch                      # cis.log goes to the home directory
    os.chdir(scratch)
    if '/repo' not in sys.path:
        sys.path.insert(0, '/repo')
    import logging
    import warnings
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    import numpy
    numpy.seterr(all='ignore')
    return scratch


def cleanup(scratch):
    os.chdir('/')
    if scratch.startswith(tempfile.gettempdir()) and 'cisverif_' in scratch:
        shutil.rmtree(scratch, ignore_errors=True)


# ------------------------------------------------------------------ TLC
class TLCError(Exception):
    pass


class TLCResult(object):
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r'The depth of the complete state graph search is (\d+)', out)
        self.depth = int(m[-1]) if m else 0

    @property
    def ok(self):
        return 'No error has been found' in self.out or 'Model checking completed. No error' in self.out


def run_tlc(module, cfg=None, env=None, workers='8', scratch=None, timeout=800, heap='4g', extra=()):
    """Run TLC on spec/<module>.tla with spec/<cfg>; returns a TLCResult."""
    meta = tempfile.mkdtemp(prefix='tlc_', dir=scratch)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + meta, '-cp', TLA_JARS,
           'tlc2.TLC', '-metadir', meta, '-workers', str(workers), '-deadlock', '-noGenerateSpecTE',
           '-config', (cfg or module) + '.cfg'] + list(extra) + [module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out = p.stdout.decode('utf-8', 'replace')
        return TLCResult(out, p.returncode)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


# ------------------------------------------------------------------ encodings
def enc(x, scale=1, tol=1e-6, rel=1e-9):
    """A float on the specification's integer grid (1 spec unit = 1/scale)."""
    import numpy as np
    try:
        x = float(x)
    except (TypeError, ValueError):
        return BAD
    if np.isnan(x):
        return NAN
    if np.isinf(x):
        return INF
    y = x * scale
    r = round(y)
    if abs(y - r) > max(tol, rel * abs(y)) or abs(r) > 50000000:
        return BAD
    return int(r)


def encr(x, scale):
    """A float rounded to 1/scale (for values the specification compares with a tolerance)."""
    import numpy as np
    try:
        x = float(x)
    except (TypeError, ValueError):
        return BAD
    if np.isnan(x):
        return NAN
    if np.isinf(x) or abs(x * scale) > 50000000:
        return INF
    return int(round(x * scale))


def enc_arr(a, scale=1, rounded=False):
    """A (masked) array, flattened in C order, as a list of spec integers; masked elements become MASKED."""
    import numpy as np
    a = np.ma.asarray(a)
    m = np.ma.getmaskarray(a).ravel()
    d = np.asarray(np.ma.getdata(a)).ravel()
    if rounded:
        return [MASKED if mm else encr(v, scale) for v, mm in zip(d, m)]
    # how much of the value can be trusted depends on how it was held
    rel = 1e-9 if d.dtype.kind != 'f' or d.dtype.itemsize > 4 else 1e-6
    return [MASKED if mm else enc(v, scale, rel=rel) for v, mm in zip(d, m)]


class CaseTimeout(Exception):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def guarded(fn, case, seconds=30):
    """Run fn(case) -> dict of observations; any exception is an observed outcome, never a harness crash."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(seconds)
    try:
        return fn(case)
    except CaseTimeout:
        return {'outcome': 'timeout', 'exc': 'timeout'}
    finally:
        signal.alarm(0)


def outcome_of(exc):
    return {'outcome': 'error', 'exc': type(exc).__name__, 'msg': str(exc)[:200]}
