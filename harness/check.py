"""Entry point of every check:  check.py <PROPERTY> [--tier quick|thorough] [--replay FILE]"""
import argparse
import importlib
import json
import os
import random
import re
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common as C

# property -> area modules deciding it
AREAS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'areas.json')))
NPROC = 8


def execute_all(area, cases, seconds):
    """Execute the cases against the real code in NPROC forked children; a child that dies loses nothing silently."""
    outs = [None] * len(cases)
    paths, pids = [], []
    nproc = min(NPROC, max(1, len(cases) // 4))
    sys.stdout.flush()
    for w in range(nproc):
        path = os.path.join(os.getcwd(), 'out_%d.jsonl' % w)
        paths.append(path)
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                d = os.path.join(os.getcwd(), 'w%d' % w)
                os.makedirs(d, exist_ok=True)
                os.chdir(d)
                devnull = os.open(os.devnull, os.O_RDWR)
                os.dup2(devnull, 0), os.dup2(devnull, 1), os.dup2(devnull, 2)
                import logging
                import warnings
                with open(path, 'w') as f:
                    for k in range(w, len(cases), nproc):
                        warnings.simplefilter('ignore')
                        logging.disable(logging.CRITICAL)
                        try:
                            out = C.guarded(area.execute, cases[k], seconds)
                        except SystemExit as e:
                            out = {'outcome': 'error', 'exc': 'SystemExit', 'msg': str(e.code)}
                        except Exception as e:          # an unexpected failure of the code is an observation
                            out = C.outcome_of(e)
                        f.write(json.dumps([k, out]) + '\n')
                        f.flush()
            except BaseException:
                code = 1
            finally:
                os._exit(code)
        pids.append(pid)
    for pid in pids:
        os.waitpid(pid, 0)
    for path in paths:
        if os.path.exists(path):
            for line in open(path):
                k, out = json.loads(line)
                outs[k] = out
    return [o if o is not None else {'outcome': 'crash', 'exc': 'crash'} for o in outs]


def judge(area, recs, scratch, timeout):
    """TLC judges the recorded executions. Returns ({case index: [failing clauses]}, TLCResult)."""
    fails, generated, distinct = {}, 0, 0
    recs = list(recs)
    for attempt in range(12):
        trace = os.path.join(scratch, 'trace_%s.ndjson' % area.JUDGE)
        with open(trace, 'w') as f:
            for r in recs:
                f.write(json.dumps(r) + '\n')
        res = C.run_tlc(area.JUDGE, cfg=getattr(area, 'JUDGE_CFG', 'Judge'), env={'VERIF_TRACE': trace},
                        scratch=scratch, timeout=timeout)
        if res.ok:
            break
        # An observation the specification cannot even interpret (wrong shape or type) is no behaviour of it.
        m = re.findall(r'(?m)^i = (\d+)', res.out[res.out.find('Error:'):]) if 'Error:' in res.out else []
        if not m or 'valuat' not in res.out:
            raise C.TLCError('judge %s failed:\n%s' % (area.JUDGE, res.out[-3000:]))
        k = int(m[-1]) - 1
        fails.setdefault(recs[k]['id'], []).append('uninterpretable')
        del recs[k]
        if attempt == 5:        # enough: each of them is a violation already
            break
    expected = area.judge_states(recs) if hasattr(area, 'judge_states') else len(recs)
    if res.ok and res.distinct != expected:
        raise C.TLCError('judge %s visited %d of %d states\n%s' % (area.JUDGE, res.distinct, expected, res.out[-2000:]))
    for m in re.finditer(r'<<\s*"FAIL",\s*(\d+),\s*(\{[^}]*\})', res.out):
        fails.setdefault(int(m.group(1)), []).extend(re.findall(r'"([^"]*)"', m.group(2)))
    n_fail = res.out.count('"FAIL"')
    if n_fail and not fails:
        raise C.TLCError('unparsed judge output\n' + res.out[-2000:])
    return fails, res


def gen_cases(area, tier, scratch):
    """Behaviours enumerated by TLC from the specification."""
    cases, stat = [], {'gen_states': 0}
    for g in getattr(area, 'GEN', []):
        out = os.path.join(scratch, 'gen_%s.ndjson' % g)
        res = C.run_tlc(g, cfg='Gen', env={'VERIF_OUT': out, 'VERIF_TIER': tier}, scratch=scratch, workers='1')
        if not os.path.exists(out):
            raise C.TLCError('generator %s failed:\n%s' % (g, res.out[-4000:]))
        for line in open(out):
            if line.strip():
                cases.append(json.loads(line))
    return cases, stat


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    prop, tier, seed = a.property, a.tier, a.seed
    t0 = time.time()
    scratch = C.setup_env()
    findings = [f for f in json.load(open(os.path.join(C.VERIF, 'KNOWN_FINDINGS.json')))['findings']
                if f['property'] == prop]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [],
                       'distinct_nontrivial': 0, 'spec_generated': 0, 'recorded': 0, 'areas': {}}}
    cov = ev['coverage']
    violations, known_hit = [], set()
    rc = 0
    try:
        for name in AREAS[prop]:
            area = importlib.import_module('areas.' + name)
            if hasattr(area, 'for_property'):
                area.for_property(prop)
            acov = {}
            if not a.replay:
                for mod, cfg in (area.models(tier) if hasattr(area, 'models') else []):
                    res = C.run_tlc(mod, cfg=cfg, scratch=scratch)
                    if not res.ok:
                        raise C.TLCError('model %s/%s:\n%s' % (mod, cfg, res.out[-5000:]))
                    cov['states'] += res.distinct
                    cov['transitions'] += res.generated
                    acov['model_' + cfg] = {'states': res.distinct, 'generated': res.generated, 'depth': res.depth}
                gcases, _ = gen_cases(area, tier, scratch)
                for c in gcases:
                    c['src'] = 'spec'
                rng = random.Random('%s/%s/%d/%s' % (prop, name, seed, tier))
                rcases = list(area.random_cases(rng, tier))
                for c in rcases:
                    c['src'] = 'rand'
                cases = gcases + rcases
            else:
                rp = json.load(open(a.replay))
                if rp['area'] != name:
                    continue
                cases, gcases, rcases = [rp['case']], [], []
            tm = time.time()
            outs = execute_all(area, cases, getattr(area, 'SECONDS', 30))
            texec = time.time() - tm
            recs = []
            for k, (c, o) in enumerate(zip(cases, outs)):
                r = dict(c)
                r['id'] = k
                r['out'] = o
                recs.append(r)
            tm = time.time()
            fails, res = judge(area, [area.project(r) if hasattr(area, 'project') else r for r in recs], scratch, 800)
            acov.update({'spec_generated': len(gcases), 'recorded': len(rcases), 'judge_states': res.distinct,
                         'exec_s': round(texec, 1), 'judge_s': round(time.time() - tm, 1)})
            cov['states'] += res.distinct
            cov['transitions'] += res.generated
            cov['spec_generated'] += len(gcases)
            cov['recorded'] += len(rcases)
            cov['traces_validated_against_impl'] += len(recs)
            nt = [r for r in recs if area.nontrivial(r)] if hasattr(area, 'nontrivial') else recs
            cov['distinct_nontrivial'] += len(set(json.dumps({k: v for k, v in r.items() if k not in ('id', 'src')},
                                                             sort_keys=True) for r in nt))
            cov['samples'] += [json.dumps(r)[:600] for r in (nt or recs)[:1] + (nt or recs)[-1:]]
            outcomes = {}
            for r in recs:
                kk = r['out'].get('outcome', '?')
                outcomes[kk] = outcomes.get(kk, 0) + 1
            acov['outcomes'] = outcomes
            cov['areas'][name] = acov
            for k in sorted(fails):
                case, out = cases[k], outs[k]
                hit = None
                for f in findings:
                    if area.matches_finding(f, case, out, fails[k]):
                        hit = f
                if hit:
                    known_hit.add(hit['id'])
                    continue
                violations.append((name, case, out, fails[k]))
        for f in findings:
            if f['id'] in known_hit or a.replay:
                print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
        if violations:
            rc = 1
            d = os.path.join(C.EVID, 'replays')
            os.makedirs(d, exist_ok=True)
            groups = {}
            for v in violations:
                groups.setdefault((v[0], tuple(sorted(set(v[3]))), v[2].get('exc', ''), v[2].get('msg', '')[:60]), []).append(v)
            for g, vs in groups.items():
                print('  group %s %s %s %s: %d' % (g[0], ','.join(g[1]), g[2], g[3], len(vs)))
            shown = [vs[0] for vs in groups.values()][:5]
            for n, (name, case, out, clauses) in enumerate(shown):
                path = os.path.join(d, '%s_%d.json' % (prop, n))
                json.dump({'property': prop, 'area': name, 'case': case, 'out': out, 'clauses': clauses},
                          open(path, 'w'), indent=1)
                print('VIOLATION property=%s replay=%s clauses=%s (%d failing of %d)'
                      % (prop, path, ','.join(sorted(set(clauses))), len(violations),
                         cov['traces_validated_against_impl']))
    except C.TLCError as e:
        print('CHECK-ERROR', e)
        rc = 2
    finally:
        ev['wall_s'] = round(time.time() - t0, 2)
        ev['violations'] = len(violations)
        if rc != 2 and not a.replay:
            os.makedirs(C.EVID, exist_ok=True)
            json.dump(ev, open(os.path.join(C.EVID, prop + '.json'), 'w'), indent=1)
        if not a.keep:
            C.cleanup(scratch)
        else:
            print('scratch', scratch)
    if rc == 0:
        print('OK property=%s tier=%s states=%d traces=%d (%.1fs)' % (prop, tier, cov['states'],
                                                                      cov['traces_validated_against_impl'], ev['wall_s']))
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
