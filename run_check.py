#!/usr/bin/env python3-vt
"""run_check.py Cxx: decide one property on /repo's current tree (proof obligations + bounded replay harness)."""
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else 'python3'


def anchors(pid):
    for l in open(os.path.join(HERE, 'properties.jsonl')):
        d = json.loads(l)
        if d['id'] == pid:
            return d
    raise SystemExit('unknown property ' + pid)


def repo_files(root):
    out = []
    for d, ds, fs in os.walk(os.path.join(root, 'eckity')):
        if 'tests' in d.split(os.sep):
            continue
        out += [os.path.relpath(os.path.join(d, f), root) for f in fs if f.endswith('.py')]
    return sorted(out)


def start_harness(pid, seed, tier, files, scratch, limit=None):
    out = os.path.join(scratch, 'harness.json')
    env = dict(os.environ, PYTHONPATH=os.environ.get('PYCV_REPO', '/repo') + os.pathsep + HERE, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', HOME=scratch, MPLBACKEND='Agg', MPLCONFIGDIR=scratch, HARNESS_LIMIT=str(limit or ''))
    log = open(os.path.join(scratch, 'harness.log'), 'w')
    p = subprocess.Popen([PY, os.path.join(HERE, 'harness', 'common.py'), pid, str(seed), tier, out, json.dumps(files)],
                         cwd=scratch, env=env, stdout=log, stderr=subprocess.STDOUT)
    return p, out, log.name


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    root = os.environ.get('PYCV_REPO', '/repo')
    t0 = time.time()
    prop = anchors(pid)
    scratch = tempfile.mkdtemp(prefix='verif_' + pid + '_')
    outdir = os.path.join(HERE, 'out')
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    try:
        hp, hout, hlog = start_harness(pid, seed, tier, prop['anchors']['files'], scratch)
        # ---- proof obligations, generated from the current source
        units, perr = [], None
        try:
            m = importlib.import_module('props.' + pid.lower())
            from pycv.unit import run_units
            names = list(m.UNITS)
            units = run_units('props.' + pid.lower(), names, jobs=7, limit=getattr(m, 'LIMIT', 300 if tier == 'quick' else 600))
        except ModuleNotFoundError as e:
            if 'props' not in str(e):
                perr = str(e)
        except Exception as e:
            perr = repr(e)
        # ---- bounded harness
        try:
            hp.wait(timeout=max(10, (860 if tier == 'quick' else 3000) - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            hp.kill()
            hp.wait()
        try:
            har = json.load(open(hout))
        except Exception:
            har = dict(error='harness ended without a result: ' + open(hlog).read()[-2000:], violation=None, evaluations=0, distinct=0, samples=[], per_case={})
        # ---- where the verifier could not decide, the harness explores further (still bounded, still not proof)
        weak = [u['unit'] for u in units if u['status'] != 'ok' or any(o['status'] not in ('proved', 'sat', 'incomplete', 'vacuous') for o in u['obligations'])]
        room = 640 - (time.time() - t0)
        if weak and tier == 'quick' and not har.get('violation') and room > 60:
            more = []
            for k in range(4):
                sc = os.path.join(scratch, 'more%d' % k)
                os.makedirs(sc)
                more.append(start_harness(pid, seed + 1000 * (k + 1), 'thorough', prop['anchors']['files'], sc, room - 30))
            for p_, out_, log_ in more:
                try:
                    p_.wait(timeout=max(5, 680 - (time.time() - t0)))
                except subprocess.TimeoutExpired:
                    p_.kill()
                    p_.wait()
                try:
                    h2 = json.load(open(out_))
                except Exception:
                    continue
                har['evaluations'] += h2['evaluations']
                har['violation'] = har.get('violation') or h2.get('violation')
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    obs = [dict(o, unit=u['unit']) for u in units for o in u['obligations']]
    proved = [o for o in obs if o['status'] == 'proved']
    failed = [o for o in obs if o['status'] in ('sat', 'incomplete', 'vacuous')]
    undecided = [dict(unit=u['unit'], why=u['status'], message=u.get('message', '')[-600:]) for u in units if u['status'] != 'ok']
    undecided += [dict(unit=o['unit'], why=o['status'], message=o['name']) for o in obs if o['status'] not in ('proved', 'sat', 'incomplete', 'vacuous')]
    for u in units:
        if u['status'] == 'ok' and not u['obligations']:
            undecided.append(dict(unit=u['unit'], why='no obligations generated', message=''))
    violation = None
    replay = os.path.join(outdir, '%s.replay.json' % pid)
    if os.path.exists(replay):
        os.remove(replay)
    if har.get('violation'):
        violation = dict(har['violation'], kind='failing input, replayed on the real code', failed_obligations=failed[:10],
                         how_to_replay='cd %s && PYTHONPATH=/repo:%s %s harness/common.py replay %s' % (HERE, HERE, PY, replay))
        tail = ''
    elif failed:
        violation = dict(property=pid, kind='proof obligation failed, no failing input found', failed_obligations=failed[:30])
        tail = ' no-failing-input-found'
    level = 'proof' if proved else 'exploration'
    fns = sorted({f for u in units for f in u['functions']})
    cov = dict(obligations=len(obs), discharged=len(proved), checker_cmd='python3-vt %s/run_check.py %s' % (HERE, pid),
               trusted_base=['z3 %s and cvc5 back ends' % z3v(), 'pycv: generator of verification conditions from the repository\'s Python AST (this directory)',
                             'CPython semantics as documented in DESIGN.md (mathematical integers and reals)']
               + sorted({c for u in units for c in u['assumed']}),
               functions_under_contract=fns, n_functions=len(fns),
               callee_contracts_used=sorted({c for u in units for c in u['contracts']}),
               loops=[dict(unit=u['unit'], loops=u['loops']) for u in units if u['loops']],
               backends=count(o['backend'] for o in proved), solver_s=round(sum(o['s'] for o in obs), 2),
               vacuity_covers=sum(len(u['covers']) for u in units),
               units=[dict(unit=u['unit'], status=u['status'], obligations=len(u['obligations']), discharged=sum(o['status'] == 'proved' for o in u['obligations']), wall_s=u['wall_s']) for u in units],
               undecided=undecided, bounded_harness=dict(label='bounded, not counted as proved', evaluations=har['evaluations'], distinct=har['distinct'],
                                                         per_case=har['per_case'], truncated=har.get('truncated'), error=har.get('error'), wall_s=har.get('wall_s')),
               evaluations=har['evaluations'], distinct_nontrivial=har['distinct'],
               rule='cases of harness/%s.py: generated from the seed, distinct by parameters; each runs the real code and checks the property\'s contract' % pid.lower(),
               samples=har['samples'] or ['none'])
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=sorted({c for u in units for c in u['assumed']}), wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    print('%s: %d obligations, %d discharged, %d failed, %d undecided; harness %d cases; %.1f s' % (pid, len(obs), len(proved), len(failed), len(undecided), har['evaluations'], time.time() - t0))
    for u in undecided:
        print('UNDECIDED', u['unit'], u['why'], u['message'][:200].replace('\n', ' | '))
    for o in failed[:10]:
        print('FAILED OBLIGATION [%s] %s' % (o['unit'], o['name']))
    if har.get('error'):
        print('HARNESS ERROR ' + har['error'][-1500:])
    if violation:
        json.dump(violation, open(replay, 'w'), indent=1, default=str)
        if 'message' in violation:
            print(violation['message'][:1500])
        print('VIOLATION property=%s replay=%s%s' % (pid, replay, tail))
        return 1
    if perr or (har.get('error') and not har['evaluations'] and not proved):
        print('CHECK ERROR', perr or har.get('error'))
        return 2
    for l in known(pid):
        print(l)
    return 0


def known(pid):
    p = os.path.join(HERE, 'known_findings.txt')
    return ['KNOWN-FINDING: ' + l.strip()[len('finding: '):] for l in open(p) if l.startswith('finding: property=%s ' % pid)] if os.path.exists(p) else []


def count(xs):
    d = {}
    for x in xs:
        d[x] = d.get(x, 0) + 1
    return d


def z3v():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    sys.exit(main())
