#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property.

1. generates the proof obligations of the property's contracts from the
   current source of /repo and discharges them (z3, cvc5);
2. replays counterexamples, and a fixed set of generated inputs (cross-check,
   not counted as proof), against the real code under /opt/venv;
3. writes evidence/<property>.json.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
REPO = os.environ.get('VERIF_REPO', '/repo')
VENV = '/opt/venv/bin/python'

GENERAL = [
    'machine floating point is treated as real arithmetic (rounding and '
    'overflow are not modelled); fixed-width integers as unbounded',
    'the contracts of the called libraries (engine/lib.py and the models '
    'named in trusted_base) are assumed',
    'the verification-condition generator in /verif/engine and the solvers '
    'are trusted']


def tasks_of(prop):
    """tasks of a property: its own, then those that prove the contracts of
    the functions it calls (USES of the contract module, by property; SUPPORT:
    contracts that say more than the property needs, whose failure leaves it
    undischarged but does not mean that it is broken)"""
    m = importlib.import_module('contracts.' + prop)
    out = [(prop, t) for t in m.REG.tasks]
    for other, names in list(getattr(m, 'USES', {}).items()) + list(
            getattr(m, 'SUPPORT', {}).items()):
        o = importlib.import_module('contracts.' + other)
        use = [t for t in o.REG.tasks if names is None or
               t.name.split('[')[0] in names]
        assert use and (names is None or set(names) == {
            t.name.split('[')[0] for t in use}), (prop, other)
        out += [(other, t) for t in use]
    return out


def worker(q, t, budget):
    from engine.vc import run_task
    try:
        q.put(run_task(t, REPO, budget))
    except BaseException as e:
        q.put({'task': t.name, 'status': 'unsupported',
               'error': 'crash: %r' % (e,), 'obligations': []})


def prove(prop, tier, budget, jobs):
    """run all tasks of a property in parallel processes"""
    tasks = tasks_of(prop)
    n = len(tasks)
    ctx = mp.get_context('fork')
    todo = list(range(n))
    running, results = {}, [None] * n
    t_end = time.time() + budget
    while todo or running:
        while todo and len(running) < jobs:
            i = todo.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=worker, args=(
                q, tasks[i][1], max(20.0, min(240.0, t_end - time.time()))))
            p.start()
            running[i] = (p, q, time.time())
        time.sleep(0.02)
        for i in list(running):
            p, q, t0 = running[i]
            if not q.empty():
                results[i] = q.get()
                p.join()
                del running[i]
            elif not p.is_alive():
                results[i] = {'task': tasks[i][1].name,
                              'status': 'unsupported', 'obligations': [],
                              'error': 'process ended'}
                del running[i]
            elif time.time() > t_end + 60:
                p.kill()
                p.join()
                results[i] = {'task': tasks[i][1].name,
                              'status': 'unsupported', 'obligations': [],
                              'error': 'out of time'}
                del running[i]
    for (owner, _), r in zip(tasks, results):
        r['owner'] = owner
        if owner != prop:
            r['task'] = '%s: %s' % (owner, r['task'])
    return results


def start_replay(prop, tier, seed, out, hints=None, budget=60):
    f = os.path.join(HERE, 'replay', prop + '.py')
    if not os.path.exists(f):
        return None
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    env = dict(os.environ)
    env.update({'PYTHONPATH': ':'.join([
        os.path.join(HERE, 'replay'), REPO, REPO + '/utilities',
        REPO + '/topographic']),
        'PYTHONDONTWRITEBYTECODE': '1', 'VERIF_REPO': REPO,
        'PYTHONHASHSEED': '0', 'OMP_NUM_THREADS': '1',
        'OPENBLAS_NUM_THREADS': '1', 'NUMEXPR_MAX_THREADS': '1',
        'HOME': scratch, 'TMPDIR': scratch})
    cmd = [VENV, f, '--seed', str(seed), '--tier', tier, '--out', out,
           '--budget', str(budget)]
    if hints:
        cmd += ['--hints', hints]
    log = open(out + '.log', 'w')
    p = subprocess.Popen(cmd, cwd=scratch, env=env, stdout=log,
                         stderr=subprocess.STDOUT)
    return p, scratch, out, time.time(), budget


def end_replay(h):
    if h is None:
        return None
    p, scratch, out, t0, budget = h
    try:
        p.wait(timeout=max(5, budget + 120 - (time.time() - t0)))
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
    shutil.rmtree(scratch, ignore_errors=True)
    try:
        with open(out) as f:
            return json.load(f)
    except (OSError, ValueError):
        try:
            with open(out + '.log') as f:
                log = f.read().split('\nExtension modules:')[0][-1500:]
        except OSError:
            log = ''
        crash = {-signal.SIGSEGV: 'SIGSEGV', -signal.SIGABRT: 'SIGABRT',
                 -signal.SIGBUS: 'SIGBUS', -signal.SIGFPE: 'SIGFPE',
                 -signal.SIGILL: 'SIGILL'}.get(p.returncode)
        return {'tried': 1, 'distinct': 1, 'failures': [{
            'what': 'the process is ended by ' + crash,
            'input': {'log of the harness': log}}] if crash else [],
                'error': 'harness did not finish: ' + log}
    finally:
        for x in (out, out + '.log'):
            if os.path.exists(x):
                os.unlink(x)


def induction(assumed):
    """the lemmas that need induction are proved in Lean: run it on the files
    that the tasks of this property name"""
    out = {}
    for name in sorted(set(re.findall(r'lemmas/\w+\.lean',
                                      ' '.join(assumed)))):
        t0 = time.time()
        try:
            p = subprocess.run(['lean', os.path.join(HERE, name)], text=True,
                               capture_output=True, timeout=200)
            msg = p.stdout + p.stderr
            ok = p.returncode == 0 and 'sorry' not in msg
        except (OSError, subprocess.TimeoutExpired) as e:
            ok, msg = False, repr(e)
        with open(os.path.join(HERE, name)) as f:
            n = len(re.findall(r'^theorem ', f.read(), re.M))
        out[name] = {'accepted': ok, 'theorems': n, 'messages': msg[-500:],
                     'time_s': round(time.time() - t0, 2)}
    return out


def known_findings(prop):
    out = []
    f = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                out.append(line.split('key=', 1)[1].split(' ', 1))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    prop = a.prop
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    thorough = a.tier == 'thorough'
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(evdir, 'replay'), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='verif_check_')
    mod = importlib.import_module('contracts.' + prop)
    bud = getattr(mod, 'REPLAY_BUDGET', 40) * (6 if thorough else 1)
    rp = start_replay(prop, a.tier, seed, os.path.join(tmp, 'r.json'),
                      None, bud)
    try:
        results = prove(prop, a.tier, 700.0 if thorough else
                        getattr(mod, 'BUDGET', 240.0), 8)
        rr = end_replay(rp)
        rp = None
        obls = [(r, o) for r in results for o in r.get('obligations', [])
                or r.get('partial', [])]
        support = getattr(mod, 'SUPPORT', {})
        failed = [(r, o) for r, o in obls if o['status'] == 'cex' and
                  r['owner'] not in support]
        open_ = [(r, o) for r, o in obls if o['status'] == 'cex' and
                 r['owner'] in support]
        unknown = [(r, o) for r, o in obls if o['status'] == 'unknown']
        undecided = [r for r in results if r['status'] != 'ok']
        # replay the verifier's counterexamples
        # (that of a called function's contract: with the harness of the
        # property the contract belongs to)
        harness = prop
        owners = sorted({r['owner'] for r, o in failed},
                        key=lambda x: x != prop)
        for owner in owners if not (rr and rr['failures']) else ():
            hf = os.path.join(tmp, 'hints.json')
            with open(hf, 'w') as f:
                json.dump([dict(o['model'], _task=r['task'].split(': ')[-1],
                                _obligation=o['name'])
                           for r, o in failed if r['owner'] == owner], f)
            r2 = end_replay(start_replay(
                owner, a.tier, seed + 1000, os.path.join(tmp, 'r2.json'), hf,
                30))
            if r2 and r2['failures']:
                rr, harness = r2, owner
                break
    finally:
        if rp is not None:
            end_replay(rp)
        shutil.rmtree(tmp, ignore_errors=True)
    # ---------------------------------------------------------- verdict
    n_obl = len(obls)
    n_ok = sum(1 for _, o in obls if o['status'] == 'proved')
    known = known_findings(prop)
    failures = list(rr['failures']) if rr else []
    new, old = [], []
    for f in failures:
        hit = [k for k in known if k[0] == f.get('key', '')]
        (old if hit else new).append(f)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (
            prop, k[1] if len(k) > 1 else k[0]))
    definite = [(r, o) for r, o in failed if o.get('exact')]
    verdict = 'held'
    line = None
    rfile = os.path.join(evdir, 'replay', prop + '.json')
    if os.path.exists(rfile):
        os.unlink(rfile)
    why = [{'task': r['task'], 'obligation': o['name'], 'in': o['func'],
            'status': o['status'], 'model': o['model'],
            'verifier_output': o['detail']} for r, o in failed + unknown + open_]
    if new:
        verdict = 'violated'
        with open(rfile, 'w') as f:
            json.dump({'property': prop, 'failing_inputs': new[:5],
                       'failed_obligations': why[:10],
                       'how': 'run %s %s with PYTHONPATH=%s:... --seed %d '
                       '--tier %s --out FILE' % (
                           VENV, os.path.join(HERE, 'replay', harness + '.py'),
                           REPO, seed, a.tier)}, f, indent=1)
        line = 'VIOLATION property=%s replay=%s' % (prop, rfile)
    elif definite:
        verdict = 'violated'
        with open(rfile, 'w') as f:
            json.dump({'property': prop, 'failed_obligations': why[:20],
                       'failing_inputs': []}, f, indent=1)
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (
            prop, rfile)
    elif failed or unknown or open_ or undecided or n_ok < n_obl or not n_obl:
        verdict = 'undischarged: bounded cross-check only'
    funcs = sorted({f for r in results for f in r.get('functions', [])})
    assumed = sorted({x for r in results for x in r.get('assumed', [])} |
                     {x for r in results for x in r.get('trusted', [])})
    lemmas = induction(assumed)
    if verdict == 'held' and not all(x['accepted'] for x in lemmas.values()):
        verdict = 'undischarged: a lemma is not proved'
    backs = {}
    for _, o in obls:
        if o['status'] == 'proved':
            backs[o['backend']] = backs.get(o['backend'], 0) + 1
    level = getattr(mod, 'LEVEL', 'proof')
    samples = (rr or {}).get('samples', [])[:3]
    bounded = getattr(mod, 'BOUNDED', [])
    cov = {
        'obligations': n_obl, 'discharged': n_ok,
        'checker_cmd': 'python3-vt check.py %s --tier %s' % (prop, a.tier),
        'trusted_base': assumed or ['engine/lib.py'],
        'functions_under_contract': funcs,
        'contract_functions': sorted({x for _, t in tasks_of(prop)
                                      for x in t.funcs}),
        'tasks': [{'task': r['task'], 'status': r['status'],
                   'error': r.get('error'), 'vacuity': r.get('vacuity'),
                   'obligations': len(r['obligations']),
                   'time_s': r.get('time'),
                   'solver_s': r.get('solver_time'),
                   'queries': r.get('queries')} for r in results],
        'discharged_by': backs,
        'lemmas_by_induction': lemmas,
        'solver_time_s': round(sum(r.get('solver_time') or 0
                                   for r in results), 2),
        'not_discharged': why[:20],
        'bounded_stand_ins': bounded,
        'verdict': verdict,
        'evaluations': (rr or {}).get('tried', 0),
        'distinct_nontrivial': (rr or {}).get('distinct', 0),
        'rule': 'cross-check of the real code under CPython against the '
                'executable form of the same specification; not counted as '
                'proof. ' + ((rr or {}).get('rule') or ''),
        'samples': samples,
        'crosscheck_error': (rr or {}).get('error'),
        'crosscheck_failures': len(failures),
        'explanation': getattr(mod, '__doc__', '') or ''}
    ev = {'property': prop, 'tier': 'thorough' if thorough else 'quick',
          'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': GENERAL + list(getattr(mod, 'ASSUMPTIONS', [])),
          'wall_s': round(time.time() - t0, 2),
          'violations': 1 if verdict == 'violated' else 0}
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %s; %d obligations, %d discharged; cross-check %d inputs, %d '
          'failures; %.1f s' % (prop, verdict, n_obl, n_ok,
                                cov['evaluations'], len(failures),
                                ev['wall_s']))
    if a.v:
        for r in results:
            print('  task', r['task'], r['status'], r.get('error') or '',
                  r.get('time'), r.get('vacuity'))
        for w in why:
            print('  !', w['task'], w['obligation'], w['in'], w['status'],
                  w['model'], w['verifier_output'][:600])
        for f in new[:5]:
            print('  x', json.dumps(f)[:1500])
        if rr and rr.get('error'):
            print('  harness:', rr['error'])
    if line:
        print(line)
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
