"""Check driver:  main.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--sub NAME] [--jobs N]"""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import core  # noqa

PY = sys.executable
HARD_WALL = {'quick': 840., 'thorough': 6*3600.}


def load_known(pid):
    p = os.path.join(core.VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [e for e in json.load(open(p))['findings']
            if e.get('property') == pid and e.get('status') == 'known']


def replay(pid, path):
    core.import_hypothesis()
    mod = importlib.import_module('checks.' + pid)
    d = json.load(open(path))
    sub = [s for s in mod.SUBS if s.name == d['sub']][0]
    msg = core.run_case(sub, d['case'], core.Ctx())
    if msg is None:
        print('replay: property held')
        return 0
    print('replay: ' + msg)
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--sub')
    ap.add_argument('--jobs', type=int, default=os.cpu_count() or 4)
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    pid = a.property
    if a.replay:
        sys.exit(replay(pid, a.replay))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    core.import_hypothesis()
    mod = importlib.import_module('checks.' + pid)
    tmp = tempfile.mkdtemp(prefix='vt_%s_' % pid)
    rc = 3
    try:
        rc = drive(a, pid, seed, t0, mod, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def drive(a, pid, seed, t0, mod, tmp):
    jobs = []
    for sub in mod.SUBS:
        if a.sub and sub.name != a.sub:
            continue
        n = sub.shards if a.tier == 'quick' else sub.thorough_shards
        for k in range(n):
            jobs.append((sub, k, n))
    jobs.sort(key=lambda j: -j[0].budget)
    env = dict(os.environ)
    env['TMPDIR'] = tmp
    env['MPLCONFIGDIR'] = tmp
    running, results, errors = [], [], []
    hard = t0 + HARD_WALL[a.tier]
    queue = list(jobs)
    while queue or running:
        while queue and len(running) < a.jobs:
            sub, k, n = queue.pop(0)
            out = os.path.join(tmp, '%s_%d.json' % (sub.name, k))
            p = subprocess.Popen([PY, os.path.join(HERE, 'worker.py'), pid, sub.name, str(k), str(n),
                                  str(seed), a.tier, out], env=env, cwd=tmp,
                                 stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                 stderr=subprocess.DEVNULL)
            running.append((p, sub, k, out))
        time.sleep(0.02)
        still = []
        for p, sub, k, out in running:
            if p.poll() is None:
                if time.time() > hard:
                    p.kill()
                    p.wait()
                    errors.append('%s[%d]: no answer within the wall limit' % (sub.name, k))
                else:
                    still.append((p, sub, k, out))
                continue
            if os.path.exists(out):
                r = json.load(open(out))
                results.append(r)
                if r['error']:
                    errors.append('%s[%d]: %s' % (sub.name, k, r['error']))
            else:
                log = ''
                if os.path.exists(out + '.log'):
                    log = open(out + '.log', errors='replace').read()[-2000:]
                errors.append('%s[%d]: worker died (exit %s)\n%s' % (sub.name, k, p.returncode, log))
        running = still

    # known findings: re-run their stored case
    known_lines = []
    for e in load_known(pid):
        if a.sub and e['sub'] != a.sub:
            continue
        sub = [s for s in mod.SUBS if s.name == e['sub']][0]
        devnull = os.open(os.devnull, os.O_WRONLY)
        keep = os.dup(1)
        sys.stdout.flush()
        os.dup2(devnull, 1)
        try:
            msg = core.run_case(sub, e['case'], core.Ctx())
        finally:
            sys.stdout.flush()
            os.dup2(keep, 1)
        if msg is not None:
            known_lines.append('KNOWN-FINDING: property=%s %s' % (pid, e['what']))

    violations = []
    for r in results:
        if r['violation']:
            v = r['violation']
            violations.append({'sub': r['sub'], 'case': v['case'], 'message': v['message'], 'key': v['key']})
    seen, vout = set(), []
    rdir = os.path.join(core.VERIF, 'evidence', 'replay')
    for v in sorted(violations, key=lambda v: (v['sub'], len(json.dumps(v['case'])))):
        if v['sub'] in seen:
            continue
        seen.add(v['sub'])
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s_%s_%s.json' % (pid, v['sub'], v['key'][:8]))
        json.dump({'property': pid, 'sub': v['sub'], 'case': v['case'], 'message': v['message']},
                  open(path, 'w'), indent=1)
        vout.append((path, v))

    per, samples, keys, labels = {}, [], set(), {}
    for r in results:
        d = per.setdefault(r['sub'], {'evaluations': 0, 'distinct_nontrivial': 0, 'labels': {},
                                      'budget_hit': 0, 'timeouts': 0, 'cpu_s': 0., '_k': set()})
        d['evaluations'] += r['evaluations']
        d['budget_hit'] += r['budget_hit']
        d['timeouts'] += r['timeouts']
        d['cpu_s'] = round(d['cpu_s'] + r['wall_s'], 2)
        d['_k'] |= set(r['nontrivial_keys'])
        for k, v in r['labels'].items():
            d['labels'][k] = d['labels'].get(k, 0) + v
        if sum(1 for s in samples if s['sub'] == r['sub']) < 2:
            samples += r['samples'][:1]
    for s, d in per.items():
        d['distinct_nontrivial'] = len(d.pop('_k'))
    ev = {'property': pid, 'tier': a.tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': sum(d['evaluations'] for d in per.values()),
                       'distinct_nontrivial': sum(d['distinct_nontrivial'] for d in per.values()),
                       'rule': mod.RULE + ' Per sub-check: ' + '; '.join(
                           '%s: %s' % (s.name, s.rule) for s in mod.SUBS if s.rule),
                       'samples': samples, 'per_sub_check': per},
          'wall_s': round(time.time() - t0, 2),
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'violations': [{'replay': p, 'message': v['message'], 'sub': v['sub']} for p, v in vout]}
    if known_lines:
        ev['coverage']['known_findings_reproduced'] = known_lines
    if not a.sub:
        os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(core.VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    if a.verbose:
        for s, d in sorted(per.items()):
            print('  %-28s eval %6d  nontrivial %6d  cpu %7.1f  budget_hit %d timeouts %d %s' % (
                s, d['evaluations'], d['distinct_nontrivial'], d['cpu_s'], d['budget_hit'], d['timeouts'],
                json.dumps(d['labels'], sort_keys=True)))
    for l in known_lines:
        print(l)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s' % (
        pid, a.tier, seed, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'],
        ev['wall_s']))
    for e in errors[:2]:
        print('HARNESS-ERROR ' + e[:60] + ' ... ' + e[-700:])
    if vout:
        for p, v in vout:
            print('  [%s] %s' % (v['sub'], v['message']))
            print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    if errors:
        return 3
    return 0


if __name__ == '__main__':
    main()
