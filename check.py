#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--replay FILE] [--only TEST] [--jobs N] [--scale X]

Decides property ID on /repo's working tree by generated-input search.
Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 3: the harness itself failed.
"""
import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
KNOWN = os.path.join(HERE, 'known_findings.jsonl')


def load_known(pid):
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding='utf-8'):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d.get('property') == pid and d.get('status') == 'known':
                    res.append(d)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='mkv-%s-' % a.pid)
    procs = []
    try:
        known = load_known(a.pid)
        kfile = os.path.join(tmp, 'known.json')
        with open(kfile, 'w') as f:
            json.dump(known, f)
        jobs = 1 if a.replay else a.jobs
        deadline = 170 if a.tier == 'quick' else 760
        rep_seed = None
        if a.replay:
            rep_seed = json.load(open(a.replay)).get('hashseed')
        for i in range(jobs):
            wt = os.path.join(tmp, 'w%d' % i)
            os.makedirs(os.path.join(wt, 'home'))
            env = {k: v for k, v in os.environ.items() if not k.startswith(('PYTHON', 'VERIF'))}
            env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=str(i if rep_seed is None else rep_seed),
                       PYTHONUTF8='1', MPLBACKEND='Agg', HOME=os.path.join(wt, 'home'), TMPDIR=wt, TZ='UTC', MPLCONFIGDIR=os.path.join(wt, 'home'),
                       OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
            cmd = [PY, '-W', 'ignore', os.path.join(HERE, 'mkv', 'worker.py'), a.pid, '--shard', str(i),
                   '--shards', str(jobs), '--seed', str(seed), '--tier', a.tier, '--deadline', str(deadline),
                   '--tmp', wt, '--out', os.path.join(tmp, 'out%d.json' % i), '--known', kfile, '--scale', str(a.scale)]
            if a.only:
                cmd += ['--only', a.only]
            if a.replay:
                cmd += ['--replay', os.path.abspath(a.replay)]
            log = open(os.path.join(tmp, 'log%d' % i), 'wb')
            procs.append(subprocess.Popen(cmd, env=env, stdin=subprocess.DEVNULL, stdout=log, stderr=log,
                                          cwd=wt, start_new_session=True))
        hard = t0 + deadline + 90
        stop_at = None
        while any(p.poll() is None for p in procs):
            time.sleep(0.05)
            now = time.time()
            if stop_at is None:
                for i, p in enumerate(procs):
                    if p.poll() is not None and os.path.exists(os.path.join(tmp, 'out%d.json' % i)):
                        with open(os.path.join(tmp, 'out%d.json' % i)) as f:
                            if json.load(f)['violation']:
                                stop_at = now + 3
                                break
            if now > hard or (stop_at is not None and now > stop_at):
                break
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            p.wait()
        outs, missing = [], []
        for i in range(jobs):
            f = os.path.join(tmp, 'out%d.json' % i)
            if os.path.exists(f):
                outs.append(json.load(open(f)))
            else:
                missing.append(i)
        viols = [dict(o['violation'], hashseed=o['shard'] if rep_seed is None else rep_seed)
                 for o in outs if o['violation']]
        errors = [t['error'] for o in outs for t in o['tests'].values() if t.get('error')]
        rc = 0
        vio_out = []
        if viols:
            v = min(viols, key=lambda v: v.get('size', 0))
            rdir = os.path.join(HERE, 'evidence', 'replays')
            os.makedirs(rdir, exist_ok=True)
            rpath = os.path.join(rdir, '%s-%s.json' % (a.pid, v['test']))
            if not a.replay:
                with open(rpath, 'w') as f:
                    json.dump({'property': a.pid, 'test': v['test'], 'case': v['case'], 'message': v['msg'],
                               'hashseed': v['hashseed']}, f, indent=1)
            else:
                rpath = a.replay
            print("VIOLATION property=%s replay=%s" % (a.pid, rpath))
            print("  test %s: %s" % (v['test'], v['msg']))
            print("  case: %s" % json.dumps(v['case'])[:1500])
            vio_out = [{'test': v['test'], 'message': v['msg'], 'replay': rpath}]
            rc = 1
        elif errors or (missing and not a.replay) or not outs:
            for e in errors[:2]:
                print(e, file=sys.stderr)
            for i in missing[:2]:
                print("shard %d gave no result:" % i, file=sys.stderr)
                print(open(os.path.join(tmp, 'log%d' % i), errors='replace').read()[-3000:], file=sys.stderr)
            print("HARNESS ERROR property=%s" % a.pid)
            rc = 3
        for o in outs:
            for k in o['known']:
                if k['still_fails']:
                    print("KNOWN-FINDING: property=%s %s" % (a.pid, k['what']))
                else:
                    print("note: recorded finding no longer fails: property=%s %s" % (a.pid, k['what']))
        # evidence
        tests, evals, nontriv, samples = {}, 0, 0, []
        for o in outs:
            for name, t in o['tests'].items():
                d = tests.setdefault(name, {'evaluations': 0, 'distinct': set(), 'nontrivial': set(), 'labels': {},
                                            'rule': t['rule'], 'samples': [], 'known_hits': 0, 'planned': 0})
                d['evaluations'] += t['evaluations']
                d['planned'] += t['planned']
                d['distinct'] |= set(t['distinct'])
                d['nontrivial'] |= set(t['nontrivial'])
                d['known_hits'] += t['known_hits']
                for k, v in t['labels'].items():
                    d['labels'][k] = d['labels'].get(k, 0) + v
                d['samples'] += t['samples']
        for name, d in tests.items():
            evals += d['evaluations']
            nontriv += len(d['nontrivial'])
            for s in d['samples'][:2]:
                samples.append({'test': name, 'case': s})
            d['samples'] = d['samples'][:1]
            d['distinct'], d['nontrivial'] = len(d['distinct']), len(d['nontrivial'])
        if not a.replay and not a.no_evidence and not a.only:
            ev = {'property': a.pid, 'tier': a.tier, 'seed': seed, 'level': 'exploration',
                  'coverage': {'evaluations': evals, 'distinct_nontrivial': nontriv,
                               'rule': 'a case counts once per test (by hash of its JSON form) and only if it meets '
                                       'the test\'s own rule: ' + '; '.join('%s: %s' % (n, d['rule'])
                                                                              for n, d in tests.items()),
                               'samples': samples, 'tests': tests, 'shards': jobs},
                  'assumptions': ['the two downloadable data sets (journal abbreviations, first-name genders) are '
                                  'replaced by small fixed tables'],
                  'wall_s': round(time.time() - t0, 2), 'violations': vio_out}
            os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
            with open(os.path.join(HERE, 'evidence', a.pid + '.json'), 'w') as f:
                json.dump(ev, f, indent=1)
        if a.replay:
            print("replay %s: %s" % (a.replay, 'violated' if rc == 1 else 'held' if rc == 0 else 'error'))
        else:
            print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s, rc=%d" % (
                a.pid, a.tier, seed, evals, nontriv, time.time() - t0, rc))
            if os.environ.get('MKV_STATS'):
                for n, d in tests.items():
                    print('  %-34s %6d/%d cases %6d nontrivial  %s' % (n, d['evaluations'], d['planned'],
                                                                       d['nontrivial'], d['labels']))
        return rc
    finally:
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
