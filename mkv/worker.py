"""One shard of one property's check: generates cases, runs them, writes a result file."""
import argparse
import collections
import importlib
import json
import os
import random
import resource
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


class StopAll(BaseException):
    pass


class CpuLimit(BaseException):
    """Raised by the CPU timer: the case used more CPU than any case of the unchanged tree comes near."""


CASE_CPU = 25       # seconds of CPU for one case
SHRINK_WALL = float(os.environ.get('MKV_SHRINK') or 25)    # seconds of wall clock for shrinking


def run_case(core, env, test, case, tmproot):
    """Runs one case. Returns (ctx, violation message or None, signature)."""
    ctx = core.Ctx(tmproot)
    env.reset()
    random.seed(0)
    try:
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU)
        try:
            test.fn(case, ctx)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        return ctx, None, None
    except core.Violation as e:
        return ctx, str(e), e.sig
    except CpuLimit:
        return ctx, "did not finish within %d s of CPU time" % CASE_CPU, 'cpu'
    except (StopAll, KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # what the code under test raised where the property allows no exception
        tb = traceback.extract_tb(e.__traceback__)
        where = ' <- '.join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-5:]))
        return ctx, "unexpected %s: %s [%s]" % (type(e).__name__, core.short(str(e), 300), where), type(e).__name__
    finally:
        ctx.close()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--shard', type=int, default=0)
    ap.add_argument('--shards', type=int, default=1)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--deadline', type=float, default=150)
    ap.add_argument('--tmp', required=True)
    ap.add_argument('--out', required=True)
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('--known')
    ap.add_argument('--scale', type=float, default=1.0)
    a = ap.parse_args()

    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    os.chdir(a.tmp)
    t0 = time.time()
    from mkv import core, env
    suite = importlib.import_module('props.' + a.pid).suite

    def on_prof(sig, frm):
        raise CpuLimit()
    signal.signal(signal.SIGPROF, on_prof)

    known = []
    if a.known and os.path.exists(a.known):
        known = json.load(open(a.known))

    out = {'pid': a.pid, 'shard': a.shard, 'tests': {}, 'violation': None, 'known': []}

    def save():
        out['wall'] = time.time() - t0
        tmp = a.out + '.tmp'
        with open(tmp, 'w') as f:
            json.dump(out, f)
        os.replace(tmp, a.out)

    if a.replay:
        rep = json.load(open(a.replay))
        test = [t for t in suite.tests if t.name == rep['test']][0]
        ctx, msg, sig = run_case(core, env, test, rep['case'], a.tmp)
        if msg is not None:
            out['violation'] = {'test': test.name, 'case': rep['case'], 'msg': msg, 'sig': sig}
        save()
        return

    # Recorded findings: each is one specific input; say whether it still fails.
    if a.shard == 0:
        for k in known:
            test = [t for t in suite.tests if t.name == k['test']][0]
            ctx, msg, sig = run_case(core, env, test, k['case'], a.tmp)
            out['known'].append({'what': k['what'], 'still_fails': msg is not None, 'msg': msg})
    known_keys = {(k['test'], core.jkey(k['case'])) for k in known}
    known_sigs = {(k['test'], k['sig']) for k in known if k.get('sig')}

    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    def make_body(test, st, end):
        def body(raw):
            now = time.time()
            if st['first_fail'] is None:
                if now > end:
                    raise StopAll()
            elif now - st['first_fail'] > SHRINK_WALL:
                raise StopAll()
            case = core.jnorm(raw)
            ctx, msg, sig = run_case(core, env, test, case, a.tmp)
            key = core.jkey(case)
            st['evaluations'] += 1
            st['distinct'].add(key)
            st['labels'].update(ctx.labels.keys())
            if ctx.is_nontrivial and key not in st['nontrivial']:
                st['nontrivial'].add(key)
                if len(st['samples']) < 3:
                    txt = json.dumps(case)
                    st['samples'].append(txt if len(txt) < 700 else txt[:700] + '...')
            if msg is not None:
                if (test.name, key) in known_keys or (test.name, sig) in known_sigs:
                    st['known_hits'] += 1
                    return
                size = len(json.dumps(case))
                if st['fail'] is None or size <= st['fail']['size']:
                    st['fail'] = {'test': test.name, 'case': case, 'msg': msg, 'sig': sig, 'size': size}
                if st['first_fail'] is None:
                    st['first_fail'] = time.time()
                if sig == 'cpu':
                    raise StopAll()
                raise core.Violation(test.name)  # one origin per test, so that shrinking may move between symptoms
        return body

    tests = [t for t in suite.tests if a.only in (None, t.name)]
    n = len(tests)
    order = [tests[(i + a.shard) % n] for i in range(n)]
    left = n
    for test in order:
        total = test.quick if a.tier == 'quick' else test.thorough
        count = max(1, int(total * a.scale) // a.shards + (1 if a.shard < int(total * a.scale) % a.shards else 0))
        st = {'evaluations': 0, 'nontrivial': set(), 'distinct': set(), 'labels': collections.Counter(),
              'samples': [], 'fail': None, 'first_fail': None, 'known_hits': 0}
        # every test gets its share of the time that is left
        budget = (a.deadline - (time.time() - t0)) / left
        left -= 1
        end = time.time() + max(3, budget)

        body = make_body(test, st, end)
        run = given(test.strategy)(body)
        run = settings(max_examples=count, database=None, deadline=None, derandomize=False,
                       report_multiple_bugs=False, print_blob=False,
                       phases=[Phase.generate, Phase.shrink],
                       suppress_health_check=list(HealthCheck))(run)
        run = hypothesis.seed((a.seed * 1000003 + a.shard * 1009 + sum(map(ord, test.name))) & 0x7fffffff)(run)
        harness_error = None
        try:
            run()
        except StopAll:
            pass
        except core.Violation:
            pass
        except BaseException as e:
            if st['fail'] is None:
                harness_error = ''.join(traceback.format_exception(e))[-3000:]
        out['tests'][test.name] = {
            'evaluations': st['evaluations'], 'distinct': sorted(st['distinct']),
            'nontrivial': sorted(st['nontrivial']), 'labels': dict(st['labels']), 'samples': st['samples'],
            'rule': test.rule, 'known_hits': st['known_hits'], 'planned': count, 'error': harness_error}
        if st['fail']:
            out['violation'] = st['fail']
            break
    save()


if __name__ == '__main__':
    main()
