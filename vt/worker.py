"""Runs one shard of one sub-check; writes a JSON result."""
import importlib
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import core  # noqa


def main():
    pid, subname, shard, nshards, seed, tier, out = sys.argv[1:8]
    shard, nshards, seed = int(shard), int(nshards), int(seed)
    log = os.open(out + '.log', os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
    os.dup2(log, 1)
    os.dup2(log, 2)
    res = {'sub': subname, 'shard': shard, 'evaluations': 0, 'nontrivial_keys': [], 'labels': {},
           'samples': [], 'violation': None, 'error': None, 'budget_hit': 0, 'timeouts': 0}
    t_start = time.time()
    try:
        hyp = core.import_hypothesis()
        from hypothesis import given, settings, HealthCheck, Phase
        from hypothesis import strategies as st
        mod = importlib.import_module('checks.' + pid)
        sub = [s for s in mod.SUBS if s.name == subname][0]
        n_total = sub.quick if tier == 'quick' else sub.thorough
        n = max(1, -(-n_total//nshards))
        budget = sub.budget if tier == 'quick' else sub.thorough_budget
        state = {'fail': None, 't_fail': None, 'error': None}
        keys = set()

        def on_alarm(sig, frm):
            raise core.CaseTimeout()
        signal.signal(signal.SIGALRM, on_alarm)

        def body(case):
            now = time.time()
            if state['error'] is not None:
                return
            if state['fail'] is None:
                if now - t_start > budget:
                    res['budget_hit'] += 1
                    return
            else:
                if now - state['t_fail'] > sub.shrink_budget:
                    if core.case_key(case) == state['fail']['key']:
                        raise core.Violation(state['fail']['message'])
                    return
            ctx = core.Ctx()
            msg = None
            signal.alarm(sub.case_limit)
            try:
                msg = core.run_case(sub, case, ctx)
            except core.CaseTimeout:
                res['timeouts'] += 1
                return
            except Exception:
                state['error'] = traceback.format_exc()
                state['error_case'] = core.jsonable(case)
                return
            finally:
                signal.alarm(0)
            if state['fail'] is None:
                res['evaluations'] += 1
                for k, v in ctx.labels.items():
                    res['labels'][k] = res['labels'].get(k, 0) + v
                if ctx.nontriv:
                    k = core.case_key(case)
                    if k not in keys:
                        keys.add(k)
                        if len(res['samples']) < 3:
                            res['samples'].append({'sub': subname, 'case': core.jsonable(case)})
            if msg is not None:
                if state['t_fail'] is None:
                    state['t_fail'] = time.time()
                state['fail'] = {'key': core.case_key(case), 'case': core.jsonable(case), 'message': msg}
                raise core.Violation(msg)

        test = given(sub.strategy(st))(body)
        test = settings(max_examples=n, database=None, deadline=None,
                        suppress_health_check=list(HealthCheck), print_blob=False,
                        phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False)(test)
        test = hyp.seed(seed*10007 + shard)(test)
        try:
            test()
        except core.Violation:
            pass
        except BaseException as e:
            if state['fail'] is None and state['error'] is None:
                raise
        if state['error'] is not None and state['fail'] is None:
            res['error'] = state['error'] + '\ncase: ' + json.dumps(state.get('error_case'))
        if state['fail'] is not None:
            res['violation'] = state['fail']
        res['nontrivial_keys'] = sorted(keys)
    except BaseException:
        res['error'] = traceback.format_exc()
    res['wall_s'] = time.time() - t_start
    with open(out + '.tmp', 'w') as f:
        json.dump(res, f)
    os.rename(out + '.tmp', out)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
