"""C03: a tuning of which some part names a gate the experiment does not have must refuse to start."""
import copy

import pandas as pd

from .. import world
from ..driver import Result, harness_error, load, store
from ..world import InstrumentError


def run_unknown(sc):
    res = Result()
    u = sc['unknown']
    cfg = copy.deepcopy(sc['cfg'])
    gi = u['group'] % len(cfg['groups'])
    g = cfg['groups'][gi]
    lost = g['gates'][0]
    if u['part'] == 'estimator' and g['kind'] == 'newton':
        for e in g['est'].values():
            extra = [x for x in e.get('gates', ()) if x not in g['gates']]
            if extra:
                lost = extra[0]
                break
    b = world.build(cfg)
    at, exp = b.autotuner, b.exp
    if u['part'] == 'pending':
        # as if a file of another device had been loaded
        from qtune.autotuner import Autotuner
        pending = exp.voltages()
        pending['no such gate'] = 0.
        at = Autotuner(exp, tuning_hierarchy=list(at.tuning_hierarchy), voltage_to_set=pending)
    elif u['part'] == 'last_voltages':
        t = at.tuning_hierarchy[gi]
        from ..world import series
        v = exp.voltages()
        v['no such gate'] = 0.
        data = t.to_hdf5()
        data['last_voltage'] = v
        t2 = type(t)(**data)
        h = list(at.tuning_hierarchy)
        h[gi] = t2
        from qtune.autotuner import Autotuner
        at = Autotuner(exp, tuning_hierarchy=h)
    elif u['part'] in ('only the estimator', 'only the solver', 'forwarded'):
        h = list(at.tuning_hierarchy)
        want = 'newton' if u['part'] == 'only the estimator' else 'sensing'
        mine = [i for i, x in enumerate(cfg['groups']) if x['kind'] == want]
        if not mine:
            res.digest = 'nothing'
            return res
        gi = mine[u['group'] % len(mine)]
        t = h[gi]
        sol = t.solver.to_hdf5()
        if want == 'newton':
            from qtune.gradient import FiniteDifferencesGradientEstimator
            ests = list(sol['gradient_estimators'])
            k = u['after'] % len(ests)
            position = ests[k].current_position.copy()
            position['no such gate'] = 0.
            ests[k] = FiniteDifferencesGradientEstimator(current_position=position, epsilon=.01)
            sol['gradient_estimators'] = ests
        elif u['part'] == 'forwarded':
            sol['values_to_position'] = sol['values_to_position'].copy()
            sol['values_to_position'].iloc[u['after'] % len(sol['values_to_position'])] = 'no such gate'
        else:
            for n in ('current_position', 'next_position'):
                sol[n] = sol[n].copy()
                sol[n]['no such gate'] = 0.
        h[gi] = type(t)(**dict(t.to_hdf5(), solver=type(t.solver)(**sol)))
        from qtune.autotuner import Autotuner
        at = Autotuner(exp, tuning_hierarchy=h)
    else:
        for _ in range(u['after']):
            try:
                at.iterate()
            except Exception:
                break
        # the gate disappears (the tuning is continued with another device)
        exp.gates.remove(lost)
        del exp.v[lost]
        if exp.cfg['params']:
            pass
    exp.arm()
    before = dict(exp.v)
    raised = None
    try:
        at.iterate()
    except Exception as e:
        raised = e
    acts = [x for x in exp.log if x[0] in ('set', 'measure')]
    if raised is None:
        res.violations.append(('C03', 'unknown-accepted', 'an iteration was made although the %s of group %d names a gate which '
                               'the experiment does not have' % (u['part'], gi)))
    if acts or exp.v != before:
        res.violations.append(('C03', 'unknown-used', 'the instruments were used (%s) although the %s of group %d names a gate '
                               'which the experiment does not have' % (acts[0][0] if acts else 'set', u['part'], gi)))
    res.probes = {'unknown gate refused': 1}
    res.faults = {'unknown gate': 1}
    res.digest = repr((u, type(raised).__name__, sorted(before)))
    res.steps = 1
    return res


def run_undefined(sc):
    """The read-back of some gates yields NaN for some iterations: no undefined voltage is ever requested."""
    res = Result()
    u = sc['undefined']
    b = world.build(sc['cfg'])
    at, exp = b.autotuner, b.exp
    exp.arm()
    trace = []
    poisoned = False
    for i in range(u['at'] + u['n'] + 12):
        exp.lost = tuple(u['gates']) if u['at'] <= i < u['at'] + u['n'] else ()
        exp.arm()
        pending = at.voltages_to_set
        try:
            if u['resume'] and i == u['at'] + u['n']:
                at = load(store(at, exp), exp)
            at.iterate()
            raised = None
        except Exception as e:
            if harness_error(e):
                raise
            raised = e
        exp.lost = ()
        poisoned = poisoned or any(f[0] == 'undefined voltage' for f in exp.fired)
        for x in exp.log:
            if x[0] == 'set':
                bad = {g: v for g, v in x[1].items() if not v - v == 0}
                if bad:
                    res.violations.append(('C03', 'undefined-set', 'the voltages %s were set in iteration %d after the voltages of %s had been read as NaN' % (bad, i, u['gates'])))
        if pending is not None and pending.isna().any():
            res.probes['undefined voltage refused'] = 1
        trace.append((type(raised).__name__, sorted(exp.v.items())))
        res.steps += 1
        if raised is not None and not poisoned:
            # completed
            break
        if res.violations or (raised is not None and i > u['at'] + u['n']):
            break
    if poisoned:
        res.probes['undefined voltage read'] = 1
        res.faults['undefined voltage read'] = 1
    res.digest = repr(trace)[-2000:]
    return res
