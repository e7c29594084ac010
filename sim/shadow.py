"""Executable reference model of a tuning.

The model is relational: after every operation it is given the public state before and after it and everything the
instruments saw, and it states which of the listed properties the step broke.  It never guesses what happens next, so one
broken step does not make later steps look broken.  Its own memory holds only what a user could have written down: the
targets that were set, the points at which something was measured, and whether something changed since.
"""
import math

import numpy as np
import pandas as pd

VTOL = 1e-9          # voltages which are copied
CTOL = 1e-6          # voltages which are computed


class Violation(Exception):
    pass


def as_dict(x):
    return x if isinstance(x, dict) else dict(zip(x.index.tolist(), x.values.tolist()))


def same(a, b, tol=0.0, scale=1.0):
    """Two series (or dictionaries) with the same labels in any order and the same values; NaN equals NaN."""
    if a is None or b is None:
        return a is None and b is None
    n = len(b)
    if len(a) != n:
        return False
    a, b = as_dict(a), as_dict(b)
    if len(b) != n:
        return False
    for k, x in a.items():
        if k not in b:
            return False
        x, y = float(x), float(b[k])
        if x != x and y != y:
            continue
        if not abs(x - y) <= tol * scale:
            return False
    return True


def same_frame(a, b, rtol=0.0):
    if a is None or b is None:
        return a is None and b is None
    ia, ib, ca, cb = a.index.tolist(), b.index.tolist(), a.columns.tolist(), b.columns.tolist()
    if set(ia) != set(ib) or set(ca) != set(cb):
        return False
    if ia != ib or ca != cb:
        b = b.loc[ia, ca]
    x, y = a.values, b.values
    if rtol == 0 and x.dtype == y.dtype and x.tobytes() == y.tobytes():
        return True
    x, y = x.astype(float), y.astype(float)
    scale = max(np.nanmax(np.abs(x), initial=0.), np.nanmax(np.abs(y), initial=0.)) if x.size else 0.
    return bool(np.all((np.abs(x - y) <= rtol * scale) | (np.isnan(x) & np.isnan(y))))


def same_est(a, b):
    ok = (a['est'] is None) == (b['est'] is None) and (a['cov'] is None) == (b['cov'] is None)
    if ok and a['est'] is not None:
        ok = same(a['est'], b['est'])
    if ok and a['cov'] is not None:
        ok = same_frame(a['cov'], b['cov'])
    return ok


def fmt(x):
    if isinstance(x, pd.Series):
        return '{' + ', '.join('%s: %.9g' % (k, float(x[k])) for k in x.index) + '}'
    if isinstance(x, dict):
        return '{' + ', '.join('%s: %s' % (k, ('%.9g' % v) if isinstance(v, float) else v) for k, v in x.items()) + '}'
    return str(x)


def kalman_posterior(est, cov, gates, dv, dz, R, alpha):
    """Bayesian posterior in extended precision; est and cov labelled, dv labelled."""
    L = np.longdouble
    n = len(gates)
    x = np.array([est[g] for g in gates], dtype=L)
    P = np.array([[cov.loc[g, h] for h in gates] for g in gates], dtype=L) * L(alpha) ** 2
    h = np.array([dv[g] for g in gates], dtype=L)
    Ph = P @ h
    S = h @ Ph + L(R)
    K = Ph / S
    x2 = x + K * (L(dz) - h @ x)
    P2 = P - np.outer(K, Ph)
    P2 = (P2 + P2.T) / 2
    return (pd.Series(x2.astype(float), index=gates),
            pd.DataFrame(P2.astype(float), index=gates, columns=gates), float(np.max(np.abs(P), initial=0)))


class EstModel:
    """What is known about one gradient estimator (shared estimators have one model)."""

    def __init__(self, e, v):
        self.kind = e['kind']
        self.gates = list(e['gates'])
        self.eps = {g: float(e['eps'][g] if isinstance(e['eps'], dict) else e['eps']) for g in self.gates}
        m = e['maxcov'] if 'maxcov' in e else math.inf
        self.maxcov = {g: float(m[g] if isinstance(m, dict) else m) for g in self.gates}
        self.alpha = float(e.get('alpha', 1.))
        self.base = None if e.get('nopos') else {g: v[g] for g in self.gates}
        self.pos = dict(self.base) if self.base else None
        self.value = None            # value measured last, None: the next one is not compared
        self.points = []             # finite differences: measured points (position, value, variance, all voltages)
        self.done = self.kind == 'kalman'
        self.jumped = False          # restarted since the last measurement

    @property
    def finite(self):
        return self.kind in ('fd', 'fds', 'self', 'selfs')

    @property
    def symmetric(self):
        return self.kind in ('fds', 'selfs')

    @property
    def is_kalman_now(self):
        return self.kind == 'kalman' or (self.kind in ('self', 'selfs') and self.done)

    def restart(self, v):
        self.pos = {g: v[g] for g in self.gates}
        self.value = None
        if not self.done:
            self.points = []
            self.base = dict(self.pos)

    def copy(self):
        c = object.__new__(EstModel)
        c.__dict__.update(self.__dict__)
        c.points = list(self.points)
        return c


class GroupModel:
    def __init__(self, gi, g):
        self.gi = gi
        self.kind = g['kind']
        self.g = g
        self.gates = list(g['gates'])
        self.params = list(g['target'])
        self.target = {p: dict(desired=math.nan, tolerance=math.nan, minimum=math.nan, cost_threshold=math.nan,
                               factor=1.0, **{}) for p in self.params}
        for p in self.params:
            self.target[p].update({k: float(x) for k, x in g['target'][p].items() if k != 'aim'})
        self.maxstep = g.get('maxstep') or math.inf
        self.maxn = int(g.get('maxn', 1))
        self.limited = False         # the last step of this group was cut to the maximal size
        self.since = 0               # steps of this group since its last measurement
        self.stale_by = 'start'
        self.fresh = False           # measured since the last restart or change of targets
        self.good = []               # points of successful measurements
        self.tuned = []              # points at which the group was found tuned
        self.failed_at = None        # voltages of the last measurement if it failed
        self.verified_at = None      # voltages at which the group is known to be tuned, None if anything changed since
        self.position = None         # where the values were measured (or where an unmeasured visit happened)
        self.values = None
        self.forward = None          # sensing dot: expected next voltages

    def copy(self):
        c = object.__new__(GroupModel)
        c.__dict__.update(self.__dict__)
        c.target = {p: dict(t) for p, t in self.target.items()}
        c.good = list(self.good)
        c.tuned = list(self.tuned)
        return c

    def relevant(self):
        if self.kind == 'sensing':
            return self.params
        return [p for p in self.params if not math.isnan(self.target[p]['desired'])]


class Shadow:
    def __init__(self, cfg, v):
        self.cfg = cfg
        self.groups = [GroupModel(i, g) for i, g in enumerate(cfg['groups'])]
        self.ests = {}
        self.keys = []           # per group: list of estimator keys in order of the target
        for gi, g in enumerate(cfg['groups']):
            keys = []
            for p in g['target'] if g['kind'] == 'newton' else ():
                e = g['est'][p]
                if 'share' in e:
                    keys.append(e['share'])
                else:
                    key = '%d/%s' % (gi, p)
                    self.ests[key] = EstModel(e, v)
                    keys.append(key)
            self.keys.append(keys)
        self.violations = []
        self.probes = {}
        self.where = ''
        self.affine = all(not d.get('sigma') and not d.get('nl') for d in cfg['params'].values())

    def copy(self):
        c = object.__new__(Shadow)
        c.__dict__.update(self.__dict__)
        c.groups = [g.copy() for g in self.groups]
        c.ests = {k: e.copy() for k, e in self.ests.items()}
        return c

    # -- reporting ---------------------------------------------------------------------------------------------
    def bad(self, prop, kind, msg):
        self.violations.append((prop, kind, '%s: %s' % (self.where, msg)))

    def hit(self, probe, n=1):
        self.probes[probe] = self.probes.get(probe, 0) + n

    # -- checks which hold in every state ------------------------------------------------------------------------
    def check_records(self, post, after):
        for gm, s in zip(self.groups, post['groups']):
            if len(s['tuned']) != len(gm.tuned) or not all(same(a, b) for a, b in zip(gm.tuned, s['tuned'])):
                self.bad('C09', 'tuned-record', 'after %s the tuned points of group %d are %s, expected %s' % (
                    after, gm.gi, [fmt(x) for x in s['tuned']], [fmt(x) for x in gm.tuned]))
                if gm.failed_at is not None and len(s['tuned']) == len(gm.tuned) and gm.kind == 'sensing':
                    self.bad('C05', 'good-record', 'after %s, while the measurement of group %d had failed, its tuned points are %s instead of %s' % (
                        after, gm.gi, [fmt(x) for x in s['tuned'][-3:]], [fmt(x) for x in gm.tuned[-3:]]))
                gm.tuned = [dict(x) for x in s['tuned']]
            if gm.kind == 'newton':
                if len(s['good']) != len(gm.good) or not all(same(a, b) for a, b in zip(gm.good, s['good'])):
                    self.bad('C09', 'good-record', 'after %s the good points of group %d are %s, expected %s' % (
                        after, gm.gi, [fmt(x) for x in s['good'][-3:]], [fmt(x) for x in gm.good[-3:]]))
                    if gm.failed_at is not None and len(s['good']) == len(gm.good):
                        self.bad('C05', 'good-record', 'after %s, while the measurement of group %d had failed, its good points are %s instead of %s' % (
                            after, gm.gi, [fmt(x) for x in s['good'][-3:]], [fmt(x) for x in gm.good[-3:]]))
                    gm.good = [dict(x) for x in s['good']]
            t = s['target']
            t = {c: as_dict(t[c]) for c in t.columns}
            for p in gm.params:
                for key, col in (('desired', 'desired'), ('tolerance', 'tolerance'), ('minimum', 'minimum'),
                                 ('cost_threshold', 'cost_threshold'), ('factor', 'rescaling_factor')):
                    x, y = gm.target[p][key], float(t[col][p])
                    if not (x == y or (x != x and y != y)):
                        self.bad('C08', 'target-entry', 'after %s the %s of %s is %r, expected %r' % (after, col, p, y, x))
                        gm.target[p][key] = y

    def same_gradients(self, pre, post, prop, kind, after, groups=None):
        for gi, (a, b) in enumerate(zip(pre['groups'], post['groups'])):
            if groups is not None and gi not in groups:
                continue
            for p, x, y in zip(self.groups[gi].params, a['est'], b['est']):
                if not same_est(x, y):
                    self.bad(prop, kind, '%s changed the gradient estimate of %s from %s to %s' % (
                        after, p, fmt(x['est']), fmt(y['est'])))

    # -- operations ----------------------------------------------------------------------------------------------
    def iterate(self, pre, post, log, exc, fault, v_before, v_after):
        """fault: an injected instrument exception was raised in this iteration"""
        sets = [e for e in log if e[0] == 'set']
        measures = [e for e in log if e[0] == 'measure']
        if pre['complete']:
            if exc is None:
                self.bad('C02', 'complete-iterate', 'iterating a completed tuning did not raise')
            if sets or measures:
                self.bad('C02', 'complete-action', 'iterating a completed tuning used the instruments')
            return
        for e in sets:
            for g, x in e[1].items():
                if g not in v_before:
                    self.bad('C03', 'unknown-gate', 'sets the unknown gate %s' % g)
                elif not math.isfinite(x):
                    self.bad('C03', 'not-finite', 'sets %s to %r' % (g, x))
        if len(sets) > 1 or (sets and measures):
            self.bad('C02', 'two-actions', 'one iteration made %d set calls and %d measurements' % (len(sets), len(measures)))
        if fault:
            self.hit('instrument exception')
            if sets and v_before != v_after:
                for gm in self.groups:
                    gm.verified_at = None
            if measures or sets:
                self.hit('exception after effect')
            if post['complete']:
                self.bad('C06', 'complete-after-error', 'an instrument error completed the tuning')
            self.check_records(post, 'an instrument error')
            self.same_gradients(pre, post, 'C06', 'error-gradient', 'an instrument error')
            if pre['pending'] is not None and not same(pre['pending'], post['pending']):
                self.bad('C06', 'error-pending', 'an instrument error changed the pending voltages')
            if pre['index'] != post['index'] and pre['pending'] is None:
                self.bad('C06', 'error-index', 'an instrument error changed the position in the hierarchy')
            return
        if exc is not None:
            return               # reported by the driver
        if pre['pending'] is not None:
            self._set(pre, post, sets, measures, v_before, v_after)
        elif not pre['status']:
            self._measure(pre, post, sets, measures, v_before)
        else:
            self._compute(pre, post, sets, measures, v_before)
        self.check_records(post, 'an iteration')
        if post['complete']:
            self.hit('completed')
            self._check_complete(v_after)

    def _check_complete(self, v):
        for gm in self.groups:
            if gm.verified_at is None:
                self.bad('C01', 'unverified', 'the tuning is reported complete but group %d was not found tuned by a measurement'
                         ' since the last change' % gm.gi)
            elif gm.verified_at != v:
                self.bad('C01', 'elsewhere', 'the tuning is reported complete but group %d was measured at %s, not at %s' % (
                    gm.gi, fmt(gm.verified_at), fmt(v)))

    def _set(self, pre, post, sets, measures, v_before, v_after):
        self.hit('set')
        for gm in self.groups:
            gm.verified_at = None
        if len(sets) != 1:
            self.bad('C02', 'no-set', 'pending voltages were not set')
        else:
            req = sets[0][1]
            if not same(req, pre['pending']):
                self.bad('C03', 'request', 'requested %s instead of the pending %s' % (fmt(req), fmt(pre['pending'])))
        if measures:
            self.bad('C02', 'set-measure', 'measured in the iteration which set voltages')
        if post['index'] != 0 or post['status'] or post['pending'] is not None:
            self.bad('C02', 'not-from-bottom', 'after the voltages were set the tuning continues at group %d (status %s, '
                     'pending %s)' % (post['index'], post['status'], fmt(post['pending'])))
        self.same_gradients(pre, post, 'C13', 'set-gradient', 'setting voltages')

    def _measure(self, pre, post, sets, measures, v):
        gi = pre['index']
        gm = self.groups[gi]
        a, b = pre['groups'][gi], post['groups'][gi]
        if sets:
            self.bad('C02', 'measure-set', 'voltages were set in an iteration which had to measure group %d' % gi)
        for gj in range(gi):
            if self.groups[gj].verified_at != v:
                self.bad('C02', 'order', 'group %d is visited before group %d was found tuned at the present voltages' % (gi, gj))
        if post['pending'] is not None:
            self.bad('C02', 'measure-pending', 'a measurement left pending voltages')
        others = [j for j in range(len(self.groups)) if j != gi]
        if gm.kind == 'newton':
            self._measure_newton(pre, post, gi, gm, a, b, measures, v)
        else:
            self._measure_sensing(pre, post, gi, gm, a, b, measures, v)
        # nothing about other groups changes (apart from shared estimators)
        mine = set(self.keys[gi])
        for j in others:
            for p, key, x, y in zip(self.groups[j].params, self.keys[j], pre['groups'][j]['est'], post['groups'][j]['est']):
                if key not in mine and not same_est(x, y):
                    self.bad('C13', 'other-gradient', 'the measurement of group %d changed the gradient of %s' % (gi, p))
        tuned = gm.verified_at == v
        expect = (gi + 1, False) if tuned else (gi, True)
        if (post['index'], post['status']) != expect:
            if post['index'] == gi + 1 and not tuned:
                self.bad('C01', 'accepted', 'group %d was accepted as tuned without a measurement on target' % gi)
            elif tuned and post['index'] == gi:
                self.bad('C01', 'rejected', 'group %d was measured on target but not accepted' % gi)
            else:
                self.bad('C02', 'progress', 'after visiting group %d the tuning is at group %d, status %s' % (
                    gi, post['index'], post['status']))

    def _sources(self, measures):
        return sorted(e[1] for e in measures)

    def _measure_newton(self, pre, post, gi, gm, a, b, measures, v):
        vs = v
        if not same(b['last_v'], vs):
            self.bad('C09', 'last-voltages', 'group %d was visited at %s but remembers %s' % (gi, fmt(vs), fmt(b['last_v'])))
        if not measures:
            # an unmeasured visit on the way to a far target
            self.hit('unmeasured slice')
            if not gm.fresh:
                prop = 'C07' if gm.stale_by == 'restart' else 'C08'
                self.bad(prop, 'not-measured', 'group %d was not measured after a %s' % (gi, gm.stale_by))
            elif not gm.limited:
                self.bad('C04', 'unmeasured', 'group %d was not measured although its last step reached the target' % gi)
            elif gm.since >= gm.maxn:
                self.bad('C04', 'too-many', 'group %d was not measured after %d steps (at most %d)' % (gi, gm.since, gm.maxn))
            gm.verified_at = None
            gm.position = {g: v[g] for g in gm.gates}
            self.same_gradients(pre, post, 'C13', 'blind-gradient', 'an unmeasured visit', [gi])
            return
        if self._sources(measures) != sorted(gm.g['sources']):
            self.bad('C02', 'sources', 'the visit of group %d measured %s instead of %s' % (gi, self._sources(measures),
                                                                                           sorted(gm.g['sources'])))
            return
        raw, var = {}, {}
        for e in measures:
            raw.update(e[2])
            var.update(e[3])
            if e[4] != v:
                self.bad('C09', 'moving', 'measured at %s while the voltages were %s' % (fmt(e[4]), fmt(v)))
        value = {p: raw.get(p, math.nan) / gm.target[p]['factor'] for p in gm.params}
        variance = {p: var.get(p, math.nan) / gm.target[p]['factor'] ** 2 for p in gm.params}
        rel = gm.relevant()
        failed = any(math.isnan(value[p]) for p in rel)
        if b['failed'] != failed:
            self.bad('C05', 'failed-flag', 'the measurement of group %d %s but is recorded as %s' % (
                gi, 'failed' if failed else 'succeeded', 'failed' if b['failed'] else 'succeeded'))
        if not failed:
            for p in rel:
                if p in b['values'].index and not (abs(float(b['values'][p]) - value[p]) <= 1e-9 * max(1e-9, abs(value[p])) and
                        abs(float(b['variances'][p]) - variance[p]) <= 1e-9 * max(1e-15, abs(variance[p]))):
                    self.bad('C09', 'values', '%s was measured as %.9g (variance %.3g) but recorded as %.9g (%.3g)' % (
                        p, value[p], variance[p], b['values'][p], b['variances'][p]))
                elif p not in b['values'].index:
                    self.bad('C09', 'values', '%s was measured but is not recorded' % p)
        gm.since = 0
        gm.limited = False
        gm.fresh = True
        if failed:
            self.hit('failed measurement')
            gm.failed_at = dict(v)
            gm.verified_at = None
            self.same_gradients(pre, post, 'C05', 'failed-gradient', 'a failed measurement', [gi])
            if not same(a['pos'], b['pos']) and not same(b['pos'], a['pos']):
                self.bad('C05', 'failed-position', 'a failed measurement moved the position of the optimiser of group %d' % gi)
            if post['index'] != gi:
                self.bad('C05', 'failed-tuned', 'a failed measurement of group %d counts as tuned' % gi)
            return
        gm.failed_at = None
        gm.good.append(dict(v))
        gm.position = {g: v[g] for g in gm.gates}
        gm.values = value
        if not same(b['pos'], gm.position):
            self.bad('C09', 'position', 'the optimiser of group %d works with the position %s, measured was %s' % (
                gi, fmt(b['pos']), fmt(gm.position)))
        dist = {p: abs(gm.target[p]['desired'] - value[p]) for p in rel}
        margin = [abs(dist[p] - gm.target[p]['tolerance']) for p in rel if gm.target[p]['tolerance'] == gm.target[p]['tolerance']]
        ok = all(dist[p] < gm.target[p]['tolerance'] for p in rel if gm.target[p]['tolerance'] == gm.target[p]['tolerance'])
        if margin and min(margin) < 1e-12:
            ok = post['index'] == gi + 1         # on the edge: either is fine
        if ok:
            gm.tuned.append(dict(v))
            gm.verified_at = dict(v)
            self.hit('group tuned')
        else:
            gm.verified_at = None
        # gradients
        seen = {}
        for p, key, x, y in zip(gm.params, self.keys[gi], a['est'], b['est']):
            if p not in rel:
                if key not in [k for q, k in zip(gm.params, self.keys[gi]) if q in rel] and not same_est(x, y):
                    self.bad('C13', 'untargeted', 'the gradient of %s, which has no desired value, was changed' % p)
                continue
            seen.setdefault(key, []).append((p, x, y))
        for key, entries in seen.items():
            self._update_est(self.ests[key], entries, value, variance, v, gm)

    def _update_est(self, em, entries, value, variance, v, gm):
        """Several parameters may share one estimator: it is then fed one after the other at the same position."""
        p, x, y = entries[0]
        pos = {g: v[g] for g in em.gates}
        if y['pos'] is None or (em.is_kalman_now and not same(y['pos'], pos)):
            self.bad('C09', 'est-position', 'the gradient estimate of %s refers to %s, measured was at %s' % (
                p, fmt(y['pos']), fmt(pos)))
        was_kalman = em.is_kalman_now
        if em.finite and not em.done:
            self._update_fd(em, p, y, pos, value[p], variance[p], v, gm)
        elif em.kind in ('fd', 'fds'):
            if not same_est(x, y):
                self.bad('C14', 'changed', 'the completed finite difference gradient of %s was changed' % p)
        if was_kalman:
            est, cov = x['est'], x['cov']
            if em.value is None:
                self.hit('first value after (re)start')
                if not same_est(x, y):
                    self.bad('C13' if not em.jumped else 'C07', 'first-value',
                             'the first measurement of %s after a (re)start changed the gradient from %s to %s' % (
                                 p, fmt(x['est']), fmt(y['est'])))
            else:
                dv = {g: pos[g] - em.pos[g] for g in em.gates}
                n = math.sqrt(sum(d * d for d in dv.values()))
                if abs(n - 1e-7) < 1e-12:
                    pass
                elif n < 1e-7:
                    if not same_est(x, y):
                        self.bad('C13', 'no-move', 'a measurement of %s without a change of voltages changed its gradient' % p)
                else:
                    self.hit('kalman update')
                    e2, c2, scale = kalman_posterior(est, cov, em.gates, dv, value[p] - em.value, variance[p], em.alpha)
                    gs = max(float(e2.abs().max()), float(est.abs().max()), 1e-12)
                    if y['est'] is None or not same(y['est'], e2, 1e-6, gs) or not same_frame_scaled(y['cov'], c2, 1e-6, scale):
                        self.bad('C13', 'posterior', 'after a step %s with measured difference %.9g (variance %.3g) the '
                                 'gradient of %s is %s, the posterior is %s (covariances %s and %s)' % (
                                     fmt(dv), value[p] - em.value, variance[p], p, fmt(y['est']), fmt(e2),
                                     np.array2string(y['cov'].values, precision=6), np.array2string(c2.values, precision=6)))
        em.jumped = False
        if em.is_kalman_now:
            em.value = value[entries[-1][0]]
            em.pos = pos

    def _update_fd(self, em, p, y, pos, value, variance, v, gm):
        if em.base is None:
            em.base = dict(pos)
            em.pos = dict(pos)
            if em.symmetric:
                if y['est'] is not None:
                    self.bad('C14', 'early', 'the finite difference gradient of %s is complete after the base point' % p)
                return
        elif em.symmetric and pos == em.base:
            if y['est'] is not None:
                self.bad('C14', 'early', 'the finite difference gradient of %s is complete after %d points' % (p, len(em.points)))
            return
        if any(pt[0] == pos for pt in em.points):
            # the same point again (measured again after a change of targets): nothing new is learned
            self.hit('finite differences: point measured again')
            if y['est'] is not None:
                self.bad('C14', 'early', 'the finite difference gradient of %s is complete after %d points' % (p, len(em.points)))
            return
        em.points.append((pos, value, variance, dict(v)))
        n = len(em.gates)
        need = 2 * n if em.symmetric else n + 1
        if len(em.points) < need:
            if y['est'] is not None:
                self.bad('C14', 'early', 'the finite difference gradient of %s is complete after %d of %d points' % (
                    p, len(em.points), need))
                em.done = True
            return
        if y['est'] is None:
            self.bad('C14', 'late', 'the finite difference gradient of %s is not complete after %d points' % (p, len(em.points)))
            em.points.pop()
            return
        em.done = True
        self.hit('finite differences completed')
        em.value, em.pos = value, dict(pos)
        pts = em.points
        P = np.array([[q[0][g] for g in em.gates] for q in pts])
        var = np.array([q[2] for q in pts])
        if em.symmetric:
            V = P[1::2] - P[::2]
            dvar = [var[1::2] + var[::2]]
            Vs = [V]
        else:
            Vs = [np.delete(P, k, 0) - P[k] for k in range(n + 1)]
            dvar = [np.delete(var, k) + var[k] for k in range(n + 1)]
        if np.linalg.cond(Vs[0]) > 1e8:
            self.bad('C14', 'dependent', 'the finite difference points of %s are not independent: %s' % (p, P.tolist()))
            return
        ok = False
        for V, dvv in zip(Vs, dvar):
            inv = np.linalg.inv(V)
            cov = pd.DataFrame(inv @ np.diag(dvv) @ inv.T, index=em.gates, columns=em.gates)
            if y['cov'] is not None and same_frame(y['cov'], cov, 1e-6):
                ok = True
        if not ok:
            self.bad('C14', 'covariance', 'the covariance %s of the finite differences of %s is not the propagated one' % (
                None if y['cov'] is None else np.array2string(y['cov'].values, precision=6), p))
        # the truth, if only the gates of this gradient moved
        others = [g for g in v if g not in em.gates]
        if self.affine and all(q[3][g] == v[g] for q in pts for g in others):
            self.hit('finite differences compared with the true gradient')
            true = {g: self.cfg['params'][p]['g'].get(g, 0.) / gm.target[p]['factor'] for g in em.gates}
            scale = max([abs(x) for x in true.values()] + [1e-9])
            tol = 1e-7 * np.linalg.cond(Vs[0]) + 1e-13 * max(abs(q[1]) for q in pts) / scale / np.min(np.abs(np.linalg.svd(Vs[0])[1]))
            if not same(y['est'], true, max(tol, 1e-7), scale):
                self.bad('C14', 'gradient', 'the finite difference gradient of %s is %s, the true one is %s' % (
                    p, fmt(y['est']), fmt(true)))

    def _measure_sensing(self, pre, post, gi, gm, a, b, measures, v):
        vs = v
        t = gm.target
        cheap_sources = sorted(gm.g['cheap'])
        exp_sources = sorted(gm.g['expensive'])
        done = [e[1] for e in measures]
        raw = {}
        nc = len(cheap_sources)
        if sorted(done[:nc]) != cheap_sources:
            self.bad('C10', 'cheap', 'the sensing dot visit measured %s, expected first %s' % (done, cheap_sources))
            return
        for e in measures[:nc]:
            raw.update(e[2])
        value = {p: x / t[p]['factor'] if p in t else x for p, x in raw.items()}
        if any(value[p] == t[p][k] for p in value if p in t for k in ('minimum', 'cost_threshold')):
            self.hit('signal at a threshold')
        failed = any(math.isnan(x) for x in value.values())
        gm.fresh = True
        if not same(b['last_v'], vs):
            self.bad('C09', 'last-voltages', 'group %d was visited at %s but remembers %s' % (gi, fmt(vs), fmt(b['last_v'])))
        edge = any(0 < abs(value[p] - t[p][k]) < 1e-12 for p in value if p in t for k in ('minimum', 'cost_threshold'))
        if edge:
            self.hit('sensing edge')
        tuned = not failed and not any(value[p] <= t[p]['minimum'] for p in value if p in t)
        want_expensive = not failed and not tuned and any(value[p] <= t[p]['cost_threshold'] for p in value if p in t)
        did = done[nc:]
        if edge and not failed:
            tuned = post['index'] == gi + 1
            want_expensive = bool(did)
        if sorted(did) != (exp_sources if want_expensive else []):
            self.bad('C10', 'expensive', 'cheap values %s with targets %s led to the expensive measurements %s' % (
                fmt(value), {p: (t[p]['minimum'], t[p]['cost_threshold']) for p in value if p in t}, did))
        last = dict(raw)
        if did:
            last = {}
            for e in measures[nc:]:
                last.update(e[2])
            self.hit('expensive measurement')
            value2 = {p: x / t[p]['factor'] if p in t else x for p, x in last.items()}
            if any(math.isnan(x) for x in value2.values()):
                failed = True
                tuned = False
        if b['failed'] != failed:
            self.bad('C05', 'failed-flag', 'the sensing dot measurement %s but is recorded as %s' % (
                'failed' if failed else 'succeeded', 'failed' if b['failed'] else 'succeeded'))
        if failed:
            self.hit('failed sensing measurement')
            gm.failed_at = dict(v)
            gm.verified_at = None
            gm.forward = None
            return
        gm.failed_at = None
        if tuned:
            gm.verified_at = dict(v)
            gm.tuned.append(dict(v))
            gm.forward = None
            self.hit('sensing tuned')
        else:
            gm.verified_at = None
            fw = dict(v)
            for p, gate in gm.g['map'].items():
                if p in last:
                    fw[gate] = last[p]
            gm.forward = fw

    # -- the next voltages -----------------------------------------------------------------------------------------
    def _compute(self, pre, post, sets, measures, v):
        gi = pre['index']
        gm = self.groups[gi]
        self.hit('compute')
        if sets or measures:
            self.bad('C02', 'compute-action', 'the instruments were used while the next voltages were computed')
        if post['status'] or post['index'] != gi:
            self.bad('C02', 'compute-state', 'after computing voltages the tuning is at group %d, status %s' % (post['index'], post['status']))
        pend = post['pending']
        if pend is None:
            self.bad('C02', 'no-voltages', 'no voltages were computed by group %d' % gi)
            return
        self.same_gradients(pre, post, 'C13', 'compute-gradient', 'computing voltages')
        for g in pend.index:
            if g not in v:
                self.bad('C03', 'unknown-gate', 'wants to set the unknown gate %s' % g)
                return
            if not math.isfinite(float(pend[g])):
                self.bad('C03', 'not-finite', 'computed the voltage %r for %s' % (float(pend[g]), g))
                return
        full = {g: (float(pend[g]) if g in pend.index else v[g]) for g in v}
        if gm.failed_at is not None:
            self.hit('recovery step')
            ref = (gm.good if gm.kind == 'newton' else gm.tuned)
            if not ref:
                return
            mid = {g: 0.5 * (ref[-1][g] + gm.failed_at[g]) for g in v}
            if not same(full, mid, VTOL):
                self.bad('C05', 'midpoint', 'after a failed measurement at %s the next voltages are %s, the last good point is %s' % (
                    fmt(gm.failed_at), fmt(full), fmt(ref[-1])))
            return
        moved = [g for g in v if g not in gm.gates and abs(full[g] - v[g]) > 1e-12]
        if moved:
            self.bad('C03', 'other-gates', 'the step of group %d moves the gates %s of other groups from %s to %s' % (
                gi, moved, [v[g] for g in moved], [full[g] for g in moved]))
        if gm.kind == 'sensing':
            if gm.forward is not None:
                for g in v:
                    if abs(full[g] - gm.forward[g]) > VTOL:
                        self.bad('C10', 'position', 'the sensing dot step leads to %s, the optimum found is %s' % (
                            fmt(full), fmt(gm.forward)))
                        break
            return
        d = {g: full[g] - v[g] for g in gm.gates}
        dn = math.sqrt(sum(x * x for x in d.values()) + sum((full[g] - v[g]) ** 2 for g in moved))
        if dn > gm.maxstep * (1 + 1e-9) + 1e-12:
            self.bad('C04', 'too-long', 'group %d makes a step of length %.9g, allowed is %.9g' % (gi, dn, gm.maxstep))
        limited = dn >= gm.maxstep * (1 - 1e-9)
        gm.since += 1
        cands, why, sure = self._candidates(pre, gi, gm, v)
        if cands is None or not sure and not cands:
            gm.limited = limited
            return
        prop = 'C12' if why == 'newton' else ('C14' if why == 'fd' else 'C13')
        good = False
        reach = False
        near = None
        if isinstance(cands[0], tuple):
            self._check_span(cands[0], gi, gm, d, dn, v)
            gm.limited = limited
            return
        for c in cands:
            D = {g: c[g] - v[g] for g in gm.gates}
            n = math.sqrt(sum(x * x for x in D.values()))
            scale = max(n, 1e-3)
            if n <= gm.maxstep * (1 + 1e-6):
                if all(abs(d[g] - D[g]) <= CTOL * scale for g in gm.gates):
                    good = True
                    reach = reach or n <= gm.maxstep * (1 - 1e-9)
                elif n > 0 and all(abs(d[g] - D[g] * dn / n) <= CTOL * scale for g in gm.gates) and dn < n:
                    near = ('C04', 'short', n)
            if n >= gm.maxstep * (1 - 1e-6):
                f = gm.maxstep / n
                if all(abs(d[g] - f * D[g]) <= CTOL * max(gm.maxstep, 1e-3) for g in gm.gates):
                    good = True
                elif all(abs(d[g] - D[g] * dn / n) <= CTOL * scale for g in gm.gates):
                    near = ('C04', 'short', n)
        if sure and not good:
            if near:
                self.bad('C04', 'short', 'group %d makes a step of length %.9g, the way to its target is %.9g and %.9g is allowed' % (
                    gi, dn, near[2], gm.maxstep))
            else:
                self.bad(prop, why, 'the step of group %d from %s is %s, expected %s' % (
                    gi, fmt({g: v[g] for g in gm.gates}), fmt(d), ' or '.join(
                        fmt({g: c[g] - v[g] for g in gm.gates}) for c in cands[:4])))
        self.hit('step ' + why)
        gm.limited = limited and not reach
        if limited and not reach:
            self.hit('step cut to the maximal size')

    def _check_span(self, cand, gi, gm, d, dn, v):
        """Exploration in any direction of a space; the length is the configured one, cut to the maximal step."""
        _, N, weight = cand
        em = self._explorer
        if any(abs(em.pos[g] - v[g]) > 1e-12 for g in gm.gates):
            return
        u = np.array([d[g] for g in gm.gates])
        eps = em.eps[gm.gates[0]]
        if any(em.eps[g] != eps for g in gm.gates):
            return
        want = min(eps, gm.maxstep)
        self.hit('step explore')
        if abs(dn - want) > 1e-6 * want:
            self.bad('C13' if dn > want or dn < gm.maxstep * 0.999 else 'C04', 'explore-length',
                     'the explorative step of group %d has the length %.9g, expected %.9g' % (gi, dn, want))
            return
        u = u / dn
        rest = u - N.T @ (N @ u)
        if np.linalg.norm(rest) > 1e-6:
            self.bad('C13', 'explore-tuned', 'the explorative step %s of group %d changes parameters which are tuned already' % (
                fmt(d), gi))
        elif weight is not None and float(u @ weight[0] @ u) < weight[1] * (1 - 1e-6):
            self.bad('C13', 'explore-direction', 'the explorative step %s of group %d is along a direction of variance %.6g, the '
                     'threshold is %.6g' % (fmt(d), gi, float(u @ weight[0] @ u), weight[1]))

    def tuned_params(self, pre):
        """Parameters of the groups below which are tuned."""
        out = set()
        for gj in range(pre['index']):
            g = self.groups[gj]
            if g.kind == 'newton':
                out |= set(g.relevant())
        return out

    def _candidates(self, pre, gi, gm, v):
        """(list of acceptable target positions of the gates of the group, kind, whether the list is exhaustive)"""
        a = pre['groups'][gi]
        rel = gm.relevant()
        lower = self.tuned_params(pre)
        tuned = [k for k, p in enumerate(gm.params) if p in lower]
        ambiguous = []
        for k, p in enumerate(gm.params):
            if p not in rel:
                continue
            em = self.ests[self.keys[gi][k]]
            e = a['est'][k]
            if em.finite and not em.done:
                if not set(em.gates) == set(gm.gates):
                    return None, 'fd', False
                cands = self._fd_requests(em, gm, v)
                return cands, 'fd', cands is not None
            if not em.is_kalman_now:
                continue
            self._explorer = em
            if tuned:
                need, cands = self._explore_null(em, e, gm, a, tuned)
            else:
                need, cands = self._explore(em, e, gm)
            if need is None:
                ambiguous.extend(cands or [])
                return None, 'explore', False
            if need:
                return cands, 'explore', True
        # Newton step
        J = np.array([[float(a['est'][k]['est'][g]) for g in gm.gates] for k in range(len(gm.params))])
        if gm.values is None or not np.all(np.isfinite(J)):
            return None, 'newton', False
        sv = np.linalg.svd(J, compute_uv=False)
        if sv[0] == 0:
            return None, 'newton', False
        r = sv / sv[0]
        if np.any((r < 1e-6) & (r > 1e-18)):
            self.hit('ill conditioned')
            return None, 'newton', False
        b = np.array([gm.target[p]['desired'] - gm.values[p] if p in rel else 0. for p in gm.params])
        b = np.where(np.isnan(b), 0., b)
        step = np.linalg.pinv(J, rcond=1e-12) @ b
        return [{g: gm.position[g] + s for g, s in zip(gm.gates, step)}], 'newton', True

    def _fd_requests(self, em, gm, v):
        """Any point at the configured distance which is independent of the points measured so far is fine, hence only
        necessary conditions are turned into candidates by the caller: here the points are compared with the request."""
        return None

    def _explore(self, em, e, gm):
        C = np.array([[float(e['cov'].loc[g, h]) for h in gm.gates] for g in gm.gates])
        w, V = np.linalg.eigh((C + C.T) / 2)
        m = np.array([em.maxcov[g] for g in gm.gates])
        lengths = [float(np.linalg.norm(w[i] * V[:, i] / m)) for i in range(len(w))]
        top = max(lengths)
        gaps = np.min(np.abs(np.subtract.outer(w, w) + np.eye(len(w)) * 1e300)) if len(w) > 1 else math.inf
        if abs(top - 1) < 1e-6:
            return None, None
        if top <= 1:
            return False, None
        if gaps < 1e-7 * max(abs(w)):
            # degenerate: any direction of the degenerate space is as good
            self.hit('degenerate covariance')
            if len(w) > 1 and max(w) - min(w) > 1e-6 * max(abs(w)):
                return None, None
            return True, [('span', np.eye(len(w)), None)]
        out = []
        for i, L in enumerate(lengths):
            if L >= top * (1 - 1e-6):
                for s in (1, -1):
                    out.append({g: em.pos[g] + s * em.eps[g] * V[k, i] for k, g in enumerate(gm.gates)})
        return True, out

    def _explore_null(self, em, e, gm, a, tuned):
        J = np.array([[float(a['est'][k]['est'][g]) for g in gm.gates] for k in tuned])
        u, s, vt = np.linalg.svd(J)
        rank = int(np.sum(s > 1e-9 * max(s[0], 1e-300)))
        if rank != len(tuned) or np.any(s / s[0] < 1e-6):
            return None, None
        N = vt[rank:]
        thr = max(em.maxcov.values())
        if len(N) == 0:
            return False, None
        C = np.array([[float(e['cov'].loc[g, h]) for h in gm.gates] for g in gm.gates])
        w, U = np.linalg.eigh(N @ C @ N.T)
        edge = 1e-6 * thr
        if w[-1] <= thr - edge:
            return False, None
        if w[0] < thr + edge:
            # some allowed directions exceed the threshold and some do not: which are looked at is not specified
            return None, None
        self.hit('exploration within the null space')
        return True, [('span', N, (C, thr))]

    # -- what the user does ------------------------------------------------------------------------------------------
    def restart(self, pre, post, log, v, exc):
        if any(e[0] in ('set', 'measure') for e in log):
            self.bad('C07', 'restart-action', 'the restart used the instruments')
        if exc is not None:
            return
        self.hit('restart')
        self._reset(post, 'restart')
        vs = v
        for gm, a, b in zip(self.groups, pre['groups'], post['groups']):
            if not same(b['last_v'], vs):
                self.bad('C07', 'stale-voltages', 'after a restart at %s group %d works with the voltages %s' % (
                    fmt(vs), gm.gi, fmt(b['last_v'])))
            if not same(b['pos'], {g: v.get(g) for g in b['pos'].index}):
                self.bad('C07', 'stale-position', 'after a restart at %s the optimiser of group %d is at %s' % (
                    fmt(vs), gm.gi, fmt(b['pos'])))
            for p, e in zip(gm.params, b['est']):
                if not same(e['pos'], {g: v.get(g) for g in e['pos'].index}):
                    self.bad('C07', 'stale-estimator', 'after a restart at %s the gradient estimate of %s is at %s' % (
                        fmt(vs), p, fmt(e['pos'])))
        self.same_gradients(pre, post, 'C07', 'restart-gradient', 'a restart')
        self.check_records(post, 'a restart')
        for em in self.ests.values():
            em.restart(v)
            em.jumped = True

    def _reset(self, post, what):
        for gm in self.groups:
            gm.verified_at = None
            gm.fresh = False
            gm.stale_by = 'restart' if what == 'restart' else 'change of the targets'
            gm.limited = False
            gm.since = 0
        prop = 'C07' if what == 'restart' else 'C08'
        if post['index'] != 0 or post['status'] or post['pending'] is not None or post['complete']:
            self.bad(prop, 'not-reset', 'after a %s the tuning is at group %d, status %s, pending %s' % (
                what, post['index'], post['status'], fmt(post['pending'])))

    def retarget(self, pre, post, log, changes, exc):
        self.hit('retarget')
        if any(e[0] in ('set', 'measure') for e in log):
            self.bad('C08', 'retarget-action', 'the change of targets used the instruments')
        for gm, ch in zip(self.groups, changes):
            for cat, d in ch.items():
                for p, x in d.items():
                    if cat == 'desired' and (x == x) != (gm.target[p][cat] == gm.target[p][cat]):
                        self.hit('desired value given' if x == x else 'desired value withdrawn')
                    gm.target[p]['factor' if cat == 'rescaling_factor' else cat] = float(x)
        self._reset(post, 'change of the targets')
        self.same_gradients(pre, post, 'C08', 'retarget-gradient', 'a change of targets')
        for gm, a, b in zip(self.groups, pre['groups'], post['groups']):
            if not same(a['pos'], b['pos']):
                self.bad('C08', 'retarget-position', 'a change of targets moved the position of the optimiser')
        self.check_records(post, 'a change of targets')

    def resume(self, pre, post, what='reload'):
        """The reloaded tuning is in the state that was saved."""
        self.hit(what)
        diff = diff_snapshots(pre, post)
        if diff:
            self.bad('C17', 'reloaded-state', 'reloading changed %s' % diff)


def same_frame_scaled(a, b, rtol, scale):
    if a is None or b is None:
        return False
    b = b.loc[a.index, a.columns]
    x, y = a.values.astype(float), b.values.astype(float)
    s = max(scale * 1e-9, float(np.max(np.abs(y))))
    return bool(np.all(np.abs(x - y) <= rtol * s))


def diff_snapshots(a, b, path=''):
    """First difference of two snapshots, or None.  Label order matters, object types do."""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return '%s: keys %s / %s' % (path, sorted(a), sorted(b))
        for k in a:
            d = diff_snapshots(a[k], b[k], path + '/' + str(k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return '%s: %d / %d entries' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff_snapshots(x, y, path + '/%d' % i)
            if d:
                return d
        return None
    if isinstance(a, pd.Series) or isinstance(b, pd.Series):
        if not (isinstance(a, pd.Series) and isinstance(b, pd.Series)) or list(a.index) != list(b.index):
            return '%s: %s / %s' % (path, fmt(a), fmt(b))
        for x, y in zip(a.values, b.values):
            if not (x == y or (x != x and y != y)):
                return '%s: %s / %s' % (path, fmt(a), fmt(b))
        return None
    if isinstance(a, pd.DataFrame) or isinstance(b, pd.DataFrame):
        if not (isinstance(a, pd.DataFrame) and isinstance(b, pd.DataFrame)) or list(a.index) != list(b.index) \
                or list(a.columns) != list(b.columns):
            return '%s: different frames' % path
        x, y = a.values, b.values
        for p, q in zip(x.ravel(), y.ravel()):
            if not (p == q or (p != p and q != q)):
                return '%s: %s / %s' % (path, a.to_dict(), b.to_dict())
        return None
    if a is None or b is None:
        return None if a is b else '%s: %s / %s' % (path, a, b)
    if isinstance(a, float) and a != a and b != b:
        return None
    if a != b:
        return '%s: %r / %r' % (path, a, b)
    return None
