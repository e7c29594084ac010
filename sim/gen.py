"""Seeded generation of tunings and operation sequences."""
import math
import random


def r3(x):
    return float('%.4g' % x)


def gen_cfg(rng, o=None):
    """o: options which bias the generation."""
    o = o or {}
    ng = o.get('groups') or rng.choice([1, 1, 2, 2, 2, 3])
    sensing = rng.random() < o.get('sensing', 0.25)
    easy = bool(o.get('easy'))
    noise = rng.random() < o.get('noise', 0.3)
    varmod = 0 if easy or rng.random() > o.get('varmod', 0.25) else rng.choice([0.3, 1, 2])
    names = ['g%d' % i for i in range(12)]
    rng.shuffle(names)
    it = iter(names)
    groups, params, sources, v0, allg = [], {}, {}, {}, []
    spans = {}
    scale = 10 ** rng.choice([-3, -2, 0, 0, 0, 1])           # voltages in V or mV
    offset = 10. ** rng.choice([1, 2, 4]) if rng.random() < o.get('offset', 0.1) else 1.       # steps are small compared to voltages
    quantum = scale * 10 ** rng.uniform(-6, -4) if rng.random() < o.get('quantum', 0.25) else 0
    if quantum:
        quantum = r3(quantum)
    group_gates = []
    for gi in range(ng):
        n = rng.choice(o.get('ngates', [1, 2, 2, 3]))
        gates = [next(it) for _ in range(n)]
        group_gates.append(gates)
        allg += gates
    sg = []
    if sensing:
        sg = [next(it) for _ in range(rng.choice([1, 2]))]
        allg += sg
    spare = [next(it)] if rng.random() < 0.3 else []
    allg += spare
    rng.shuffle(allg)
    for g in allg:
        v0[g] = r3(rng.uniform(-1, 1) * scale * offset)
    lo_tol = 10 ** (rng.uniform(-1.5, -0.5) if easy else rng.uniform(-3, -1))

    def linear(gates, lower, i):
        d = {'c': r3(rng.uniform(-2, 2)), 'g': {}}
        for k, g in enumerate(gates):
            d['g'][g] = r3((rng.choice([-1, 1]) * rng.uniform(0.7, 1.5) if k == i else rng.uniform(-0.35, 0.35)) / scale)
        for g in lower:
            d['g'][g] = r3(rng.uniform(-0.3, 0.3) / scale)
        if noise:
            d['sigma'] = r3(lo_tol * rng.uniform(0.01, 0.1))
        d['var'] = r3((d.get('sigma') or 1e-4) ** 2)
        if rng.random() < 0.1 and not noise:
            d['var'] = r3(10 ** rng.uniform(-12, -1))
        if varmod:
            d['varmod'] = varmod
        return d
    for gi in range(ng):
        gates = group_gates[gi]
        lower = [g for gs in group_gates[:gi] for g in gs] + sg
        npar = len(gates) if rng.random() < 0.75 else rng.randint(1, len(gates))
        names_p = ['p%d_%d' % (gi, i) for i in range(npar)]
        for i, p in enumerate(names_p):
            params[p] = linear(gates, lower, i)
            if rng.random() < (0 if easy else o.get('nl', 0.15)):
                params[p]['nl'] = {'amp': r3(lo_tol * rng.uniform(0.05, 0.6)), 'k': {gates[i]: r3(rng.uniform(0.5, 3) / scale)}}
            if rng.random() < (0 if easy else o.get('fail', 0.15)) and gi:
                params[p]['fail'] = {'center': {g: v0[g] for g in gates}, 'radius': r3(scale * rng.uniform(0.5, 2.5))}
        # how many sources the parameters come from
        srcs = []
        left = list(names_p)
        while left:
            k = rng.randint(1, len(left))
            src = 'm%d_%d' % (gi, len(srcs))
            sources[src] = left[:k]
            if rng.random() < 0.3:
                sources[src] = sources[src][::-1]
            left = left[k:]
            srcs.append(src)
        target = {}
        order = list(names_p)
        if rng.random() < 0.4:
            rng.shuffle(order)
        for p in order:
            units = o.get('units', 1)
            factor = r3(10 ** rng.uniform(-units, units)) if rng.random() < (0.3 if units == 1 else 0.7) else 1.0
            delta = rng.uniform(-1, 1) * rng.choice([0.3, 1, 3])
            target[p] = {'desired': r3((params[p]['c'] + delta) / factor), 'tolerance': r3(lo_tol / factor), 'factor': factor}
        # parameters to be left invariant; their gradient is known but never updated by this group
        if len(gates) > npar and rng.random() < 0.4:
            p = 'inv%d' % gi
            params[p] = linear(gates, lower, len(gates) - 1)
            if rng.random() < 0.7:
                sources[rng.choice(srcs)].append(p)
            target[p] = {'factor': 1.0}
            order.insert(rng.randint(0, len(order)), p)
            target = {q: target[q] for q in order}
        est = {}
        maxstep = r3(scale * 10 ** rng.uniform(-1.3, 0.3)) if rng.random() < o.get('maxstep', 0.5) else None
        maxn = rng.choice([1, 1, 2, 3, 5])
        kinds = o.get('kinds', ['kalman'] * 6 + ['fd', 'fds', 'self', 'selfs'])
        kind = rng.choice(kinds)
        for p in target:
            if rng.random() < 0.15:
                # finite differences of one group share their points: all symmetric or all not
                kind = rng.choice({'kalman': ['kalman'], 'fd': ['fd', 'self', 'kalman_'], 'self': ['fd', 'self', 'kalman_'],
                                   'fds': ['fds', 'selfs', 'kalman_'], 'selfs': ['fds', 'selfs', 'kalman_'],
                                   'kalman_': ['kalman_']}[kind])
            eg = list(gates)
            if kind == 'kalman' and lower and rng.random() < o.get('wide', 0.25):
                eg = eg + rng.sample(lower, rng.randint(1, len(lower)))
                rng.shuffle(eg)
            elif rng.random() < 0.3:
                rng.shuffle(eg)
            k = kind if not math.isnan(target[p].get('desired', math.nan)) else 'kalman'
            calm = k == 'kalman_'
            k = 'kalman' if calm else k
            fac = target[p].get('factor', 1.)
            eps = r3(scale * 10 ** rng.uniform(-2, -0.5))
            if maxstep and k != 'kalman':
                eps = min(eps, r3(maxstep * 0.9))
            if quantum and k != 'kalman':
                eps = max(eps, 60 * quantum)
                if maxstep and maxstep < eps * 1.05:
                    maxstep = r3(eps * 1.2)
            e = {'kind': k, 'gates': eg, 'eps': eps}
            gs = 1. / scale / fac
            if k == 'kalman':
                err = rng.choice([0, 0.03] if easy else [0, 0.05, 0.15, 0.15])
                e['grad0'] = {g: (params[p]['g'].get(g, 0.) / fac + err * gs * rng.uniform(-1, 1)) for g in eg}
                c0 = (gs * rng.choice([0.02, 0.1, 0.3])) ** 2
                n = len(eg)
                A = [[rng.uniform(-0.4, 0.4) if i != j else rng.uniform(0.6, 1.2) for j in range(n)] for i in range(n)]
                e['cov0'] = [[c0 * sum(A[i][k2] * A[j][k2] for k2 in range(n)) for j in range(n)] for i in range(n)]
                if rng.random() < 0.3:
                    e['cov0'] = [[c0 if i == j else 0. for j in range(n)] for i in range(n)]
                mode = rng.random()
                if mode < o.get('explore', 0.35) and not calm:
                    e['maxcov'] = c0 * rng.uniform(0.2, 1.1)
                    if rng.random() < 0.3:
                        e['maxcov'] = {g: c0 * rng.uniform(0.2, 1.1) for g in eg}
                else:
                    e['maxcov'] = c0 * 1e4
                e['alpha'] = rng.choice([1., 1., 1.01, 1.05, 1.2])
            elif k in ('self', 'selfs'):
                e['maxcov'] = (gs * 10) ** 2
            if k in ('fd', 'fds') and rng.random() < 0.15:
                pass
            est[p] = e
        groups.append({'kind': 'newton', 'gates': gates, 'sources': srcs, 'target': target, 'est': est,
                       'maxstep': maxstep, 'maxn': maxn})
    # a group which knows tuned parameters of the groups below: leave them unchanged (shared estimators)
    for gi in range(1, ng):
        if rng.random() < o.get('share', 0.3):
            kalman = lambda group: all(e.get('kind', 'kalman') == 'kalman' for e in group['est'].values())
            below = [k for k in (range(gi) if rng.random() < 0.6 else rng.sample(range(gi), 1)) if kalman(groups[k])]
            if kalman(groups[gi]) and below:
                union = list(groups[gi]['gates'])
                for k in below:
                    union += [g for g in groups[k]['gates'] if g not in union]
                # the upper group uses all gates
                groups[gi]['gates'] = union
                for k in below + [gi]:
                    for p, e in groups[k]['est'].items():
                        if 'share' in e:
                            e = groups[int(e['share'].split('/')[0])]['est'][p]
                        extend(rng, e, params[p], union, scale, groups[k]['target'][p].get('factor', 1.))
                for k in below:
                    for p in groups[k]['target']:
                        if p not in groups[gi]['target'] and len(groups[gi]['target']) < len(union):
                            groups[gi]['target'][p] = {'factor': groups[k]['target'][p].get('factor', 1.)}
                            groups[gi]['est'][p] = {'share': groups[k]['est'][p].get('share', '%d/%s' % (k, p))}
    # groups which measure what another group measures, too
    for gi in range(1, ng):
        if rng.random() < o.get('sharesrc', 0.15):
            src = rng.choice(groups[rng.randrange(gi)]['sources'])
            if src not in groups[gi]['sources']:
                groups[gi]['sources'].insert(rng.randint(0, len(groups[gi]['sources'])), src)
    # parameters which get or lose their desired value
    for g in groups:
        ps = [p for p in g['target'] if 'desired' in g['target'][p]]
        ok = [p for p in ps if g['est'][p]['kind'] == 'kalman' and 'share' not in g['est'][p]]
        if len(ps) > 1 and ok and rng.random() < o.get('toggle', 0.15):
            t = g['target'][rng.choice(ok)]
            t['aim'] = t['desired']
            if rng.random() < 0.6:
                t['desired'] = math.nan
    if sensing:
        opt = {}
        for k, g in enumerate(sg):
            p = 'opt_%s' % g
            params[p] = {'kind': 'optimum', 'c': r3(v0[g] + scale * rng.uniform(-0.5, 0.5)), 'g': {}}
            for h in [h for gs in group_gates for h in gs]:
                if rng.random() < 0.3:
                    params[p]['g'][h] = r3(rng.uniform(-0.1, 0.1))
            opt[g] = p
        params['signal'] = {'kind': 'signal', 'height': 1.0, 'slope': r3(rng.uniform(0.5, 2) / scale), 'optima': opt}
        params['signal2'] = {'kind': 'signal', 'height': r3(rng.uniform(0.9, 1.2)), 'slope': r3(rng.uniform(0.5, 2) / scale), 'optima': opt}
        fac = r3(10 ** rng.uniform(-1, 1)) if rng.random() < 0.3 else 1.0
        target = {'signal': {'minimum': r3(rng.uniform(0.6, 0.95) / fac), 'cost_threshold': r3(rng.uniform(0.2, 0.7) / fac), 'factor': fac}}
        cheap = ['sd_cheap']
        sources['sd_cheap'] = ['signal']
        cheap_opt = rng.sample(sg, rng.randint(0, len(sg)))
        sources['sd_cheap'] = ['signal'] + [opt[g] for g in cheap_opt]
        if rng.random() < 0.3:
            cheap.append('sd_cheap2')
            sources['sd_cheap2'] = ['signal2']
            target['signal2'] = {'minimum': r3(rng.uniform(0.4, 0.8)), 'cost_threshold': r3(rng.uniform(0.1, 0.8)), 'factor': 1.0}
        sources['sd_exp'] = [opt[g] for g in sg]
        if not set(opt.values()) <= set(sources['sd_cheap']):
            for t in target.values():
                if rng.random() < 0.7:
                    t['cost_threshold'] = t['minimum']
        if rng.random() < o.get('levels', 0.15):
            # signals and thresholds are multiples of the resolution, hence often equal
            level = rng.choice([0.125, 0.25])
            fac = 2. ** rng.randint(-2, 2)
            params['signal']['level'] = params['signal2']['level'] = level
            target['signal'] = {'minimum': rng.choice([0.5, 0.75]) / fac, 'cost_threshold': rng.choice([0.25, 0.5, 0.75]) / fac, 'factor': fac}
            if 'signal2' in target:
                target['signal2'] = {'minimum': rng.choice([0.5, 0.75]), 'cost_threshold': rng.choice([0.25, 0.5]), 'factor': 1.0}
        for p in opt.values():
            if rng.random() < 0.7:
                target[p] = {'factor': r3(10 ** rng.uniform(-1, 1)) if rng.random() < o.get('optfactor', 0.2) else 1.0}
        names_t = list(target)
        rng.shuffle(names_t)
        groups.insert(0, {'kind': 'sensing', 'gates': sg, 'cheap': cheap, 'expensive': ['sd_exp'],
                          'target': {p: target[p] for p in names_t}, 'map': {opt[g]: g for g in sg}})
        # keys of shared estimators count the groups
        for g in groups:
            for e in g.get('est', {}).values():
                if 'share' in e:
                    a, b = e['share'].split('/')
                    e['share'] = '%d/%s' % (int(a) + 1, b)
    cfg = dict(gates=allg, v0=v0, quantum=quantum, params=params, sources=sources, groups=groups,
               seed=rng.randrange(1 << 30), scale=scale, alias=rng.random() < 0.3,
               read_order=rng.choice(['as_is', 'as_is', 'sorted']))
    return cfg


def extend(rng, e, param, gates, scale, fac):
    """Gives the estimator all the gates."""
    if 'share' in e:
        return
    gs = 1. / scale / fac
    new = [g for g in gates if g not in e['gates']]
    if not new:
        return
    n0 = len(e['gates'])
    e['gates'] = e['gates'] + new
    c = e['cov0']
    base = sum(c[i][i] for i in range(n0)) / n0
    n = len(e['gates'])
    e['cov0'] = [[c[i][j] if i < n0 and j < n0 else (base if i == j else 0.) for j in range(n)] for i in range(n)]
    for g in new:
        e['grad0'][g] = param['g'].get(g, 0.) / fac + 0.05 * gs * rng.uniform(-1, 1)
        if isinstance(e['maxcov'], dict):
            e['maxcov'][g] = base * rng.uniform(0.2, 1.1)


def gen_ops(rng, cfg, o=None):
    o = o or {}
    n = o.get('n') or rng.choice([15, 30, 30, 60])
    probs = dict(dict(manual=0.5, retarget=0.5, resume=0.3, old=0.3, exc=0.5, nan=0.6), **o.get('p', {}))
    enabled = {k: rng.random() < p for k, p in probs.items()}
    for k in o.get('force', ()):
        enabled[k] = True
    for k in o.get('off', ()):
        enabled[k] = False
    rate = rng.choice([0.03, 0.06, 0.15])
    ops = []
    nan_burst = 0
    while len(ops) < n:
        x = rng.random()
        if enabled['manual'] and x < rate * 0.5:
            op = gen_manual(rng, cfg)
        elif enabled['retarget'] and x < rate * (1.0 if o.get('much') == 'retarget' else 0.7):
            op = gen_retarget(rng, cfg)
        elif enabled['resume'] and x < rate * 1.6:
            op = {'op': 'resume'}
        elif enabled['old'] and x < rate * 2.0:
            op = {'op': 'save'}
        elif enabled['old'] and x < rate * 2.3 and any(p['op'] == 'save' for p in ops):
            op = {'op': 'resume_old', 'k': rng.randrange(4)}
        else:
            op = {'op': 'iterate'}
            if enabled['exc'] and rng.random() < rate * 1.5:
                op['faults'] = [gen_fault(rng)]
            if enabled['nan']:
                if nan_burst or rng.random() < rate * 2:
                    nan_burst = max(0, nan_burst - 1) if nan_burst else rng.choice([6, 9]) if rng.random() < o.get('burst', 0) else rng.choice([0, 0, 3, 6])
                    op['nans'] = gen_nans(rng, cfg)
        ops.append(op)
    return ops


def gen_fault(rng):
    f = {'n': rng.choice([1, 1, 2, 2, 3, 4]), 'when': rng.choice(['before', 'after'])}
    if rng.random() < 0.5:
        f['kind'] = rng.choice(['runtime', 'timeout', 'value', 'key', 'interrupt'])
    return f


def gen_unknown(rng, cfg):
    """One part of the tuning names a gate which the experiment does not have."""
    return {'part': rng.choice(['group', 'estimator', 'last_voltages', 'pending', 'solver', 'only the estimator', 'only the estimator', 'only the solver', 'forwarded']), 'group': rng.randrange(len(cfg['groups'])),
            'after': rng.choice([0, 0, 1, 4])}


def gen_nans(rng, cfg):
    if rng.random() < 0.5:
        return [{'m': m, 'params': None} for m in (1, 2, 3)]
    names = sorted(cfg['params'])
    sel = rng.sample(names, rng.randint(1, max(1, len(names) // 2)))
    return [{'m': m, 'params': sel} for m in (1, 2, 3)]


def gen_manual(rng, cfg):
    if rng.random() < 0.15:
        return {'op': 'restart'}
    gates = rng.sample(cfg['gates'], rng.randint(1, len(cfg['gates'])))
    op = {'op': 'manual', 'dv': {g: r3(cfg['scale'] * rng.uniform(-1, 1) * rng.choice([0.02, 0.3, 1])) for g in gates}}
    if rng.random() < 0.1:
        op['faults'] = [{'n': 1, 'when': rng.choice(['before', 'after'])}]
    return op


def gen_retarget(rng, cfg):
    changes = []
    for g in cfg['groups']:
        ch = {}
        if g['kind'] == 'newton' and rng.random() < 0.7:
            ps = [p for p in g['target'] if 'desired' in g['target'][p]]
            sel = [p for p in ps if rng.random() < 0.6]
            if sel:
                ch['desired'] = {p: r3(g['target'][p].get('aim', g['target'][p]['desired']) + rng.uniform(-1, 1) * rng.choice([0.1, 1, 2]) /
                                       g['target'][p]['factor']) for p in sel}
                for p in sel:
                    if 'aim' in g['target'][p] and rng.random() < 0.4:
                        ch['desired'][p] = math.nan
            sel = [p for p in ps if rng.random() < 0.3]
            if sel:
                ch['tolerance'] = {p: r3(g['target'][p]['tolerance'] * 10 ** rng.uniform(-0.3, 0.7)) for p in sel}
        elif g['kind'] == 'sensing' and rng.random() < 0.5:
            ps = [p for p in g['target'] if 'minimum' in g['target'][p]]
            exact = any(cfg['params'][p].get('level') for p in ps)
            f = (lambda: rng.choice([0.5, 1., 1.])) if exact else (lambda: rng.uniform(0.7, 1.05))
            ch['minimum'] = {p: r3(g['target'][p]['minimum'] * f()) for p in ps}
            if rng.random() < 0.5:
                ch['cost_threshold'] = {p: r3(g['target'][p]['cost_threshold'] * f()) for p in ps}
        changes.append(ch)
    while changes and not changes[-1] and rng.random() < 0.5:
        changes.pop()
    return {'op': 'retarget', 'changes': changes}


def scenario(seed, o=None):
    rng = random.Random('core-%d' % seed)
    cfg = gen_cfg(rng, o)
    return {'cfg': cfg, 'ops': gen_ops(rng, cfg, o)}
