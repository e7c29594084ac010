"""Simulated scans for the evaluators of qtune: pure functions of the gate voltages, the options of the measurement and a seed.

kind: 'signal' (clean), 'noisy' (signal with noise), 'flat', 'noise' (noise only), 'nan' (everything undefined), 'nans' (some
points undefined), 'inf' (one infinite point)"""
import math

import numpy as np

from .world import h64

KINDS = ('signal', 'noisy', 'flat', 'noise', 'nan', 'nans', 'inf')


def _noise(shape, *seed):
    return np.random.RandomState(h64(*seed) % 2 ** 32).standard_normal(shape)


def spoil(y, kind, rms, *seed):
    """y: clean signal with amplitude of order rms*50"""
    if kind == 'signal':
        return y
    if kind == 'noisy':
        return y + rms * _noise(y.shape, *seed)
    if kind == 'flat':
        return np.full(y.shape, float(np.mean(y)))
    if kind == 'noise':
        return float(np.mean(y)) + rms * _noise(y.shape, *seed)
    y = np.array(y, dtype=float)
    if kind == 'nan':
        y[...] = np.nan
        return y
    flat = y.reshape(-1)
    r = np.random.RandomState(h64(*seed) % 2 ** 32)
    if kind == 'inf':
        flat[r.randint(flat.size)] = np.inf
    else:
        flat[r.randint(flat.size, size=max(1, flat.size // 7))] = np.nan
    return y


def lead_curve(x, height, t_fall, t_rise, begin_rise, begin_fall, offset):
    """Charging and discharging of the dot during a square pulse of 4 us (the model of the literature, written from scratch)."""
    half = 2e-6
    y = np.empty(len(x))

    def edge(sign, dt, t):
        # sinh form of an exponential approach between the two plateaus
        a = .5 * half / t
        return offset + sign * .5 * height * (math.cosh(a) - math.exp(.5 * (half - 2. * dt) / t)) / math.sinh(a)
    for i, xi in enumerate(x):
        if xi < begin_rise:
            y[i] = edge(-1., xi + x[-1] - begin_fall, t_fall)
        elif xi < begin_fall:
            y[i] = edge(1., xi - begin_rise, t_rise)
        else:
            y[i] = edge(-1., xi - begin_fall, t_fall)
    return y


def truth(m, v, d):
    """What the device would yield without noise: d describes the device (see gen_device in props/evals.py)."""
    k = {g: float(x) for g, x in v.items()}

    def lin(c, g):
        return c + sum(a * k[q] for q, a in g.items() if q in k)
    return lin(d['c'], d['g'])


def scan(m, v, d, kind, *seed):
    """m: Measurement, v: {gate: voltage}, d: device (dict(shape=, c=, g=, ...)); returns what experiment.measure returns."""
    o = m.options
    shape = d['shape']
    x0 = truth(m, v, d)
    seed = (d.get('seed', 0), shape, repr(sorted(v.items()))) + seed
    if shape == 'load':
        x = np.arange(0., 500., 5.)
        y = spoil(d['offset'] + d['height'] * np.exp(-x / x0), kind, abs(d['height']) * 0.02, *seed)
        return np.array([y, x])
    if shape == 'detune':
        n = int(o['N_points'])
        x = np.linspace(o['center'] - o['range'], o['center'] + o['range'], n)
        y = d['offset'] + d['slope'] * x + .5 * d['height'] * (1 + np.tanh((x - d['position']) / x0))
        if d.get('lines'):
            return spoil(np.array([y] * d['lines']), kind, abs(d['height']) * 0.02, *seed)
        return spoil(y, kind, abs(d['height']) * 0.02, *seed)
    if shape == 'lead':
        x = np.arange(d['n']) / d['rate']
        y = lead_curve(x, d['height'], x0, x0 * d['ratio'], d['begin'], d['begin'] + 2e-6, d['offset'])
        y = spoil(y, kind, abs(d['height']) * 0.02, *seed)
        base = np.linspace(0.1, 0.3, d['n'])
        return np.array([base, base + y])
    if shape == 'transition':
        n = int(o['N_points'])
        x = np.linspace(o['center'] - o['range'], o['center'] + o['range'], n)
        y = spoil(d['height'] * np.tanh((x - x0) / (o['range'] / 10.)), kind, abs(d['height']) * 0.02, *seed)
        return np.array([y] * d['lines']) if d.get('lines') else y
    if shape == 'peak':
        n = int(o['N_points'])
        x = np.linspace(o['center'] - o['range'], o['center'] + o['range'], n)
        return spoil(d['height'] * np.exp(-.5 * ((x - x0) / d['width']) ** 2), kind, abs(d['height']) * 0.02, *seed)
    if shape == 'peak2d':
        c = o['center']
        x = np.linspace(c[0] - o['range'], c[0] + o['range'], int(o['n_lines']))
        y = np.linspace(c[1] - o['range'], c[1] + o['range'], int(o['n_points']))
        xx, yy = np.meshgrid(x, y, indexing='ij')
        z = d['height'] * np.exp(-.5 * ((xx - x0) / d['width']) ** 2) * np.exp(-.5 * ((yy + x0) / d['width']) ** 2)
        return spoil(z, kind, abs(d['height']) * 0.02, *seed)
    raise ValueError(shape)
