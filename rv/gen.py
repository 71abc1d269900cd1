"""Workload generators shared by the property modules."""
import math

import mpmath as mpm
import numpy as np

from rv import ref


def measure_1d(rng, kind, n_atoms=None):
    """A Gaussian-mixture description (ws, mus, vs); v = 0 are atoms."""
    if kind == 'atoms':
        n = n_atoms
        gaps = rng.uniform(0.4, 1.2, n)
        mus = np.cumsum(gaps)
        mus = mus - mus.mean() + rng.uniform(-1, 1)
        ws = rng.uniform(0.2, 1., n)
        return ws / ws.sum(), mus, np.zeros(n)
    if kind == 'many-atoms':
        n = (n_atoms or 3) + int(rng.integers(1, 8))
        mus = np.sort(rng.uniform(-2.5, 2.5, n))
        ws = rng.uniform(0.05, 1., n)
        return ws / ws.sum(), mus, np.zeros(n)
    if kind == 'normal':
        return np.array([1.]), rng.normal(size=1), rng.uniform(0.1, 3., 1)
    if kind == 'mixture':
        n = int(rng.integers(2, 5))
        ws = rng.uniform(0.1, 1., n)
        return ws / ws.sum(), rng.uniform(-2., 2., n), rng.uniform(0.05, 1.5, n)
    if kind == 'bimodal-tight':
        return np.array([.5, .5]), np.array([-1., 1.]) * rng.uniform(.4, 1.5) + rng.normal() * .2, rng.uniform(0.02, .1, 2)
    if kind == 'skewed':
        return np.array([.9, .1]), np.array([0., 3.]) * rng.uniform(.5, 1.5), np.array([.2, .6])
    if kind == 'symmetric':
        a = rng.uniform(.5, 1.5)
        return np.array([.25, .5, .25]), np.array([-a, 0., a]), np.array([.3, .2, .3])
    raise KeyError(kind)


def affine(meas, loc, sc):
    ws, mus, vs = meas
    return ws, mus * sc + loc, vs * sc ** 2


def represent(meas, M, mode, scale=None, dps=50):
    """Double-precision (moments, mean, scale) of a measure in a mode, rounded from an exact computation.
    scale: any positive number may serve as the scale of the scaled representation."""
    with mpm.workdps(dps):
        raw = ref.mixture_raw_moments(*meas, M)
        if mode == 'raw':
            return ref.f64(raw), 0., 1.
        mean = mpm.mpf(float(raw[1]))
        c = ref.shift_moments(raw, raw[1])
        if mode == 'central':
            return ref.f64(c), float(raw[1]), 1.
        if scale is None:
            if M > 2:
                scale = float(mpm.sqrt(c[2]))
            else:
                ws, mus, vs = meas
                m = float(raw[1])
                scale = math.sqrt(float(np.sum(ws * (vs + (mus - m) ** 2)))) or 1.
        return ref.f64([c[n] / mpm.mpf(scale) ** n for n in range(M)]), float(raw[1]), float(scale)
