"""Textbook assumed-density Gaussian filters and smoothers in numpy, with hand-written Jacobians and product rules."""
import itertools
import math

import numpy as np


def rule(kind, d, order=3):
    """Unit sigma points (s, d) and weights (s,)."""
    if kind == 'cubature':
        e = np.eye(d) * math.sqrt(d)
        return np.r_[e, -e], np.full(2 * d, 1 / (2 * d))
    x, w = np.polynomial.hermite_e.hermegauss(order)
    w = w / w.sum()
    pts = np.array(list(itertools.product(x, repeat=d)))
    ws = np.array([np.prod(t) for t in itertools.product(w, repeat=d)])
    return pts, ws


def nlpdf(y, m, S):
    e = y - m
    return .5 * e @ np.linalg.solve(S, e) + .5 * np.linalg.slogdet(S)[1] + .5 * len(y) * np.log(2 * np.pi)


class Model:
    """Nonlinear model: f(x, h), Q(x, h), F(x, h) Jacobian; g(x), R(x), G(x) Jacobian.  All numpy, one state at a time."""


def predict(mod, m, P, h, rl=None):
    if rl is None:
        F = mod.F(m, h)
        return mod.f(m, h), F @ P @ F.T + mod.Q(m, h), P @ F.T
    X, w = rl
    xs = m + X @ np.linalg.cholesky(P).T
    fx = np.array([mod.f(x, h) for x in xs])
    mp = w @ fx
    vp = sum(wi * (np.outer(a - mp, a - mp) + mod.Q(x, h)) for wi, a, x in zip(w, fx, xs))
    D = sum(wi * np.outer(x - m, a - mp) for wi, a, x in zip(w, fx, xs))
    return mp, vp, D


def update(mod, m, P, y, rl=None):
    if rl is None:
        G = mod.G(m)
        S, C, mu = G @ P @ G.T + mod.R(m), P @ G.T, mod.g(m)
    else:
        X, w = rl
        xs = m + X @ np.linalg.cholesky(P).T
        gx = np.array([mod.g(x) for x in xs])
        mu = w @ gx
        S = sum(wi * (np.outer(a - mu, a - mu) + mod.R(x)) for wi, a, x in zip(w, gx, xs))
        C = sum(wi * np.outer(x - m, a - mu) for wi, a, x in zip(w, gx, xs))
    K = np.linalg.solve(S, C.T).T
    return m + K @ (y - mu), P - K @ S @ K.T, nlpdf(y, mu, S)


def filt(mod, m, P, ys, h, rl=None, pred=None):
    ms, vs, ns, n = [], [], [], 0.
    for y in ys:
        m, P = predict(mod, m, P, h, rl)[:2] if pred is None else pred(m, P)
        m, P, i = update(mod, m, P, y, rl)
        n += i
        ms.append(m), vs.append(P), ns.append(n)
    return np.array(ms), np.array(vs), np.array(ns)


def smooth(mod, mf, vf, h, rl=None):
    m, P = mf[-1], vf[-1]
    out = [(m, P)]
    for k in range(len(mf) - 2, -1, -1):
        mp, vp, D = predict(mod, mf[k], vf[k], h, rl)
        G = np.linalg.solve(vp, D.T).T
        m, P = mf[k] + G @ (m - mp), vf[k] + G @ (P - vp) @ G.T
        out.append((m, P))
    out = out[::-1]
    return np.array([o[0] for o in out]), np.array([o[1] for o in out])


def draw_model(rng, dx, dy, const_R=False):
    """A random smooth nonlinear model; returns the numpy Model and jax (trans, meas) callables."""
    import jax.numpy as jnp
    A, B = rng.normal(size=(dx, dx)) * .4, rng.normal(size=(dx, dx)) * .5
    b = rng.normal(size=dx) * .3
    C, D = rng.normal(size=(dy, dx)), rng.normal(size=(dy, dx)) * .4
    c = rng.normal(size=dy) * .3
    from rv import ref
    Q0, R0 = ref.spd(rng, dx, .1, .6), ref.spd(rng, dy, .1, .6)
    q, r = rng.normal(size=dx) * .4, rng.normal(size=dx) * (0. if const_R else .4)
    p = dict(A=A, B=B, b=b, C=C, D=D, c=c, Q0=Q0, R0=R0, q=q, r=r)

    def fns(P, xp):
        def f(x, h):
            return x + h * (P['A'] @ x + xp.sin(P['B'] @ x) + P['b'])

        def Q(x, h):
            return P['Q0'] * h * (1 + xp.tanh(P['q'] @ x) ** 2)

        def g(x):
            return P['C'] @ x + P['D'] @ (x * xp.cos(x)) + P['c']

        def R(x):
            return P['R0'] * (1 + xp.tanh(P['r'] @ x) ** 2)

        return f, Q, g, R

    mod = Model()
    mod.f, mod.Q, mod.g, mod.R = fns(p, np)
    mod.F = lambda x, h: np.eye(dx) + h * (A + np.cos(B @ x)[:, None] * B)
    mod.G = lambda x: C + D * (np.cos(x) - x * np.sin(x))[None, :]

    def to_jax(P):
        f, Q, g, R = fns(P, jnp)
        return (lambda x, h: (f(x, h), Q(x, h))), (lambda x: (g(x), R(x)))

    return mod, {k: jnp.asarray(v) for k, v in p.items()}, to_jax
