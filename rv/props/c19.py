"""C19: the integration rules integrate exactly what their order promises."""
import itertools
import math

import mpmath as mpm
import numpy as np

from rv import ref

RULE = ('Cubature d = 1..10; Gauss--Hermite d = 1..4, orders 1..60 in one dimension; random means and (non-diagonal) Cholesky '
        'factors; monomials up to the degree of exactness, analytic integrands for convergence; Taylor quadrature of random '
        'polynomials and operands; Runge--Kutta steps of random linear and quadratic systems.  Oracle: exact Gaussian moments, '
        'truncated matrix exponentials, an independent Runge--Kutta.  Non-trivial: degree >= 2.')
ASSUMPTIONS = ['float64']
MUST_RUN = ['weights', 'cubature', 'gh-1d', 'gh-nd', 'gh-high', 'sigma-points', 'expectation', 'gaussian-expectation', 'taylor', 'rk4-linear', 'rk4', 'rk4-backward']


def tasks(tier):
    out = [('cubature', cubature, {}), ('gh-1d', gh1, {}), ('gaussian-expectation', gexp, {}), ('taylor', taylor, {}), ('rk4', rk, {})]
    out += [(f'gh-d{d}', ghn, dict(d=d)) for d in (2, 3, 4)]
    return out


def mono(x, idx):
    return np.prod(x ** np.asarray(idx), axis=-1)


def check_points(mon, sg, d, n, degree, rng, tag, tol=1e-11):
    import jax.numpy as jnp
    w, xi = np.asarray(sg.w), np.asarray(sg.xi)
    mon.true('weights', w.shape == (n,) and xi.shape == (n, d) and int(sg.n_points) == n and int(sg.d) == d, f'{w.shape} {xi.shape} {sg.n_points}')
    mon.true('weights', np.all(w >= 0) and abs(w.sum() - 1) < 1e-12, f'sum of weights {w.sum()!r}')
    m, L = rng.normal(size=d), np.tril(rng.normal(size=(d, d)))
    chi = np.asarray(mon.api(sg.gen_sigma_points, jnp.asarray(m), jnp.asarray(L)))
    mon.close('sigma-points', chi, m + xi @ L.T, rtol=1e-13, atol=1e-13)
    C = L @ L.T
    for _ in range(4):
        idx = np.bincount(rng.integers(d, size=int(rng.integers(0, degree + 1))), minlength=d)
        for idx in (idx,):
            want = float(ref.isserlis(list(m), C, idx))
            sc = float(w @ np.abs(mono(chi, idx))) + 1e-3
            mon.close(tag, float(mon.api(sg.expectation, jnp.asarray(mono(chi, idx)))) / sc, want / sc, rtol=0, atol=tol, msg=f'd={d} monomial {idx}')
            mon.close('expectation', float(mon.api(sg.expectation_from_nodes, lambda c: jnp.prod(c ** jnp.asarray(idx), axis=-1), jnp.asarray(chi))) / sc, want / sc, rtol=0, atol=tol)
    # matrix-valued integrand
    V = rng.normal(size=(n, 2, 3))
    mon.close('expectation', mon.api(sg.expectation, jnp.asarray(V)), np.einsum('i,ijk->jk', w, V), rtol=1e-12, atol=1e-12)
    mon.close('expectation', mon.api(sg.expectation_from_nodes, lambda c: jnp.asarray(V), jnp.asarray(chi)), np.einsum('i,ijk->jk', w, V), rtol=1e-12, atol=1e-12)


def cubature(mon, rng, tier):
    from mfs.classical_filters_smoothers.quadratures import SigmaPoints
    for d in range(1, 11):
        for _ in range(4 if tier == 'quick' else 30):
            mon.case(d=d, degree=3, r=float(rng.normal()))
            check_points(mon, mon.api(SigmaPoints.cubature, d), d, 2 * d, 3, rng, 'cubature')


def gh1(mon, rng, tier):
    from mfs.classical_filters_smoothers.quadratures import SigmaPoints
    for o in list(range(1, 31)) + [35, 40, 50, 60]:
        sg = mon.api(SigmaPoints.gauss_hermite, 1, o)
        mon.case(d=1, order=o, nontrivial=o > 1)
        tag = 'gh-1d' if o <= 20 else 'gh-high'
        check_points(mon, sg, 1, o, min(2 * o - 1, 25), rng, 'gh-1d')
        w, x = np.asarray(sg.w, float), np.asarray(sg.xi, float)[:, 0]
        for k in range(0, 2 * o):
            want = 0. if k % 2 else float(mpm.fac2(k - 1)) if k else 1.
            sc = max(float(w @ np.abs(x) ** k), 1e-9)
            mon.close(tag, float(w @ x ** k) / sc, want / sc, rtol=0, atol=1e-10, msg=f'order {o} power {k}')
        if o >= 12:
            mon.close(tag, float(w @ np.cos(x)), np.exp(-.5), rtol=1e-10, atol=0)
    sg = SigmaPoints.gauss_hermite(2)
    mon.true('weights', int(sg.n_points) == 9, 'the default order is 3')


def ghn(mon, rng, tier, d):
    from mfs.classical_filters_smoothers.quadratures import SigmaPoints
    for o in range(1, {2: 11, 3: 7, 4: 6}[d]):
        for _ in range(3 if tier == 'quick' else 20):
            mon.case(d=d, order=o, nontrivial=o > 1, r=float(rng.normal()))
            sg = mon.api(SigmaPoints.gauss_hermite, d, o)
            check_points(mon, sg, d, o ** d, 2 * o - 1, rng, 'gh-nd')
        w, x = np.asarray(sg.w), np.asarray(sg.xi)
        # product rule: degree 2o-1 in EACH coordinate
        for _ in range(12):
            idx = rng.integers(0, 2 * o, d)
            want = np.prod([0. if k % 2 else float(mpm.fac2(int(k) - 1)) if k else 1. for k in idx])
            sc = float(w @ np.abs(mono(x, idx))) + 1e-12
            mon.close('gh-nd', float(w @ mono(x, idx)) / max(sc, 1e-9), want / max(sc, 1e-9), rtol=0, atol=1e-10, msg=f'order {o}, powers {idx}')
        mon.true('gh-nd', len(np.unique(np.round(x, 9), axis=0)) == o ** d, 'the nodes form a full grid')


def gexp(mon, rng, tier):
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers.quadratures import gaussian_expectation
    for rep in range(16 if tier == 'quick' else 100):
        d = (1, 2, 3)[rep % 3]
        T, o = int(rng.integers(1, 6)), int(rng.integers(2, 7 if d < 3 else 5))
        ms, Ls = rng.normal(size=(T, d)), np.tril(rng.normal(size=(T, d, d)))
        idx = np.bincount(rng.integers(d, size=int(rng.integers(0, 2 * o))), minlength=d)
        mon.case(d=d, T=T, order=o, idx=idx, rep=rep)
        want = np.array([float(ref.isserlis(list(m), L @ L.T, idx)) for m, L in zip(ms, Ls)])
        sc = np.array([float(ref.isserlis(list(np.abs(m)), np.abs(L) @ np.abs(L).T, idx)) for m, L in zip(ms, Ls)]) + 1e-9
        got = mon.api(gaussian_expectation, jnp.asarray(ms), jnp.asarray(Ls), lambda v: jnp.prod(v ** jnp.asarray(idx), axis=-1), d=d, order=o)
        mon.close('gaussian-expectation', np.asarray(got) / sc, want / sc, rtol=0, atol=1e-10)
        if d == 1:  # high orders: polynomials of the highest degree integrated exactly
            for oo in (9, 13, 21, 30):
                k2 = 2 * oo - int(rng.integers(1, 3))
                sm = rng.normal(size=T) * .3
                got = np.ravel(mon.api(gaussian_expectation, jnp.asarray(sm)[:, None], jnp.ones((T, 1, 1)), lambda v: v ** k2, d=1, order=oo))
                want = np.array([float(ref.gauss_moments(float(q), 1., k2 + 1)[k2]) for q in sm])
                big = np.array([float(ref.gauss_moments(abs(float(q)) + .1, 1., k2 + 1)[k2]) for q in sm])
                mon.close('gaussian-expectation', got / big, want / big, rtol=0, atol=1e-9, msg=f'order {oo} power {k2}')
        # scalar shortcut, vector-valued integrand, default order
        m1, l1 = rng.normal(size=T), rng.uniform(.2, 1.5, T)
        got = mon.api(gaussian_expectation, jnp.asarray(m1), jnp.asarray(l1), lambda v: jnp.exp(.3 * v), d=1, force_shape=True)
        mon.close('gaussian-expectation', np.ravel(got), np.exp(.3 * m1 + .045 * l1 ** 2), rtol=1e-8, atol=1e-9)
        got = mon.api(gaussian_expectation, jnp.asarray(m1)[:, None], jnp.asarray(l1)[:, None, None], lambda v: v ** 3)
        mon.close('gaussian-expectation', np.ravel(got), m1 ** 3 + 3 * m1 * l1 ** 2, rtol=1e-10, atol=1e-10)


def taylor(mon, rng, tier):
    import jax
    import jax.numpy as jnp
    from mfs.one_dim.quadtures import taylor_quadrature, make_derivatives
    for rep in range(14 if tier == 'quick' else 80):
        deg = int(rng.integers(0, 6))
        co, mean = rng.normal(size=deg + 1), float(rng.normal())
        v = float(rng.uniform(.1, 2.))
        order = max(1, deg) + int(rng.integers(0, 2))
        cms = np.array(ref.gauss_moments(0., v, 10)) + np.r_[0, 0, 0, rng.normal(size=7) * .3]  # any central moments
        k = float(rng.normal())

        def f(x, a):
            return a * sum(float(c) * x ** i for i, c in enumerate(co)) + jnp.float64(0) * x

        dv = [np.polynomial.polynomial.polyval(mean, np.polynomial.polynomial.polyder(co, r)) if r <= deg else 0. for r in range(order + 1)]
        want = k * sum(dv[r] * (cms[r] if r != 0 else 1.) / math.factorial(r) for r in range(order + 1))
        mon.case(deg=deg, order=order, mean=mean, cms=cms, nontrivial=deg >= 2)
        for fn in (lambda: mon.api(taylor_quadrature, f, jnp.asarray(cms), mean, order, k),
                   lambda: jax.jit(lambda c, m, a: taylor_quadrature(f, c, m, order, a))(jnp.asarray(cms), mean, k)):
            mon.close('taylor', float(fn()), want, rtol=1e-10, atol=1e-10)
        # truncation: a lower order keeps exactly the leading terms
        for o in range(1, order):
            w = k * sum(dv[r] * (cms[r] if r != 0 else 1.) / math.factorial(r) for r in range(o + 1))
            mon.close('taylor', float(mon.api(taylor_quadrature, f, jnp.asarray(cms), mean, o, k)), w, rtol=1e-10, atol=1e-10)
        if rep < 4:
            ds = mon.api(make_derivatives, f, order)
            mon.true('taylor', len(ds) == order + 1)
            mon.close('taylor', [float(q(mean, k)) for q in ds], k * np.array(dv), rtol=1e-10, atol=1e-10)
            d2 = make_derivatives(f, 2, argnum=1)
            p0 = np.polynomial.polynomial.polyval(mean, co)
    # transcendental integrand: converges to the exact expectation
    e = float(mon.api(taylor_quadrature, jnp.exp, jnp.asarray(ref.gauss_moments(0., .2, 14)), .3, 12))
    mon.close('taylor', e, np.exp(.3 + .1), rtol=1e-6)


def rk(mon, rng, tier):
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers.quadratures import rk4_m_cov, rk4_m_cov_backward
    from rv.props.c18 import rk4
    for rep in range(20 if tier == 'quick' else 200):
        d = int(rng.integers(1, 4))
        A, B = rng.normal(size=(d, d)), rng.normal(size=(d, d))
        m, V = rng.normal(size=d), ref.spd(rng, d)
        h = float(rng.uniform(-.5, .5))
        mon.case(d=d, A=A, h=h, m=m)
        got = mon.api(rk4_m_cov, lambda x, P: (jnp.asarray(A) @ x, jnp.asarray(B) @ P), jnp.asarray(m), jnp.asarray(V), h)
        tr = lambda M: sum(np.linalg.matrix_power(M * h, k) / math.factorial(k) for k in range(5))
        mon.close('rk4-linear', got[0], tr(A) @ m, rtol=1e-12, atol=1e-12)
        mon.close('rk4-linear', got[1], tr(B) @ V, rtol=1e-12, atol=1e-12)
        # coupled nonlinear system: the two components influence each other
        odes = lambda xp: (lambda x, P: (xp.sin(A @ x) + P @ x, A @ P + P @ A.T + xp.outer(x, x)))
        g = mon.api(rk4_m_cov, odes(jnp), jnp.asarray(m), jnp.asarray(V), h)
        w = rk4(odes(np), m, V, h)
        mon.close('rk4', g[0], w[0], rtol=1e-11, atol=1e-11)
        mon.close('rk4', g[1], w[1], rtol=1e-11, atol=1e-11)
        mf, Vf = rng.normal(size=d), ref.spd(rng, d)
        ob = lambda xp: (lambda x, P, a, C: (xp.sin(A @ x) + C @ (x - a), A @ P + P @ A.T - C + xp.outer(a, x)))
        g = mon.api(rk4_m_cov_backward, ob(jnp), jnp.asarray(m), jnp.asarray(V), jnp.asarray(mf), jnp.asarray(Vf), h)
        w = rk4(lambda x, P: ob(np)(x, P, mf, Vf), m, V, h)
        mon.close('rk4-backward', g[0], w[0], rtol=1e-11, atol=1e-11)
        mon.close('rk4-backward', g[1], w[1], rtol=1e-11, atol=1e-11)
