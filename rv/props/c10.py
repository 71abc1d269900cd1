"""C10: closed-form moments of Gaussian and uniform laws are exact."""
import itertools
import math
from fractions import Fraction

import numpy as np

from rv import ref

RULE = ('Random means, (co)variances (also singular, tiny, huge, negative correlations), orders and multi-indices; NumPy and '
        'JAX inputs, plain and jit.  Oracle: exact rational arithmetic (Isserlis recursion / antiderivatives).  Non-trivial: '
        'total order >= 1.')
ASSUMPTIONS = ['float64', 'tolerance relative to the sum of absolute terms of the closed form (its rounding-error scale)']
MUST_RUN = ['central-1d', 'standard-1d', 'raw-1d', 'kan-central', 'kan-raw', 'mgf', 'uniform', 'kan-jit', 'kan-gradient', 'gradient-1d']


def tasks(tier):
    out = [('one-dim', one_dim, {}), ('uniform', uniform, {}), ('kan-gradient', kan_grad, {}), ('kan-high', kan_high, {})]
    out += [(f'kan-d{d}-{lib}', kan, dict(d=d, lib=lib)) for d in (1, 2, 3, 4) for lib in ('np', 'jax')]
    out += [(f'mgf-d{d}', mgf, dict(d=d)) for d in (1, 2, 3)]
    return out


def one_dim(mon, rng, tier):
    import jax
    import jax.numpy as jnp
    from mfs.one_dim.moments import central_moment_of_normal, raw_moment_of_standard_normal, raw_moment_of_normal
    for p in [*range(0, 41), 50, 51, 60, 69, 80]:
        mon.case(p=p, nontrivial=p > 0)
        want = 0 if p % 2 else math.factorial(p) // (2 ** (p // 2) * math.factorial(p // 2))
        mon.close('standard-1d', float(mon.api(raw_moment_of_standard_normal, p)), float(want), rtol=1e-14, atol=0 if want else 1e-300)
    for p in [*range(0, 17), 21, 24, 30, 35, 36, 45, 60, 70]:
        jr = jax.jit(lambda m, v: jnp.asarray(raw_moment_of_normal(m, v, p)))
        for rep in range((6 if p < 17 else 3) if tier == 'quick' else 40):
            v = float(10. ** rng.uniform(-3, 2)) if rep else 0.
            m = float(rng.normal() * 10. ** rng.uniform(-2, 1)) if rep % 5 else 0.
            mon.case(p=p, m=m, v=v)
            c = ref.gauss_moments(Fraction(0), Fraction(v), max(p + 1, 2))[p]
            mon.close('central-1d', float(mon.api(central_moment_of_normal, v, p)), float(c), rtol=1e-12, atol=1e-300)
            r = ref.gauss_moments(Fraction(m), Fraction(v), max(p + 1, 2))[p]
            big = ref.gauss_moments(abs(Fraction(m)), Fraction(v), max(p + 1, 2))[p]
            for name, got in (('py', mon.api(raw_moment_of_normal, m, v, p)),
                              ('jax', mon.api(raw_moment_of_normal, jnp.asarray(m), jnp.asarray(v), p)), ('jit', jr(m, v))):
                mon.close('raw-1d', float(got), float(r), rtol=1e-12, atol=1e-300, scale=float(big), msg=f'p={p} {name}')
            if p > 16:
                continue
            # derivatives: dE[X^p]/dm = p E[X^(p-1)], dE[X^p]/dv = p (p - 1) / 2 E[X^(p-2)]
            gm, gv = mon.api(jax.grad(lambda a, b: jnp.asarray(raw_moment_of_normal(a, b, p)) * 1., argnums=(0, 1)), m, v)
            gc = mon.api(jax.grad(lambda b: jnp.asarray(central_moment_of_normal(b, p)) * 1.), v)
            e = [ref.gauss_moments(Fraction(q), Fraction(v), p + 2) for q in (m, abs(m), 0)]
            for name, g, k, q in (('dm', gm, 1, 0), ('dv', gv, 2, 0), ('dv, central', gc, 2, 2)):
                f = (p if k == 1 else p * (p - 1) // 2)
                mon.close('gradient-1d', float(g), float(f * e[q][p - k]) if f else 0., rtol=1e-11, atol=1e-300, scale=float(f * e[q and 2 or 1][p - k]) if f else 0., msg=f'p={p} {name}')


def draw_cov(rng, d, rep):
    if rep % 4 == 1 and d > 1:  # singular, exactly representable
        b = rng.integers(-3, 4, size=(d, d - 1)).astype(float) / 4
        return b @ b.T
    if rep % 4 == 2:
        s = 10. ** rng.uniform(-1.5, 1., d)
        return ref.spd(rng, d, .05, 1.) * np.outer(s, s)
    if rep % 4 == 3:
        return np.diag(rng.uniform(.1, 2., d))
    return ref.spd(rng, d, .2, 2.)


def kan_scale(mean, cov, n):
    """Sum of absolute values of the terms of Kan's formula, in floats: its rounding-error scale."""
    s = int(sum(n))
    tot = 0.
    for v in itertools.product(*[range(k + 1) for k in n]):
        h = np.asarray(n) / 2 - np.asarray(v)
        c = np.prod([math.comb(int(a), b) for a, b in zip(n, v)])
        q, l = (h @ cov @ h) / 2, abs(h @ mean)
        qa = np.abs(h) @ np.abs(cov) @ np.abs(h) / 2
        la = np.abs(h) @ np.abs(mean)
        for r in range(s // 2 + 1):
            tot += c * qa ** r * la ** (s - 2 * r) / (math.factorial(r) * math.factorial(s - 2 * r))
    return tot


def kan(mon, rng, tier, d, lib):
    import jax
    import jax.numpy as jnp
    from mfs.multi_dims.moments import central_moments_mvn_kan, raw_moments_mvn_kan
    cv = (lambda a: a) if lib == 'np' else jnp.asarray
    top = {1: 10, 2: 8, 3: 7, 4: 5}[d]
    reps = (40 if lib == 'np' else 12) if tier == 'quick' else (400 if lib == 'np' else 100)
    for rep in range(reps):
        cov = draw_cov(rng, d, rep)
        cov = (cov + cov.T) / 2
        mean = rng.normal(size=d) * (0. if rep % 7 == 0 else 1.)
        fm, fc = [Fraction(float(v)) for v in mean], [[Fraction(float(v)) for v in r] for r in cov]
        for k in range(4):
            tot = int(rng.integers(0, top + 1))
            n = tuple(int(v) for v in rng.multinomial(tot, np.ones(d) / d))
            forms = [n, list(n), np.array(n)]
            arg = forms[k % 3]
            mon.case(d=d, lib=lib, mean=mean, cov=cov, n=n, nontrivial=tot > 0)
            want = float(ref.isserlis([Fraction(0)] * d, fc, n))
            sc = kan_scale(np.zeros(d), cov, n)
            mon.close('kan-central', float(mon.api(central_moments_mvn_kan, cv(cov), arg)), want, rtol=1e-12, atol=1e-300, scale=sc)
            want = float(ref.isserlis(fm, fc, n))
            sc = kan_scale(mean, cov, n)
            mon.close('kan-raw', float(mon.api(raw_moments_mvn_kan, cv(mean), cv(cov), arg)), want, rtol=1e-12, atol=1e-300, scale=sc)
            if lib == 'jax' and k == 0:
                f = jax.jit(lambda m, c: raw_moments_mvn_kan(m, c, n))
                mon.close('kan-jit', float(mon.api(f, cv(mean), cv(cov))), want, rtol=1e-12, atol=1e-300, scale=sc)


def kan_high(mon, rng, tier):
    """High total orders, where factorials and binomial products leave the range of machine integers."""
    import jax
    import jax.numpy as jnp
    from mfs.multi_dims.moments import central_moments_mvn_kan, raw_moments_mvn_kan
    for n in ((18,), (20,), (21,), (22,), (26,), (34,), (12, 10), (20, 20), (22, 18), (11, 12), (20, 3), (7, 7, 7), (12, 12, 12), (8, 6, 8), (2, 2, 2, 2, 2, 2), (1, 1, 1, 1, 1, 1, 1, 1)):
        d = len(n)
        for rep in range(2 if tier == 'quick' else 8):
            cov, mean = ref.spd(rng, d, .3, 1.2), rng.normal(size=d) * .5
            fm, fc = [Fraction(float(v)) for v in mean], [[Fraction(float(v)) for v in r] for r in cov]
            wc = float(ref.isserlis([Fraction(0)] * d, fc, n)) if rep == 0 or sum(n) < 30 else None
            wr = float(ref.isserlis(fm, fc, n))
            sc, sr = kan_scale(np.zeros(d), cov, n), kan_scale(mean, cov, n)
            for cv in (np.asarray, jnp.asarray):
                mon.case(n=n, mean=mean, cov=cov)
                if wc is not None:
                    mon.close('kan-central', float(mon.api(central_moments_mvn_kan, cv(cov), n)), wc, rtol=1e-12, atol=1e-300, scale=sc)
                mon.close('kan-raw', float(mon.api(raw_moments_mvn_kan, cv(mean), cv(cov), n)), wr, rtol=1e-12, atol=1e-300, scale=sr)


def kan_grad(mon, rng, tier):
    """d/dmean_i E X^n = n_i E X^{n - e_i}: the moments stay correct under differentiation."""
    import jax
    import jax.numpy as jnp
    from mfs.multi_dims.moments import raw_moments_mvn_kan
    for rep in range(8 if tier == 'quick' else 60):
        d = int(rng.integers(1, 4))
        cov, mean = ref.spd(rng, d, .2, 2.), rng.normal(size=d)
        n = tuple(int(v) for v in rng.multinomial(int(rng.integers(1, 6)), np.ones(d) / d))
        mon.case(d=d, n=n, mean=mean, cov=cov)
        g = np.asarray(mon.api(jax.grad(lambda m: raw_moments_mvn_kan(m, jnp.asarray(cov), n)), jnp.asarray(mean)))
        fm, fc = [Fraction(float(v)) for v in mean], [[Fraction(float(v)) for v in r] for r in cov]
        want = []
        for i in range(d):
            low = list(n)
            low[i] -= 1
            want.append(n[i] * float(ref.isserlis(fm, fc, low)) if n[i] else 0.)
        mon.close('kan-gradient', g, np.array(want), rtol=1e-9, atol=1e-9, scale=max(1., kan_scale(mean, cov, n)))


def mgf(mon, rng, tier, d):
    import jax.numpy as jnp
    from mfs.multi_dims.moments import raw_moments_mvn_mgf
    top = 4 if tier == 'quick' else 5
    for rep in range(6 if tier == 'quick' else 15):
        cov, mean = draw_cov(rng, d, rep), rng.normal(size=d)
        cov = (cov + cov.T) / 2
        fm, fc = [Fraction(float(v)) for v in mean], [[Fraction(float(v)) for v in r] for r in cov]
        n = tuple(int(v) for v in rng.multinomial(int(rng.integers(0, top + 1)), np.ones(d) / d))
        mon.case(d=d, n=n, mean=mean, cov=cov, nontrivial=sum(n) > 0)
        got = float(mon.api(raw_moments_mvn_mgf, jnp.asarray(mean), jnp.asarray(cov), n))
        mon.close('mgf', got, float(ref.isserlis(fm, fc, n)), rtol=1e-11, atol=1e-12, scale=max(1., kan_scale(mean, cov, n)))


def uniform(mon, rng, tier):
    from mfs.multi_dims.moments import moments_nd_uniform
    for rep in range(150 if tier == 'quick' else 2000):
        d = int(rng.integers(1, 9))
        a = rng.normal(size=d) * 2
        w = 10. ** rng.uniform(-2, 1, d)
        bounds = [(float(x), float(x + y)) for x, y in zip(a, w)]
        n = [int(v) for v in rng.integers(0, 6 if rep % 2 else 14, d)]
        means = None if rep % 3 == 0 else [float(v) for v in (rng.normal(size=d) if rep % 3 == 1 else a + w / 2)]
        want, sc = Fraction(1), 1.
        for (lo, hi), k, m in zip(bounds, n, means or [0.] * d):
            lo, hi = Fraction(lo) - Fraction(m), Fraction(hi) - Fraction(m)
            t = (hi ** (k + 1) - lo ** (k + 1)) / (k + 1) / (hi - lo)
            want *= t
            sc *= float((abs(hi) ** (k + 1) + abs(lo) ** (k + 1)) / (k + 1) / (hi - lo)) * (1 + 1e-3 * float(max(abs(hi), abs(lo)) / (hi - lo)))
        args = (bounds, n) if means is None else (bounds, n, means)
        if rep % 4 == 0:
            args = (np.array(bounds),) + (np.array(n),) + tuple(np.array(v) for v in args[2:])
        mon.case(bounds=bounds, n=n, means=means, nontrivial=sum(n) > 0)
        mon.close('uniform', float(mon.api(moments_nd_uniform, *args)), float(want), rtol=1e-12, atol=1e-300, scale=max(sc, abs(float(want))))
