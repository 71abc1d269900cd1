"""C25: combinatorial and special functions agree with their mathematical definitions."""
import itertools
import math
from fractions import Fraction

import mpmath as mpm
import numpy as np

RULE = ('Factorials, binomials and gamma on all integers up to 60 and random reals in (0, 80); partial and complete Bell polynomials up to '
        'order 12 against exact rational set-partition sums (tuples, NumPy, JAX inputs, jit, gradients); probabilists\' Hermite polynomials to order 25 '
        'against exact coefficients; vectorised function lists of 1..8 functions, scalar / vector / matrix arguments.  Non-trivial: order >= 2.')
ASSUMPTIONS = ['float64', 'tolerance relative to the sum of absolute terms']
MUST_RUN = ['gamma', 'factorial', 'binom', 'bell-partial', 'bell-complete', 'bell-jit', 'bell-gradient', 'bell-inputs', 'hermite', 'hermite-orthogonal', 'hermite-gradient', 'hermite-array',
            'list', 'list-jit', 'list-grad', 'gamma-gradient']


def tasks(tier):
    return [('gamma', gam, {}), ('bell', bell, {}), ('hermite', herm, {}), ('list', lst, {})]


def gam(mon, rng, tier):
    import jax
    import jax.numpy as jnp
    from mfs.utils import binom, factorial, gamma
    for n in range(0, 60):
        mon.case(n=n, nontrivial=n > 1)
        mon.close('factorial', float(mon.api(factorial, float(n))) / math.factorial(n), 1., rtol=1e-11, atol=0)
        mon.close('factorial', np.asarray(mon.api(factorial, n)).astype(float) / math.factorial(n), 1., rtol=1e-11, atol=0, msg='int argument')
        for k in range(0, n + 1, 1 if n < 16 else 5):
            mon.close('binom', float(mon.api(binom, float(n), float(k))) / math.comb(n, k), 1., rtol=1e-11, atol=0, msg=f'({n}, {k})')
    ns = np.arange(0, 20)
    mon.close('binom', np.asarray(jax.jit(jax.vmap(lambda k: binom(19., k)))(jnp.arange(20) * 1.)), np.array([math.comb(19, k) for k in range(20)], float), rtol=1e-11, atol=1e-9)
    got = np.asarray(mon.api(factorial, jnp.asarray(ns))) / np.array([float(math.factorial(int(k))) for k in ns])
    mon.close('factorial', got, np.ones(20), rtol=1e-11, atol=0, msg='array argument')
    for _ in range(40 if tier == 'quick' else 400):  # generalised binomial coefficients
        n = float(rng.uniform(0, 25))
        k = float(rng.uniform(0, n)) if _ % 2 else float(int(rng.integers(0, int(n) + 1)))
        mon.case(n=n, k=k)
        w = float(mpm.gamma(n + 1) / mpm.gamma(k + 1) / mpm.gamma(n - k + 1))
        mon.close('binom', float(mon.api(binom, n, k)) / w, 1., rtol=1e-11, atol=0, msg=f'({n}, {k})')
        mon.close('factorial', float(mon.api(factorial, n)) / float(mpm.gamma(n + 1)), 1., rtol=1e-11, atol=0, msg=f'{n}')
    for _ in range(60 if tier == 'quick' else 600):
        x = float(rng.uniform(.05, 80.))
        mon.case(x=x)
        mon.close('gamma', float(mon.api(gamma, x)) / float(mpm.gamma(x)), 1., rtol=1e-11, atol=0)
        if x < 30:
            mon.close('gamma-gradient', float(mon.api(jax.grad(gamma), x)) / float(mpm.gamma(x)), float(mpm.digamma(x)), rtol=1e-8, atol=1e-8)


def partitions(n, k, largest=None):
    """Multisets of block sizes: k blocks, total n."""
    largest = n if largest is None else largest
    if k == 0:
        if n == 0:
            yield ()
        return
    for b in range(min(n, largest), 0, -1):
        for r in partitions(n - b, k - 1, b):
            yield (b,) + r


def bell_ref(n, k, xs):
    tot = big = Fraction(0)
    for p in partitions(n, k):
        c = math.factorial(n)
        t = Fraction(1)
        for b in set(p):
            j = p.count(b)
            c //= 1
            t *= Fraction(xs[b - 1]) ** j / (math.factorial(j) * Fraction(math.factorial(b)) ** j)
        tot += c * t
        big += abs(c * t)
    return tot, big


def bell(mon, rng, tier):
    import jax
    import jax.numpy as jnp
    from mfs.utils import complete_bell, partial_bell
    for rep in range(40 if tier == 'quick' else 200):
        n = int(rng.integers(0, 9 if rep % 4 else 13))
        xs = np.round(rng.normal(size=max(n, 1)) * (3. if rep % 5 == 0 else 1.), 6)
        if rep % 6 == 0:
            xs[:2] = 0.
        mon.case(n=n, xs=xs, nontrivial=n > 1)
        tot, big = Fraction(0), Fraction(0)
        for k in range(0, n + 1):
            w, s = bell_ref(n, k, xs)
            if k:
                tot, big = tot + w, big + s
            arg = (tuple(float(v) for v in xs), xs, jnp.asarray(xs))[(k + rep) % 3]
            if k:
                arg = arg[:n - k + 1]
            mon.close('bell-partial', float(mon.api(partial_bell, n, k, arg)), float(w), rtol=1e-12, atol=1e-12, scale=float(s), msg=f'B_{n},{k}')
        if n == 0:
            tot = big = Fraction(1)
        want = float(tot)
        g = float(mon.api(complete_bell, n, xs))
        mon.close('bell-complete', g, want, rtol=1e-12, atol=1e-12, scale=float(big), msg=f'B_{n}')
        mon.close('bell-inputs', float(mon.api(complete_bell, n, tuple(float(v) for v in xs))), want, rtol=1e-12, atol=1e-12, scale=float(big))
        if 1 <= n <= 6 and rep % 3 == 0:
            mon.close('bell-jit', float(jax.jit(complete_bell, static_argnums=0)(n, jnp.asarray(xs))), want, rtol=1e-11, atol=1e-11, scale=float(big))
            # d B_n / d x_i = C(n, i) B_{n-i}
            gr = np.asarray(mon.api(jax.grad(lambda v: complete_bell(n, v)), jnp.asarray(xs)))
            w = []
            for i in range(1, n + 1):
                b = Fraction(1) if n == i else sum(bell_ref(n - i, k, xs)[0] for k in range(1, n - i + 1))
                w.append(float(math.comb(n, i) * b))
            mon.close('bell-gradient', gr, np.array(w), rtol=1e-10, atol=1e-10, scale=float(big) + 1 + np.max(np.abs(w)))


def herm(mon, rng, tier):
    import jax
    import jax.numpy as jnp
    from mfs.utils import hermite_probabilist
    top = 16 if tier == 'quick' else 22
    for n in range(0, top + 1):
        c = [Fraction(0)] * (n + 1)
        for j in range(n // 2 + 1):
            c[n - 2 * j] = Fraction((-1) ** j * math.factorial(n), 2 ** j * math.factorial(j) * math.factorial(n - 2 * j))
        xs = np.r_[rng.normal(size=3) * 2, 0., 4.5]
        mon.case(n=n, xs=xs, nontrivial=n > 1)
        for x in xs:
            w = float(sum(ci * Fraction(float(x)) ** i for i, ci in enumerate(c)))
            s = float(sum(abs(ci) * abs(Fraction(float(x))) ** i for i, ci in enumerate(c)))
            mon.close('hermite', float(mon.api(hermite_probabilist, n, float(x))), w, rtol=1e-11, atol=1e-12, scale=s, msg=f'H_{n}({x})')
            if 1 <= n <= 9:
                dw = float(sum(i * ci * Fraction(float(x)) ** (i - 1) for i, ci in enumerate(c) if i))
                mon.close('hermite-gradient', float(mon.api(jax.grad(lambda v: hermite_probabilist(n, v)), float(x))), dw, rtol=1e-10, atol=1e-10, scale=1 + s * n)
        if n >= 1:
            got = np.asarray(mon.api(hermite_probabilist, n, jnp.asarray(xs)))
            mon.close('hermite-array', got, np.array([float(sum(ci * Fraction(float(x)) ** i for i, ci in enumerate(c))) for x in xs]), rtol=1e-10, atol=1e-10, scale=float(sum(abs(ci) * 5 ** i for i, ci in enumerate(c))))
    x, w = np.polynomial.hermite_e.hermegauss(20)
    w = w / w.sum()
    H = [np.asarray(hermite_probabilist(n, x)) + 0 * x for n in range(10)]
    for a, b in itertools.product(range(10), repeat=2):
        mon.close('hermite-orthogonal', float(w @ (H[a] * H[b])) / math.sqrt(math.factorial(a) * math.factorial(b)), float(a == b), rtol=0, atol=1e-9)


def lst(mon, rng, tier):
    import jax
    import jax.numpy as jnp
    from mfs.utils import vmap_list_of_funcs
    for rep in range(20 if tier == 'quick' else 100):
        n = int(rng.integers(1, 9))
        shape = ((), (3,), (2, 2))[rep % 3]
        cs = rng.normal(size=n)
        funcs = [(lambda c, i: (lambda x: jnp.sin(c * x) + i * x ** 2))(float(c), i) for i, c in enumerate(cs)]
        if rep % 2:
            funcs = [(lambda g: (lambda x: jnp.sum(g(x))))(g) for g in funcs]
        x = jnp.asarray(rng.normal(size=shape))
        mon.case(n=n, shape=list(shape), cs=cs, nontrivial=n > 1)
        z = vmap_list_of_funcs(funcs) if rep % 4 else vmap_list_of_funcs(tuple(funcs))
        want = np.stack([np.asarray(f(x)) for f in funcs])
        mon.close('list', np.asarray(mon.api(z, x)), want, rtol=1e-12, atol=1e-12)
        mon.close('list-jit', np.asarray(jax.jit(z)(x)), want, rtol=1e-12, atol=1e-12)
        J = np.asarray(jax.jacfwd(z)(x))
        mon.close('list-grad', J, np.stack([np.asarray(jax.jacfwd(f)(x)) for f in funcs]), rtol=1e-11, atol=1e-11)
