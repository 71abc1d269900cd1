"""Reference conditional moments of SDEs by symbolic generator powers (sympy); independent of tme and of the code under test."""
import math
from functools import lru_cache

import numpy as np
import sympy as sp


@lru_cache(None)
def _syms(d):
    return sp.symbols(f'x0:{d}'), sp.symbols('dt')


def gen(phi, f, gam, xs):
    out = sum(f[i] * sp.diff(phi, xs[i]) for i in range(len(xs)))
    out += sp.Rational(1, 2) * sum(gam[i][j] * sp.diff(phi, xs[i], xs[j]) for i in range(len(xs)) for j in range(len(xs))
                                   if gam[i][j] != 0)
    return out


def models_1d():
    """name -> (jax drift, jax dispersion, sympy f, sympy b)."""
    import jax.numpy as jnp
    x = _syms(1)[0][0]
    return {
        'ou': (lambda u: -0.7 * u + 0.3, lambda u: 0.6, -sp.Rational(7, 10) * x + sp.Rational(3, 10), sp.Rational(3, 5) + 0 * x),
        'benes': (lambda u: jnp.tanh(u), lambda _: 1., sp.tanh(x), sp.Integer(1)),
        'well': (lambda u: u * (1 - 0.8 * u ** 2), lambda _: 1., x * (1 - sp.Rational(4, 5) * x ** 2), sp.Integer(1)),
        'geometric': (lambda u: 0.5 * u, lambda u: 0.4 * u, x / 2, sp.Rational(2, 5) * x),
        'sinnoise': (lambda u: jnp.sin(2 * u), lambda u: 0.5 + 0.25 * jnp.cos(u), sp.sin(2 * x), sp.Rational(1, 2) + sp.cos(x) / 4),
    }


def models_nd():
    """name -> (d, jax drift, jax dispersion, sympy f list, sympy b matrix)."""
    import jax.numpy as jnp
    x, y = _syms(2)[0]
    u, v, w = _syms(3)[0]
    R = sp.Rational
    Bl = [[R(1, 2), R(1, 5)], [0, R(2, 5)]]
    return {
        'lin2': (2, lambda z: jnp.array([-0.5 * z[0] + z[1], -z[0] - 0.3 * z[1] + 0.2]), lambda z: jnp.array([[.5, .2], [0., .4]]),
                 [-x / 2 + y, -x - R(3, 10) * y + R(1, 5)], Bl),
        'lotka': (2, lambda z: z * (z[::-1] * jnp.array([-1., 1.]) + jnp.array([1., -1.])), lambda z: jnp.diag(0.2 * z),
                  [x * (1 - y), y * (x - 1)], [[x / 5, 0], [0, y / 5]]),
        'wide': (2, lambda z: jnp.array([jnp.sin(z[1]), -z[0]]), lambda z: jnp.array([[.3, 0., .2], [.1, .4 + .1 * jnp.sin(z[0]), 0.]]),
                 [sp.sin(y), -x], [[R(3, 10), 0, R(1, 5)], [R(1, 10), R(2, 5) + sp.sin(x) / 10, 0]]),
        'degenerate': (2, lambda z: jnp.array([z[1], -jnp.sin(z[0])]), lambda z: jnp.array([[0.], [.5]]), [y, -sp.sin(x)], [[0], [R(1, 2)]]),
        'lin3': (3, lambda z: jnp.array([z[1], z[2], -z[0] - z[1]]), lambda z: jnp.diag(jnp.array([.3, .2, .5])),
                 [v, w, -u - v], [[R(3, 10), 0, 0], [0, R(1, 5), 0], [0, 0, R(1, 2)]]),
    }


def _gam(b):
    d = len(b)
    return [[sum(b[i][k] * b[j][k] for k in range(len(b[0]))) for j in range(d)] for i in range(d)]


class Ref:
    """Truncated-generator reference of one model: expectation of centred/scaled monomials and mean/covariance."""

    def __init__(self, f, b, d):
        self.d, (self.xs, self.dt) = d, _syms(d)
        self.f, self.gam = f, _gam(b)
        self.c, self.s = sp.symbols(f'c0:{d}'), sp.symbols(f's0:{d}')
        self._mom, self._mc = {}, {}

    def powers(self, phi, order):
        out = [phi]
        for _ in range(order):
            out.append(gen(out[-1], self.f, self.gam, self.xs))
        return out

    def moment_fn(self, idx, order):
        """fn(x tuple, c tuple, s tuple, dt) of E[prod ((X_i - c_i)/s_i)^n_i] expanded to `order`."""
        key = (tuple(idx), order)
        if key not in self._mom:
            phi = sp.Integer(1)
            for i, n in enumerate(idx):
                phi = phi * ((self.xs[i] - self.c[i]) / self.s[i]) ** int(n)
            e = sum(p * self.dt ** r / math.factorial(r) for r, p in enumerate(self.powers(phi, order)))
            self._mom[key] = sp.lambdify((*self.xs, *self.c, *self.s, self.dt), e, 'numpy', cse=True)
        f = self._mom[key]
        return lambda x, c, s, dt: np.asarray(f(*x, *c, *s, dt), float)

    def mean_cov_fn(self, order):
        if order not in self._mc:
            d = self.d
            A1 = [self.powers(x, order) for x in self.xs]
            A2 = {(i, j): self.powers(self.xs[i] * self.xs[j], order) for i in range(d) for j in range(i, d)}
            m = [sum(A1[i][r] * self.dt ** r / math.factorial(r) for r in range(order + 1)) for i in range(d)]
            C = []
            for i in range(d):
                row = []
                for j in range(d):
                    p = A2[(min(i, j), max(i, j))]
                    row.append(sum(self.dt ** r / math.factorial(r) * (p[r] - sum(math.comb(r, k) * A1[i][k] * A1[j][r - k] for k in range(r + 1)))
                                   for r in range(1, order + 1)))
                C.append(row)
            fm, fC = sp.lambdify((*self.xs, self.dt), m, 'numpy', cse=True), sp.lambdify((*self.xs, self.dt), C, 'numpy', cse=True)
            self._mc[order] = (fm, fC)
        fm, fC = self._mc[order]
        return (lambda x, dt: np.array(fm(*x, dt), float)), (lambda x, dt: np.array(fC(*x, dt), float))
