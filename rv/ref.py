"""Independent reference models (numpy / mpmath / fractions).  Nothing here imports the code under test."""
import math
from fractions import Fraction

import mpmath as mpm
import numpy as np

EPS = 2.2e-16


# ---------------------------------------------------------------- Gauss rules from moments
def mp_gauss(ms, n):
    """n-point Gauss rule of the moment sequence ms[0..2n-1] by the Chebyshev algorithm + Jacobi matrix (mpmath)."""
    m = [mpm.mpf(v) for v in ms[:2 * n]]
    a = [m[1] / m[0]]
    b = [m[0]]
    s_prev = [mpm.mpf(0)] * (2 * n)
    s_cur = list(m)
    for k in range(1, n):
        s_new = [mpm.mpf(0)] * (2 * n)
        for l in range(k, 2 * n - k):
            s_new[l] = s_cur[l + 1] - a[k - 1] * s_cur[l] - b[k - 1] * s_prev[l]
        a.append(s_new[k + 1] / s_new[k] - s_cur[k] / s_cur[k - 1])
        b.append(s_new[k] / s_cur[k - 1])
        s_prev, s_cur = s_cur, s_new
    for v in b[1:]:
        if not v > 0:
            raise ArithmeticError('moment sequence is not positive definite')
    if n == 1:
        return [m[0]], [a[0]]
    J = mpm.matrix(n, n)
    for i in range(n):
        J[i, i] = a[i]
        if i + 1 < n:
            J[i, i + 1] = J[i + 1, i] = mpm.sqrt(b[i + 1])
    E, Q = mpm.eigsy(J)
    return [m[0] * Q[0, i] ** 2 for i in range(n)], [E[i] for i in range(n)]


def np_gauss(ms, n):
    """The same rule in double precision by Hankel--Cholesky: used to gauge the conditioning of a case."""
    i = np.arange(n)
    G, H = ms[i[:, None] + i[None, :]], ms[i[:, None] + i[None, :] + 1]
    L = np.linalg.cholesky(G)
    K = np.linalg.solve(L, np.linalg.solve(L, H).T)
    K = (K + K.T) / 2
    e, q = np.linalg.eigh(K)
    return q[0] ** 2, e


def hankel_cond(ms, n):
    """Condition number of the diagonally scaled Hankel (Gram) matrix: what a Cholesky-based rule is sensitive to."""
    i = np.arange(n)
    G = np.asarray(ms, float)[i[:, None] + i[None, :]]
    with np.errstate(all='ignore'):
        d = 1 / np.sqrt(np.diag(G))
        G = G * d[:, None] * d[None, :]
        return float(np.linalg.cond(G)) if np.all(np.isfinite(G)) else np.inf


def shift_moments(ms, c, lib=None):
    """Moments of X - c from the moments of X (any number type)."""
    return [sum(math.comb(n, j) * ms[j] * (-c) ** (n - j) for j in range(n + 1)) for n in range(len(ms))]


# ---------------------------------------------------------------- 1D models, written once over a math library
class Lib:
    pass


mp_lib = Lib()
mp_lib.exp, mp_lib.log, mp_lib.sqrt, mp_lib.tanh, mp_lib.sin, mp_lib.pi = \
    mpm.exp, mpm.log, mpm.sqrt, mpm.tanh, mpm.sin, mpm.pi
mp_lib.abs = abs
np_lib = Lib()
np_lib.exp, np_lib.log, np_lib.sqrt, np_lib.tanh, np_lib.sin, np_lib.pi, np_lib.abs = \
    np.exp, np.log, np.sqrt, np.tanh, np.sin, np.pi, np.abs


def jnp_lib():
    import jax.numpy as jnp
    l = Lib()
    l.exp, l.log, l.sqrt, l.tanh, l.sin, l.pi, l.abs = jnp.exp, jnp.log, jnp.sqrt, jnp.tanh, jnp.sin, math.pi, jnp.abs
    return l


def gauss_moments(mu, v, M):
    """[E Z^n, n < M] for Z ~ N(mu, v), any number type / array."""
    out = [mu * 0 + 1, mu]
    for n in range(2, M):
        out.append(mu * out[-1] + (n - 1) * v * out[-2])
    return out[:M]


# Transitions: name -> (f, g): conditional mean and conditional variance; 'kind' decides the noise law.
def transition(name, th, lib):
    """th = (th0, th1, th2).  Returns mean(x), var(x), moments(x, shift, M)."""
    t0, t1, t2 = th
    if name == 'ar':  # linear Gaussian
        f, g = (lambda x: t0 * x + t1), (lambda x: t2 + 0 * x)
    elif name == 'tanh':
        f, g = (lambda x: x + t0 * lib.tanh(x) + t1), (lambda x: t2 + 0 * x)
    elif name == 'state-noise':  # state dependent noise
        f, g = (lambda x: t0 * x + t1 * lib.sin(x)), (lambda x: t2 * (1 + 0.5 * lib.tanh(x) ** 2))
    elif name == 'twopoint':  # non-Gaussian, symmetric two-point noise
        f, g = (lambda x: t0 * x + t1), (lambda x: t2 + 0 * x)

        def mom(x, c, M):
            s = lib.sqrt(g(x))
            return [((f(x) - c + s) ** n + (f(x) - c - s) ** n) / 2 for n in range(M)]

        return f, g, mom
    elif name == 'skew':  # skewed two-point noise: +2s w.p. 1/5, -s/2 w.p. 4/5 (zero mean, variance s^2)
        f, g = (lambda x: t0 * x + t1), (lambda x: t2 + 0 * x)

        def mom(x, c, M):
            s = lib.sqrt(g(x))
            return [((f(x) - c + 2 * s) ** n + 4 * (f(x) - c - s / 2) ** n) / 5 for n in range(M)]

        return f, g, mom
    elif name == 'det':  # deterministic map
        f, g = (lambda x: t0 * x + t1 + t2 * lib.sin(x) / 4), (lambda x: 0 * x)

        def mom(x, c, M):
            return [(f(x) - c) ** n for n in range(M)]

        return f, g, mom
    else:
        raise KeyError(name)
    return f, g, (lambda x, c, M: gauss_moments(f(x) - c, g(x), M))


def likelihood(name, lib):
    """lik(y, x) for a scalar y and x."""
    if name == 'gauss':
        return lambda y, x: lib.exp(-(y - x) ** 2 / 2 / 0.5) / lib.sqrt(2 * lib.pi * 0.5)
    if name == 'gauss-cubic':
        return lambda y, x: lib.exp(-(y - x ** 3 / 4) ** 2 / 2) / lib.sqrt(2 * lib.pi)
    if name == 'bernoulli':
        return lambda y, x: y / (1 + lib.exp(-x)) + (1 - y) / (1 + lib.exp(x))
    if name == 'poisson3':  # P(Y = y), y in {0, 1, 2}
        def lik(y, x):
            lam = lib.log(1 + lib.exp(x))
            # y(y-1)/2 selects y = 2, y(2-y) selects 1, (1-y)(2-y)/2 selects 0
            return lib.exp(-lam) * ((1 - y) * (2 - y) / 2 + y * (2 - y) * lam + y * (y - 1) / 2 * lam ** 2 / 2)

        return lik
    if name == 'laplace':
        return lambda y, x: lib.exp(-lib.abs(y - x))
    if name == 'flat':
        return lambda y, x: 0 * x + 0 * y + lib.exp(-2 + 0 * x)
    raise KeyError(name)


def draw_ys(name, rng, T, scale=1.):
    if name == 'bernoulli':
        return rng.integers(0, 2, T).astype(float)
    if name == 'poisson3':
        return rng.integers(0, 3, T).astype(float)
    return rng.normal(size=T) * 1.5 * scale


def mp_filter(tr, lk, th, ms0, ys, dps=60):
    """Reference Bayes recursion on raw moments in high precision.  Returns per-step raw moments (mp) and increments."""
    with mpm.workdps(dps):
        th = [mpm.mpf(float(t)) for t in th]
        f, g, mom = transition(tr, th, mp_lib)
        lik = likelihood(lk, mp_lib)
        ms = [mpm.mpf(v) for v in ms0]
        M, n = len(ms), len(ms) // 2
        out, inc, dg = [], [], 0.
        for y in ys:
            y = mpm.mpf(float(y))
            w, x = mp_gauss(ms, n)
            mx = [mom(xi, mpm.mpf(0), M) for xi in x]
            ms = [sum(w[i] * mx[i][k] for i in range(n)) for k in range(M)]
            w, x = mp_gauss(ms, n)
            l = [w[i] * lik(y, x[i]) for i in range(n)]
            z = sum(l)
            ms = [sum(l[i] * x[i] ** k for i in range(n)) / z for k in range(M)]
            out.append(list(ms))
            inc.append(-mpm.log(z))
            if n > 1:
                # how close the posterior is to a point mass, relative to where it sits (digits lost to centring)
                dev = mpm.sqrt(sum(l[i] / z * (x[i] - ms[1]) ** 2 for i in range(n)))
                lo = min(l) / z
                dg = max(dg, float(max(abs(v) for v in x) / dev) if dev > 0 else float('inf'),
                         float(1 / lo) if lo > mpm.mpf(10) ** -300 else float('inf'))
        return out, inc, dg


def affine_model(f, g, mom, lik, a, b):
    """The model of a X + b when (f, g, mom, lik) is the model of X."""
    return (lambda x: a * f((x - b) / a) + b), (lambda x: a ** 2 * g((x - b) / a)), \
        (lambda x, c, M: [a ** n * v for n, v in enumerate(mom((x - b) / a, (c - b) / a, M))]), \
        (lambda y, x: lik(y, (x - b) / a))


def np_filter(mode, tr, lk, th, ms0, mean0, scale0, ys, aff=None):
    """The same recursion in double precision in a given representation; gauges attainable accuracy."""
    f, g, mom = transition(tr, th, np_lib)
    lik = likelihood(lk, np_lib)
    if aff is not None:
        f, g, mom, lik = affine_model(f, g, mom, lik, *aff)
    ms, mean, scale = np.asarray(ms0, float), mean0, scale0
    M, n = len(ms), len(ms) // 2
    k = np.arange(M)
    out, nell, cond, dg = [], 0., 1., 1.
    for y in ys:
        cond = max(cond, hankel_cond(ms, n))
        w, x = np_gauss(ms, n)
        x = x * scale + mean
        if mode != 'raw':
            mean = np.dot(w, f(x))
        if mode == 'scaled':
            scale = np.sqrt(np.dot(w, g(x)))
        ms = np.array([np.dot(w, v) for v in mom(x, mean, M)]) / scale ** k
        cond = max(cond, hankel_cond(ms, n))
        w, x = np_gauss(ms, n)
        x = x * scale + mean
        l = w * lik(y, x)
        z = l.sum()
        if mode != 'raw':
            mean = np.dot(l, x) / z
        if mode == 'scaled':
            scale = np.sqrt(np.dot(l, (x - mean) ** 2) / z)
        ms = np.array([np.dot(l, ((x - mean) / scale) ** j) for j in k]) / z
        nell -= np.log(z)
        cond = max(cond, hankel_cond(ms, n))
        if n > 1:
            mu = np.dot(l, x) / z
            with np.errstate(all='ignore'):
                dg = max(dg, np.max(np.abs(x)) / np.sqrt(np.dot(l, (x - mu) ** 2) / z), z / max(np.min(l), 1e-300))
        out.append((ms, mean, scale))
    return out, nell, cond, dg


def mp_represent(raw, mode):
    """(moments, mean, scale) of a raw mp moment sequence in a representation."""
    if mode == 'raw':
        return list(raw), mpm.mpf(0), mpm.mpf(1)
    mean = raw[1]
    c = shift_moments(raw, mean)
    if mode == 'central':
        return c, mean, mpm.mpf(1)
    s = mpm.sqrt(c[2]) if len(c) > 2 else mpm.mpf(1)
    return [c[n] / s ** n for n in range(len(c))], mean, s


def mixture_raw_moments(ws, mus, vs, M):
    """Exact-ish raw moments (mp) of a Gaussian mixture (v = 0 gives atoms)."""
    tot = [mpm.mpf(0)] * M
    for w, m, v in zip(ws, mus, vs):
        g = gauss_moments(mpm.mpf(float(m)), mpm.mpf(float(v)), M)
        tot = [t + mpm.mpf(float(w)) * x for t, x in zip(tot, g)]
    s = tot[0]
    return [t / s for t in tot]


def f64(xs):
    return np.array([float(x) for x in xs])


# ---------------------------------------------------------------- exact Gaussian moments (Isserlis, rationals)
def isserlis(mean, cov, idx):
    """E prod X_i^{n_i}, X ~ N(mean, cov), by the recursion E[X_i g] = m_i E[g] + sum_j C_ij E[d_j g]; exact types."""
    memo = {}

    def rec(n):
        if n in memo:
            return memo[n]
        i = next((k for k, v in enumerate(n) if v > 0), None)
        if i is None:
            return 1
        low = list(n)
        low[i] -= 1
        val = mean[i] * rec(tuple(low))
        for j, v in enumerate(low):
            if v > 0:
                l2 = list(low)
                l2[j] -= 1
                val += cov[i][j] * v * rec(tuple(l2))
        memo[n] = val
        return val

    return rec(tuple(int(v) for v in idx))


def fr(x):
    return Fraction(float(x))


def spd(rng, n, lo=0.2, hi=2.):
    q, _ = np.linalg.qr(rng.normal(size=(n, n)))
    a = (q * rng.uniform(lo, hi, n)) @ q.T
    return (a + a.T) / 2


def brute_multi_indices(d, upper, lower=0):
    """Graded lexicographic enumeration from the definition: sort by (|x|, x)."""
    import itertools
    allx = [x for x in itertools.product(range(upper + 1), repeat=d) if lower <= sum(x) <= upper]
    return sorted(allx, key=lambda x: (sum(x), x))


# ---------------------------------------------------------------- multidimensional models and recursion
def nd_moment_list(mean, cov, mis):
    """E prod (Z_i)^{n_i} for every multi-index, Z ~ N(mean, cov); entries may be numbers, arrays or tracers."""
    memo = {}

    def rec(n):
        if n in memo:
            return memo[n]
        i = next((k for k, v in enumerate(n) if v > 0), None)
        if i is None:
            return mean[0] * 0 + 1.
        low = list(n)
        low[i] -= 1
        val = mean[i] * rec(tuple(low))
        for j, v in enumerate(low):
            if v > 0:
                l2 = list(low)
                l2[j] -= 1
                val = val + cov[i][j] * v * rec(tuple(l2))
        memo[n] = val
        return val

    return [rec(tuple(int(v) for v in m)) for m in mis]


def transition_nd(name, th, d, lib):
    """th: dict with A (d,d), b (d,), B (d,d).  x is a list of d components.  Returns mean(x), cov(x), moments(x, c, mis)."""
    A, b, B = th['A'], th['b'], th['B']

    def lin(x):
        return [sum(A[i][j] * x[j] for j in range(d)) + b[i] for i in range(d)]

    if name == 'lin':
        f = lin
    else:
        def f(x):
            y = lin(x)
            return [y[i] + 0.3 * lib.sin(x[(i + 1) % d]) for i in range(d)]

    def scale_of(x):
        if name == 'state-noise':
            return [1 + 0.3 * lib.tanh(x[i]) for i in range(d)]
        return [1. + 0 * x[i] for i in range(d)]

    def cov(x):
        s = scale_of(x)
        return [[sum(B[i][k] * B[j][k] for k in range(d)) * s[i] * s[j] for j in range(d)] for i in range(d)]

    if name == 'twopoint':
        import itertools

        def mom(x, c, mis):
            m = f(x)
            out = [0. for _ in mis]
            pats = list(itertools.product([-1., 1.], repeat=d))
            for s in pats:
                z = [m[i] - c[i] + sum(B[i][k] * s[k] for k in range(d)) for i in range(d)]
                for q, n in enumerate(mis):
                    v = 1. + 0 * z[0]
                    for i in range(d):
                        for _ in range(int(n[i])):
                            v = v * z[i]
                    out[q] = out[q] + v / len(pats)
            return out

        return f, cov, mom

    def mom(x, c, mis):
        m = f(x)
        return nd_moment_list([m[i] - c[i] for i in range(d)], cov(x), mis)

    return f, cov, mom


def likelihood_nd(name, d, lib):
    """lik(y, x), x a list of components, y a vector (gauss) or a scalar."""
    if name == 'gauss':  # two correlated measurements
        r = [[0.6, 0.2], [0.2, 0.5]]
        det = r[0][0] * r[1][1] - r[0][1] ** 2
        ri = [[r[1][1] / det, -r[0][1] / det], [-r[0][1] / det, r[0][0] / det]]

        def lik(y, x):
            e = [y[0] - x[0], y[1] - (x[d - 1] + 0.5 * x[0])]
            q = sum(ri[i][j] * e[i] * e[j] for i in range(2) for j in range(2))
            return lib.exp(-q / 2) / (2 * lib.pi * math.sqrt(det))

        return lik
    if name == 'bernoulli':
        def lik(y, x):
            z = x[0] + 0.5 * x[d - 1]
            return y / (1 + lib.exp(-z)) + (1 - y) / (1 + lib.exp(z))

        return lik
    if name == 'partial':  # only the last component is observed, through a nonlinearity
        return lambda y, x: lib.exp(-(y - lib.sin(x[d - 1])) ** 2 / 2 / 0.4) / math.sqrt(2 * math.pi * 0.4)
    raise KeyError(name)


def draw_ys_nd(name, rng, T):
    if name == 'gauss':
        return rng.normal(size=(T, 2)) * 1.2
    if name == 'bernoulli':
        return rng.integers(0, 2, T).astype(float)
    return rng.normal(size=T)


def nd_ops(ms, mis, d, n):
    """Multiplication operators in an orthonormal polynomial basis.  mis must enumerate |m| <= 2n-1; any order."""
    pos = {tuple(int(v) for v in m): k for k, m in enumerate(mis)}
    basis = brute_multi_indices(d, n - 1)
    s = len(basis)
    G = np.array([[ms[pos[tuple(np.add(a, b))]] for b in basis] for a in basis])
    Hs = []
    for i in range(d):
        e = np.eye(d, dtype=int)[i]
        Hs.append(np.array([[ms[pos[tuple(np.add(np.add(a, b), e))]] for b in basis] for a in basis]))
    L = np.linalg.cholesky(G)
    Ks = [np.linalg.solve(L, np.linalg.solve(L, H).T) for H in Hs]
    dg = 1 / np.sqrt(np.diag(G))
    return [(K + K.T) / 2 for K in Ks], float(np.linalg.cond(G * dg[:, None] * dg[None, :]))


def nd_rule(ms, mis, d, n):
    """Product-spectral rule: E f = e0' f(K_1, ..., K_d) e0 with operators applied in coordinate order."""
    import itertools
    Ks, cond = nd_ops(ms, mis, d, n)
    es = [np.linalg.eigh(K) for K in Ks]
    s = Ks[0].shape[0]
    W, X = [], []
    for c in itertools.product(range(s), repeat=d):
        w = es[0][1][0, c[0]] * es[-1][1][0, c[-1]]
        for i in range(d - 1):
            w = w * np.dot(es[i][1][:, c[i]], es[i + 1][1][:, c[i + 1]])
        W.append(w)
        X.append([es[i][0][c[i]] for i in range(d)])
    return np.array(W), np.array(X), cond


def np_filter_nd(mode, tr, lk, th, d, n, ms0, mean0, scale0, ys):
    """Reference multidimensional recursion.  Returns list of (ms, mean, scale), nell, conditioning."""
    f, cov, mom = transition_nd(tr, th, d, np_lib)
    lik = likelihood_nd(lk, d, np_lib)
    mis = brute_multi_indices(d, 2 * n - 1)
    ms, mean, scale = np.asarray(ms0, float), np.asarray(mean0, float), np.asarray(scale0, float)
    out, nell, cond, small = [], 0., 1., np.inf
    mi = np.array(mis)
    for y in ys:
        w, x, c = nd_rule(ms, mis, d, n)
        cond = max(cond, c)
        x = x * scale + mean
        xc = [x[:, i] for i in range(d)]
        if mode != 'raw':
            mean = np.array([np.dot(w, v) for v in f(xc)])
        if mode == 'scaled':
            C = cov(xc)
            scale = np.sqrt(np.array([np.dot(w, C[i][i] + 0 * xc[0]) for i in range(d)]))
        ms = np.array([np.dot(w, v + 0 * xc[0]) for v in mom(xc, mean, mis)]) / np.prod(scale ** mi, axis=1)
        w, x, c = nd_rule(ms, mis, d, n)
        cond = max(cond, c)
        x = x * scale + mean
        xc = [x[:, i] for i in range(d)]
        l = w * lik(y, xc)
        z = l.sum()
        if not z > 0:
            raise ArithmeticError('non-positive evidence')
        small = min(small, z / np.sum(np.abs(l)))
        if mode != 'raw':
            mean = l @ x / z
        if mode == 'scaled':
            v = l @ (x - mean) ** 2 / z
            if np.any(v <= 0):
                raise ArithmeticError('non-positive variance')
            scale = np.sqrt(v)
        ms = np.array([np.dot(l, np.prod(((x - mean) / scale) ** m, axis=1)) for m in mi]) / z
        nell -= np.log(z)
        out.append((ms, mean, scale))
    return out, nell, cond, small


def gaussian_nd_moments(mean, cov, d, n, mode):
    """(moments, mean, scale) of N(mean, cov) in a representation, graded lexicographic order."""
    mis = brute_multi_indices(d, 2 * n - 1)
    mean, cov = np.asarray(mean, float), np.asarray(cov, float)
    if mode == 'raw':
        return np.array(nd_moment_list(list(mean), cov, mis), float), np.zeros(d), np.ones(d)
    c = np.array(nd_moment_list([0.] * d, cov, mis), float)
    if mode == 'central':
        return c, mean, np.ones(d)
    s = np.sqrt(np.diag(cov))
    return c / np.prod(s ** np.array(mis), axis=1), mean, s


def mixture_nd_moments(ws, mus, covs, d, n, mode):
    mis = brute_multi_indices(d, 2 * n - 1)
    mean = np.sum(np.asarray(ws)[:, None] * np.asarray(mus), axis=0)
    C = sum(w * (c + np.outer(m - mean, m - mean)) for w, m, c in zip(ws, mus, covs))
    off = np.zeros(d) if mode == 'raw' else mean
    ms = sum(w * np.array(nd_moment_list(list(m - off), c, mis), float) for w, m, c in zip(ws, mus, covs))
    if mode == 'raw':
        return ms, np.zeros(d), np.ones(d)
    if mode == 'central':
        return ms, mean, np.ones(d)
    s = np.sqrt(np.diag(C))
    return ms / np.prod(s ** np.array(mis), axis=1), mean, s
