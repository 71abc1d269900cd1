"""C24: matrix factorisations (Lanczos, Ritz, LDL, modified Cholesky) satisfy their defining identities."""
import numpy as np

from rv import ref

RULE = ('Random symmetric matrices, n = 1..10 (positive definite, indefinite, negative, nearly singular, Hankel/moment, scales over 16 to 28 decades), '
        'random and coordinate start vectors, 1 <= m <= n Lanczos steps; eager, jit, vmap and gradients.  Oracle: the identities '
        '(orthonormality, A V = V T + residual in the last column, Krylov span, moments e^T f(A) e = Gauss quadrature of the Ritz values; L D L^T; '
        'modified Cholesky equals Cholesky on positive definite input, is a completion otherwise).  Non-trivial: n >= 2.')
ASSUMPTIONS = ['float64', 'leading principal minors of LDL inputs are nonzero (no pivoting is documented)', 'Lanczos does not break down (the Krylov space has dimension m)']
MUST_RUN = ['lanczos-orthonormal', 'lanczos-relation', 'lanczos-krylov', 'lanczos-start', 'ritz-values', 'ritz-residual', 'ritz-full', 'ldl-product', 'ldl-unit-lower', 'ldl-definite',
            'chol-equals', 'chol-completion', 'chol-lower', 'chol-gradient', 'chol-eps', 'transforms', 'ritz-moments', 'ritz-sorted', 'chol-default-eps']


def tasks(tier):
    n = 3 if tier == 'quick' else 10
    return [(f'lanczos-{k}', lan, dict(k=k)) for k in range(n)] + [(f'ldl-{k}', ldlt, dict(k=k)) for k in range(n)]


def sym(rng, n, kind):
    q = np.linalg.qr(rng.normal(size=(n, n)))[0]
    if kind == 'spd':
        lam = rng.uniform(.2, 3., n)
    elif kind == 'indefinite':
        lam = rng.normal(size=n) + np.where(rng.uniform(size=n) < .5, -.3, .3)
    elif kind == 'negative':
        lam = -rng.uniform(.2, 3., n)
    elif kind == 'wide':
        lam = 10. ** rng.uniform(-5, 0, n)
    elif kind == 'hankel':
        x = rng.normal(size=max(3 * n, 6))
        return np.array([[np.mean(x ** (i + j)) for j in range(n)] for i in range(n)])
    else:  # diagonally heavy
        return ref.spd(rng, n, .1, 1.) + np.diag(rng.uniform(0, 5, n))
    return (q * lam) @ q.T


def lan(mon, rng, tier, k):
    import jax
    import jax.numpy as jnp
    from mfs.utils import lanczos, lanczos_ritz
    for rep in range(30 if tier == 'quick' else 150):
        n = int(rng.integers(1, 11))
        m = int(rng.integers(1, n + 1)) if rep % 2 else n
        kind = ('spd', 'indefinite', 'negative', 'heavy')[rep % 4]
        sc = 10. ** (rng.uniform(-4, 4) if rep % 3 else rng.uniform(-14, 14))
        A = sym(rng, n, kind) * sc
        A = (A + A.T) / 2
        v = rng.normal(size=n)
        if rep % 3 == 0:
            v = np.eye(n)[0]
        u = v / np.linalg.norm(v)
        # reference by orthogonalised Krylov, to know the conditioning
        V = [u]
        ok = True
        for _ in range(m - 1):
            w = A @ V[-1]
            for _ in range(2):
                for x in V:
                    w = w - x * (x @ w)
            if np.linalg.norm(w) < 1e-3 * sc:
                ok = False
                break
            V.append(w / np.linalg.norm(w))
        if not ok:
            mon.skip('breakdown')
            continue
        mon.case(nontrivial=n > 1, n=n, m=m, kind=kind, sc=sc, a=float(A[0, 0]))
        V = np.array(V).T
        T = V.T @ A @ V
        vs, al, be = (np.asarray(q) for q in mon.api(lanczos, jnp.asarray(A), jnp.asarray(u), m))
        mon.true('lanczos-start', vs.shape == (n, m) and al.shape == (m,) and be.shape == (m - 1,) and np.allclose(vs[:, 0], u, atol=1e-12), f'{vs.shape} {al.shape} {be.shape}')
        tol = 1e-6
        mon.close('lanczos-orthonormal', vs.T @ vs, np.eye(m), rtol=0, atol=tol)
        mon.close('lanczos-krylov', vs, V, rtol=0, atol=tol * 10, msg='basis of the Krylov space with positive off-diagonals')
        Tt = np.diag(al) + np.diag(be, 1) + np.diag(be, -1)
        mon.close('lanczos-relation', Tt / sc, T / sc, rtol=0, atol=1e-5)
        R = (A @ vs - vs @ Tt) / sc
        mon.close('lanczos-relation', R[:, :m - 1], np.zeros((n, m - 1)), rtol=0, atol=1e-9, msg='A V = V T outside the last column')
        cols, lam = (np.asarray(q) for q in mon.api(lanczos_ritz, jnp.asarray(A), jnp.asarray(v), m))
        ew, eu = np.linalg.eigh(T)
        mon.close('ritz-values', np.sort(lam) / sc, ew / sc, rtol=0, atol=1e-5)
        mon.true('ritz-sorted', np.all(np.diff(lam) >= -1e-12 * sc), 'Ritz values are not sorted')
        # columns are the components of v along the Ritz vectors
        mon.close('ritz-residual', cols.sum(1), v, rtol=1e-6, atol=1e-7, msg='the Ritz components add up to the start vector')
        if np.min(np.diff(ew), initial=np.inf) > 1e-2 * sc:
            W = V @ eu
            mon.close('ritz-residual', cols, W * (eu[0] * np.linalg.norm(v)), rtol=0, atol=1e-4 * np.linalg.norm(v))
        if m == n:
            mon.close('ritz-full', (A @ cols) / sc, cols * lam / sc, rtol=0, atol=1e-4 * np.linalg.norm(v), msg='A x = lambda x')
        nv = float(v @ v)
        for p in range(2 * m):  # Gauss quadrature: v^T A^p v for p < 2m
            want = v @ np.linalg.matrix_power(A / sc, p) @ v
            mon.close('ritz-moments', np.sum((cols * cols).sum(0) * (lam / sc) ** p), want, rtol=0, atol=1e-5 * nv * max(1., np.linalg.norm(A / sc, 2) ** p))
        un = np.asarray(mon.api(lanczos_ritz, jnp.asarray(A), jnp.asarray(v), m, sort_eigenvalues=False)[1])
        mon.close('ritz-values', np.sort(un) / sc, np.sort(lam) / sc, rtol=0, atol=1e-9)
        if rep % 5 == 0:
            j = jax.jit(lanczos, static_argnums=2)(jnp.asarray(A), jnp.asarray(u), m)
            mon.close('transforms', np.asarray(j[1]) / sc, al / sc, rtol=0, atol=1e-6)
            b = jax.vmap(lambda a: lanczos(a, jnp.asarray(u), m)[1])(jnp.asarray([A, 2 * A]))
            mon.close('transforms', np.asarray(b)[1] / sc, 2 * al / sc, rtol=0, atol=1e-5)
    try:
        lanczos_ritz(jnp.eye(2), jnp.ones(2), 2, eigh_tridiagonal=True)
    except NotImplementedError:
        pass


def ldlt(mon, rng, tier, k):
    import jax
    import jax.numpy as jnp
    from mfs.utils import ldl, ldl_chol
    for rep in range(40 if tier == 'quick' else 200):
        n = int(rng.integers(1, 11))
        kind = ('spd', 'indefinite', 'negative', 'wide', 'hankel', 'heavy')[rep % 6]
        n = min(n, 5) if kind == 'hankel' else n
        sc = 10. ** rng.uniform(-8, 8)
        A = sym(rng, n, kind) * sc
        A = (A + A.T) / 2
        if rep % 9 == 8:
            A = np.diag(rng.normal(size=n) + .2) * sc
        # conditioning of the elimination without pivoting
        M, growth, piv = A / sc, 1., []
        W = M.copy()
        for j in range(n):
            piv.append(W[j, j])
            if abs(W[j, j]) < 1e-6:
                break
            W[j + 1:, j + 1:] -= np.outer(W[j + 1:, j], W[j, j + 1:]) / W[j, j]
            growth = max(growth, np.max(np.abs(W)), np.max(np.abs(np.linalg.norm(W[j + 1:, j]) / W[j, j]), initial=0.))
        if len(piv) < n or min(np.abs(piv)) < 1e-6:
            mon.skip('small-pivot')
            continue
        mon.case(nontrivial=n > 1, n=n, kind=kind, sc=sc, a=float(A[0, 0]))
        l, d = (np.asarray(q) for q in mon.api(ldl, jnp.asarray(A)))
        tol = 1e-12 * growth ** 3 * n
        mon.true('ldl-unit-lower', l.shape == (n, n) and d.shape == (n,) and np.all(np.triu(l, 1) == 0) and np.allclose(np.diag(l), 1., atol=1e-14), 'L is not unit lower triangular')
        mon.close('ldl-product', (l * d) @ l.T / sc, A / sc, rtol=0, atol=tol)
        mon.close('ldl-definite', d / sc, np.array(piv), rtol=0, atol=tol * 10, msg='pivots')
        mon.true('ldl-definite', np.sum(d > 0) == np.sum(np.linalg.eigvalsh(A) > 0) or min(np.abs(np.linalg.eigvalsh(A / sc))) < 1e-9, 'inertia')
        c = np.asarray(mon.api(ldl_chol, jnp.asarray(A)))
        mon.true('chol-lower', c.shape == (n, n) and np.all(np.isfinite(c)) and np.all(np.triu(c, 1) == 0) and np.all(np.diag(c) > 0), 'not a lower-triangular factor with positive diagonal', c=c)
        if np.all(np.array(piv) > 0):
            mon.close('chol-equals', c / np.sqrt(sc), np.linalg.cholesky(A / sc), rtol=0, atol=1e-9 * growth ** 2)
        else:
            fro = np.linalg.norm(A)
            want = (l * np.where(d > 0, np.sqrt(np.where(d > 0, d, 1.)), 1e-8 * fro))
            mon.true('chol-completion', np.linalg.eigvalsh(c @ c.T / sc).min() >= -1e-12 * np.linalg.norm(c @ c.T / sc), 'the completion is not positive semidefinite')
            # columns of positive pivots are kept, the others shrink to the regularisation
            pos = d > 0
            mon.close('chol-completion', c[:, pos] / np.sqrt(sc), (l[:, pos] * np.sqrt(d[pos])) / np.sqrt(sc), rtol=1e-8, atol=1e-10 * growth ** 2)
            mon.close('chol-default-eps', np.diag(c)[~pos], np.full((~pos).sum(), 1e-8 * fro), rtol=1e-9, atol=0)
            eps = float(10. ** rng.uniform(-6, -1)) * np.sqrt(sc)
            ce = np.asarray(mon.api(ldl_chol, jnp.asarray(A), eps))
            mon.close('chol-eps', np.diag(ce)[~pos], np.full((~pos).sum(), eps), rtol=1e-12, atol=0)
            mon.close('chol-eps', ce[:, ~pos] / eps, l[:, ~pos], rtol=1e-10, atol=1e-12)
        if rep % 4 == 0 and n <= 6:
            S = rng.normal(size=(n, n))
            S = S + S.T
            gfun = lambda t: jnp.sum(jnp.sin(ldl_chol(jnp.asarray(A / sc) + t * jnp.asarray(S), 1e-3)))
            g = float(mon.api(jax.grad(gfun), 0.))
            mon.true('chol-gradient', np.isfinite(g), f'gradient {g} on {kind} input')
            if min(np.abs(piv)) > .05:
                fd = [(float(gfun(h)) - float(gfun(-h))) / (2 * h) for h in (1e-5, 5e-6)]
                if abs(fd[0] - fd[1]) < 1e-5 * (1 + abs(fd[1])):
                    mon.close('chol-gradient', g, fd[1], rtol=1e-4, atol=1e-4 * (1 + growth ** 2))
            mon.close('transforms', np.asarray(jax.jit(ldl_chol)(jnp.asarray(A))) / np.sqrt(sc), c / np.sqrt(sc), rtol=1e-7, atol=1e-9 * growth ** 2)
            mon.close('transforms', np.asarray(jax.vmap(lambda a: ldl(a)[1])(jnp.asarray([A, 3 * A])))[1] / sc, 3 * d / sc, rtol=1e-7, atol=1e-9 * growth ** 2)
