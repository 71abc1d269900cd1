"""Linear-Gaussian references by joint conditioning (no recursion), numpy longdouble-free double precision."""
import numpy as np

from rv import ref


def draw(rng, dx, dy, T, hard=0, rho=None):
    """A random linear-Gaussian model and a record.  hard: 0 generic, 1 singular process noise, 2 deterministic dynamics,
    3 badly scaled measurements, 4 singular initial covariance, 5 near-unstable/non-normal."""
    F = rng.normal(size=(dx, dx))
    F = F / np.max(np.abs(np.linalg.eigvals(F))) * (rng.uniform(.5, 1.05) if rho is None else rho)
    Sigma = ref.spd(rng, dx, .1, 1.)
    H = rng.normal(size=(dy, dx))
    Xi = ref.spd(rng, dy, .1, 1.)
    m0, v0 = rng.normal(size=dx), ref.spd(rng, dx, .3, 2.)
    if hard == 1 and dx > 1:
        g = rng.normal(size=(dx, 1))
        Sigma = g @ g.T
    elif hard == 2:
        Sigma = np.zeros((dx, dx))
    elif hard == 3:
        s = 10. ** rng.uniform(-2, 2, dy)
        H, Xi = H * s[:, None], Xi * np.outer(s, s)
    elif hard == 4:
        g = rng.normal(size=(dx, 1))
        v0 = g @ g.T
    elif hard == 5 and dx > 1:
        F = F + 1.5 * np.triu(np.ones((dx, dx)), 1)
        F = F / max(1., np.max(np.abs(np.linalg.eigvals(F))))
    x = rng.multivariate_normal(m0, v0, method='eigh')
    ys = []
    for _ in range(T):
        x = F @ x + rng.multivariate_normal(np.zeros(dx), Sigma, method='eigh')
        ys.append(H @ x + rng.multivariate_normal(np.zeros(dy), Xi))
    return dict(F=F, Sigma=Sigma, H=H, Xi=Xi, m0=m0, v0=v0), np.array(ys).reshape(T, dy)


def joint(p, T, b=None):
    """Mean (T*dx) and covariance (T*dx, T*dx) of x_1..x_T (x_0 ~ N(m0, v0), X_k = F X_{k-1} + b + q)."""
    F, S, m, P = p['F'], p['Sigma'], p['m0'], p['v0']
    dx = len(m)
    # noise-to-state map: x_k = F^k x_0 + sum_j F^{k-j} q_j
    A = np.zeros((T * dx, (T + 1) * dx))
    row = np.zeros((dx, (T + 1) * dx))
    row[:, :dx] = np.eye(dx)
    mean, ms = m, []
    D = np.zeros(((T + 1) * dx, (T + 1) * dx))
    D[:dx, :dx] = P
    for k in range(T):
        row = F @ row
        row[:, (k + 1) * dx:(k + 2) * dx] += np.eye(dx)
        A[k * dx:(k + 1) * dx] = row
        D[(k + 1) * dx:(k + 2) * dx, (k + 1) * dx:(k + 2) * dx] = S
        mean = F @ mean + (0. if b is None else b)
        ms.append(mean)
    return np.concatenate(ms), A @ D @ A.T


def posterior(p, ys, upto=None, b=None, c=None):
    """Mean/cov of the stacked path given the first `upto` measurements, and -log p(y_1:upto)."""
    T, dy = ys.shape
    k = T if upto is None else upto
    dx = len(p['m0'])
    mx, Cx = joint(p, T, b)
    Hb = np.zeros((k * dy, T * dx))
    for i in range(k):
        Hb[i * dy:(i + 1) * dy, i * dx:(i + 1) * dx] = p['H']
    S = Hb @ Cx @ Hb.T + np.kron(np.eye(k), p['Xi'])
    e = ys[:k].ravel() - Hb @ mx - (0. if c is None else np.tile(c, k))
    # equilibrate for badly scaled records
    s = 1 / np.sqrt(np.diag(S))
    L = np.linalg.cholesky(S * np.outer(s, s))
    z = np.linalg.solve(L, s * e)
    G = np.linalg.solve(L, s[:, None] * (Hb @ Cx))
    nell = .5 * z @ z + np.sum(np.log(np.diag(L))) - np.sum(np.log(s)) + .5 * k * dy * np.log(2 * np.pi)
    return mx + G.T @ z, Cx - G.T @ G, nell
