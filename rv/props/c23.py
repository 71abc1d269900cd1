"""C23: SDE simulation and LTI discretisation have the law of the stochastic differential equation."""
import mpmath as mpm
import numpy as np

RULE = ('Discretisation: random, nilpotent, singular, stiff and oscillating drift matrices, d = 1..6, rectangular and zero dispersions, dt over '
        'four decades; oracle: 40-digit matrix exponential and Gauss--Legendre integration of the covariance, semigroup law.  Simulation: the '
        'user-supplied transition is instrumented, every visited state is recorded, the driving noise is recovered from the trace and tested for '
        'normality and independence; linear SDEs compared with their exact joint law over many keys.  Non-trivial: d >= 2 or '
        'integration_steps >= 2.')
ASSUMPTIONS = ['float64', 'statistical oracles have a false-alarm probability below 1e-6 per run']
MUST_RUN = ['transition', 'covariance', 'semigroup', 'symmetric', 'sim-steps', 'sim-dt', 'sim-start', 'sim-rows', 'sim-noise', 'sim-independent', 'sim-diagonal',
            'sim-mean', 'sim-cov', 'sim-lag', 'sim-key', 'sim-shape', 'disc-jit']


def tasks(tier):
    out = [(f'lti-{k}', lti, dict(k=k)) for k in range(4 if tier == 'quick' else 12)]
    out += [(f'trace-{k}', trace, dict(k=k)) for k in range(4 if tier == 'quick' else 12)]
    out += [(f'law-{k}', law, dict(k=k)) for k in range(3 if tier == 'quick' else 10)]
    return out


def draw(rng, d, kind):
    A = rng.normal(size=(d, d))
    if kind == 'nilpotent':
        A = np.triu(np.ones((d, d)), 1) * rng.uniform(.5, 2)
    elif kind == 'singular':
        A = A - np.outer(A @ np.ones(d), np.ones(d)) / d
    elif kind == 'zero':
        A = np.zeros((d, d))
    elif kind == 'rotation':
        A = A - A.T
    elif kind == 'stiff':
        A = A - np.diag(10. ** rng.uniform(-1, 1.3, d))
    w = int(rng.integers(1, d + 2))
    B = rng.normal(size=(d, w))
    if rng.uniform() < .1:
        B = B * 0.
    elif rng.uniform() < .2:
        B[0] = 0.
    return A, B


def exact(A, B, dt):
    """F and Q by Gauss--Legendre integration of e^{As} B B^T e^{A^T s}, and independent of the block-matrix trick."""
    with mpm.workdps(40):
        E = lambda s: np.array((mpm.expm(mpm.matrix(A.tolist()) * s)).tolist(), object).reshape(A.shape)
        n = max(1, int(np.ceil(np.linalg.norm(A, 2) * dt)))
        h = mpm.mpf(dt) / n
        # one panel exactly, then the semigroup law for the others
        nodes, ws = np.polynomial.legendre.leggauss(24)
        BB = (B @ B.T).astype(object)
        Q = 0
        for x, w in zip(nodes, ws):
            M = E(h * (1 + mpm.mpf(float(x))) / 2)
            Q = Q + (M @ BB @ M.T) * (mpm.mpf(float(w)) * h / 2)
        F1 = E(h)
        F, Qt = F1, Q
        for _ in range(n - 1):
            Qt = F1 @ Qt @ F1.T + Q
            F = F1 @ F
        return F.astype(float), np.asarray(Qt).astype(float)


def lti(mon, rng, tier, k):
    import jax
    import jax.numpy as jnp
    from mfs.utils import discretise_lti_sde
    for rep in range(18 if tier == 'quick' else 80):
        d = int(rng.integers(1, 7))
        kind = ('generic', 'nilpotent', 'singular', 'zero', 'rotation', 'stiff')[rep % 6]
        A, B = draw(rng, d, kind)
        dt = float(10. ** rng.uniform(-3.5, .5))
        if np.linalg.norm(A, 2) * dt > 8:
            dt = 8 / np.linalg.norm(A, 2)
        mon.case(nontrivial=d > 1, d=d, kind=kind, dt=dt, w=B.shape[1], a=float(A[0, 0]))
        F, Q = (np.asarray(v) for v in mon.api(discretise_lti_sde, jnp.asarray(A), jnp.asarray(B), dt))
        Fw, Qw = exact(A, B, dt)
        amp = np.exp(2 * min(np.linalg.norm(A, 2) * dt, 8.))  # growth of the block exponential
        # JAX's expm rounds the number of squarings down: its Pade approximant is used up to twice its radius
        one = dt * max(np.abs(A).sum(0).max(), np.abs(A.T).sum(0).max() + np.abs(B @ B.T).sum(0).max())
        if one > 5.:
            amp = amp + 1e5 * np.exp(min(2 * one, 20.) - 10.)
        mon.close('transition', F, Fw, rtol=1e-12 * (1 + amp / 50), atol=1e-14)
        mon.close('covariance', Q, Qw, rtol=1e-12 * (1 + amp), atol=1e-30)
        mon.true('symmetric', np.all(np.abs(Q - Q.T) <= 1e-12 * (1 + amp) * np.abs(Q).max()), 'covariance not symmetric')
        F2, Q2 = (np.asarray(v) for v in mon.api(discretise_lti_sde, jnp.asarray(A), jnp.asarray(B), dt / 2))
        mon.close('semigroup', F2 @ F2, F, rtol=1e-11 * (1 + amp), atol=1e-14)
        mon.close('semigroup', F2 @ Q2 @ F2.T + Q2, Q, rtol=1e-11 * (1 + amp), atol=1e-30)
        # long intervals: the transition matrix needs many squarings (its covariance by the block exponential is not asked for there)
        tl = float(10. ** rng.uniform(1., 3.)) / max(np.linalg.norm(A, 2), 1e-3)
        if kind in ('zero', 'nilpotent', 'rotation', 'stiff'):
            As = A - (np.linalg.norm(A, 2) + .1) * np.eye(d) if kind == 'stiff' else A
            with mpm.workdps(40 + int(np.linalg.norm(As, 2) * tl)):
                Fl = np.array(mpm.expm(mpm.matrix(As.tolist()) * mpm.mpf(tl), method='taylor').tolist(), dtype=float).reshape(d, d)
            got = np.asarray(mon.api(discretise_lti_sde, jnp.asarray(As), jnp.asarray(B), tl)[0])
            mon.close('transition', got, Fl, rtol=0, atol=1e-8 * (10 + np.linalg.norm(As, 2) * tl) * max(1., np.abs(Fl).max()), msg=f'long interval, norm {np.linalg.norm(As, 2) * tl:.3g}')
        if rep % 3 == 0:
            Fj, Qj = jax.jit(discretise_lti_sde)(jnp.asarray(A), jnp.asarray(B), dt)
            mon.close('disc-jit', np.asarray(Fj), F, rtol=1e-11, atol=1e-14)
            mon.close('disc-jit', np.asarray(Qj), Q, rtol=1e-11 * (1 + amp), atol=1e-30)


def trace(mon, rng, tier, k):
    import jax
    import jax.numpy as jnp
    from jax.experimental import io_callback
    from scipy import stats
    from mfs.utils import simulate_sde
    pool = []
    for rep in range(8 if tier == 'quick' else 30):
        d = int(rng.integers(1, 4))
        steps, T = int(rng.choice([1, 2, 3, 10])), int(rng.choice([1, 2, 7, 40]))
        if rep % 8 == 4:
            steps, T = (1, int(rng.integers(300, 700))) if k % 2 else (int(rng.integers(65, 150)), 7)
        dt = float(10. ** rng.uniform(-3, 0))
        A = jnp.asarray(rng.normal(size=(d, d)) * .5)
        G = jnp.asarray(np.tril(rng.normal(size=(d, d))) + 1.5 * np.eye(d))
        diag = rep % 4 == 3
        if diag:
            G = jnp.diag(jnp.diag(G))

        def mc(x, t):
            m = x + t * jnp.tanh(A @ x)
            g = G * jnp.sqrt(t) * (1 + .3 * jnp.sin(x[0]))
            return m, g @ g.T

        log = []

        def rec(x, t):
            io_callback(lambda a, b: (log.append((np.array(a), float(b))), np.zeros((), np.int32))[1], jax.ShapeDtypeStruct((), jnp.int32), x, t, ordered=True)
            return mc(x, t)

        x0 = rng.normal(size=d)
        start = float(x0[0]) if d == 1 and rep % 2 else jnp.asarray(x0)
        seed = int(rng.integers(2 ** 31))
        mon.case(nontrivial=d > 1 or steps > 1, d=d, steps=steps, T=T, dt=dt, diag=diag, seed=seed)
        tr = np.asarray(mon.api(simulate_sde, rec, start, dt, T, jax.random.PRNGKey(seed), diag, steps))
        jax.effects_barrier()
        mon.saw('transition-callback', len(log))
        if not mon.true('sim-shape', tr.shape == (T, d), f'{tr.shape}') or not mon.true('sim-steps', len(log) == T * steps, f'{len(log)} transitions for T={T}, steps={steps}'):
            continue
        mon.close('sim-dt', np.array([b for _, b in log]), np.full(T * steps, dt / steps), rtol=1e-13, atol=0)
        mon.close('sim-start', log[0][0], x0, rtol=1e-14, atol=1e-14)
        path = np.array([a for a, _ in log] + [tr[-1]])
        mon.close('sim-rows', path[steps::steps], tr, rtol=1e-13, atol=1e-14)
        z = []
        for a, b in zip(path[:-1], path[1:]):
            m, c = (np.asarray(v) for v in mc(jnp.asarray(a), dt / steps))
            z.append(np.linalg.solve(np.linalg.cholesky(c), b - m))
        z = np.array(z)
        pool.append(z.ravel())
        if diag:
            o = np.asarray(mon.api(simulate_sde, mc, jnp.asarray(x0), dt, T, jax.random.PRNGKey(seed), False, steps))
            mon.close('sim-diagonal', o, tr, rtol=1e-10, atol=1e-10)
        again = np.asarray(jax.jit(lambda kk: simulate_sde(mc, jnp.asarray(x0), dt, T, kk, diag, steps))(jax.random.PRNGKey(seed)))
        mon.close('sim-key', again, tr, rtol=1e-9, atol=1e-9, msg='same key')
        other = np.asarray(mon.api(simulate_sde, mc, jnp.asarray(x0), dt, T, jax.random.PRNGKey(seed + 1), diag, steps))
        mon.true('sim-key', not np.allclose(other, tr), 'another key gives the same trajectory')
        if len(z) > 2:
            u = np.unique(np.round(z, 9))
            mon.true('sim-independent', u.size == z.size, 'noise values repeat along a trajectory')
    allz = np.concatenate(pool)
    mon.true('sim-noise', stats.kstest(allz, 'norm').pvalue > 1e-8, f'the driving noise is not standard normal: {stats.kstest(allz, "norm")}')
    for z in pool:
        if len(z) > 60:
            r = np.mean(z[1:] * z[:-1])
            mon.true('sim-independent', abs(r) < 7 / np.sqrt(len(z)), f'lag-one correlation {r} over {len(z)}')


def law(mon, rng, tier, k):
    import jax
    import jax.numpy as jnp
    from mfs.utils import discretise_lti_sde, simulate_sde
    for rep in range(3 if tier == 'quick' else 10):
        d = int(rng.integers(1, 4))
        A, B = rng.normal(size=(d, d)) * .7, rng.normal(size=(d, d)) + np.eye(d)
        dt, T, steps = float(rng.uniform(.05, .4)), 5, int(rng.integers(1, 4))
        x0 = rng.normal(size=d)
        K = 40000 if tier == 'quick' else 200000
        seed = int(rng.integers(2 ** 31))
        mon.case(nontrivial=True, d=d, dt=dt, steps=steps, seed=seed)
        F1, Q1 = exact(A, B, dt / steps)
        Fj, Qj = jnp.asarray(F1), jnp.asarray(Q1)
        mc = lambda x, t: (Fj @ x, Qj)
        tr = np.asarray(mon.api(jax.jit(jax.vmap(lambda kk: simulate_sde(mc, jnp.asarray(x0), dt, T, kk, False, steps))), jax.random.split(jax.random.PRNGKey(seed), K)))
        F, Q = exact(A, B, dt)
        m, P = x0, np.zeros((d, d))
        for t in range(T):
            m, P = F @ m, F @ P @ F.T + Q
            x = tr[:, t] - m
            s = np.sqrt(np.diag(P))
            mon.true('sim-mean', np.all(np.abs(x.mean(0)) <= 7 * s / np.sqrt(K)), f'mean off by {x.mean(0)} at step {t}')
            C = x.T @ x / K
            mon.true('sim-cov', np.all(np.abs(C - P) <= 7 * np.sqrt((np.outer(s, s) ** 2 + P ** 2) / K)), f'covariance {C} expected {P}')
            if t:
                L = x.T @ (tr[:, t - 1] - mp_) / K
                W = F @ P_
                sp = np.sqrt(np.diag(P_))
                mon.true('sim-lag', np.all(np.abs(L - W) <= 7 * np.sqrt((np.outer(s, sp) ** 2 + W ** 2) / K)), f'lagged covariance {L} expected {W}')
            mp_, P_ = m, P
