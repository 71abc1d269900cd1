"""A zoo of complete state-space problems run through every public filter (and smoother) of the library.

Each entry `sys` has
  sys.name
  sys.draw(rng, T) -> (th, init, ys): numpy pytrees
  sys.fn(th, init, ys) -> (outs, nell): outs a tuple of arrays with leading axis T; nell scalar, (T,) cumulative, or None
  sys.restart(outs, k) -> init that continues after measurement k-1 (None when the filter is not restartable)
  sys.event: public entry point exercised
JAX and the library are imported lazily.
"""
import numpy as np

from rv import gen, ref


class Sys:
    restart = None
    smooth = False
    cond = None  # conditioning of the moment problems met along the recursion (moment filters only)
    factor = 1.  # constant factor of the likelihood, fixed when the system is first run

    def __repr__(self):
        return self.name


def _one_dim(mode, n, stable, tr, lk):
    from rv.props.c02 import make_filter, draw_params
    s = Sys()
    s.name = f'1d-{mode}-N{n}-{tr}-{lk}' + ('-stable' if stable else '')
    s.event = f'moment_filter_{dict(raw="rms", central="cms", scaled="scms")[mode]}'
    fn = make_filter(mode, tr, lk, stable, jit=False)

    def draw(rng, T):
        meas = gen.measure_1d(rng, ['normal', 'mixture', 'symmetric'][int(rng.integers(3))])
        return draw_params(rng, tr), gen.represent(meas, 2 * n, mode), ref.draw_ys(lk, rng, T)

    def run(th, init, ys):
        import jax.numpy as jnp
        if s.factor != 1.:
            th = jnp.concatenate([th, jnp.asarray([1., 0., s.factor])])
        r, m, sc, nell = fn(th, init[0], init[1], init[2], ys)
        return tuple(v for v in (r, m, sc) if v is not None), nell

    def restart(outs, k):
        o = [v[k - 1] for v in outs]
        return (o[0], o[1] if mode != 'raw' else 0., o[2] if mode == 'scaled' else 1.)

    s.draw, s.fn, s.restart, s.mode, s.n, s.d = draw, run, restart, mode, n, 1
    s.cond = lambda th, init, ys: ref.np_filter(mode, tr, lk, th, *init, ys)[2]
    return s


def draw_nd_params(rng, d):
    q, _ = np.linalg.qr(rng.normal(size=(d, d)))
    A = (q * rng.uniform(.5, .95, d)) @ q.T
    return {'A': A, 'b': rng.normal(size=d) * .2, 'B': np.linalg.cholesky(ref.spd(rng, d, .15, .5))}


def nd_fn(mode, tr, lk, d, n, stable, signature='index'):
    """fn(th, ms0, mean0, scale0, ys) through the public multidimensional filters."""
    import jax
    import jax.numpy as jnp
    from mfs.multi_dims.filtering import moment_filter_nd_rms, moment_filter_nd_cms, moment_filter_nd_scms
    from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices, gram_and_hankel_indices_graded_lexico
    lib = ref.jnp_lib()
    mi = generate_graded_lexico_multi_indices(d, 2 * n - 1)
    order = (mi, gram_and_hankel_indices_graded_lexico(n, d))
    mis = ref.brute_multi_indices(d, 2 * n - 1)
    mij = jnp.asarray(np.array(mis))
    pos_base = 2 * n  # multi-index -> integer key, to serve the 'multi-index' signature with traced multi-indices
    keys = jnp.asarray(np.array([sum(v * pos_base ** i for i, v in enumerate(m)) for m in mis]))

    def fn(th, ms0, mean0, scale0, ys):
        f, cov, mom = ref.transition_nd(tr, th, d, lib)
        lik_ = ref.likelihood_nd(lk, d, lib)
        if 'units' in th:  # the same model for a X + s, coordinate by coordinate
            a, sh = th['units'], th['shift']
            f_, cov_, mom_, lik0 = f, cov, mom, lik_
            back = lambda x: [(x[i] - sh[i]) / a[i] for i in range(d)]
            f = lambda x: [a[i] * v + sh[i] for i, v in enumerate(f_(back(x)))]
            cov = lambda x: [[a[i] * a[j] * v for j, v in enumerate(r)] for i, r in enumerate(cov_(back(x)))]
            mom = lambda x, c, mm: [v * jnp.prod(a ** jnp.asarray(m)) for v, m in zip(mom_(back(x), back(c), mm), mm)]
            lik_ = lambda y, x: lik0(y, back(x))

        def lik(y, x):
            return th.get('factor', 1.) * lik_(y, [x[i] for i in range(d)])

        def select(allm, which):
            """allm (nodes, z); which: (z,) integers or (z, d) multi-indices."""
            if signature == 'index':
                return allm[:, which]
            k = jnp.sum(jnp.asarray(which) * pos_base ** jnp.arange(d), axis=-1)
            loc = jnp.argmax(keys[None, :] == k[:, None], axis=1)
            return allm[:, loc]

        def moments(x, c):
            v = mom([x[:, i] for i in range(d)], c, mis)
            return jnp.stack([u + 0 * x[:, 0] for u in v], axis=-1)

        def rms(x, which):
            return select(moments(x, jnp.zeros(d)), which)

        def cms(x, which, mean):
            return select(moments(x, mean), which)

        def scms(x, which, mean, scale):
            return select(moments(x, mean) / jnp.prod(scale ** mij, axis=1), which)

        def mean_fn(x):
            return jnp.stack([u + 0 * x[:, 0] for u in f([x[:, i] for i in range(d)])], axis=-1)

        def mean_var(x):
            C = cov([x[:, i] for i in range(d)])
            return mean_fn(x), jnp.stack([C[i][i] + 0 * x[:, 0] for i in range(d)], axis=-1)

        if mode == 'raw':
            r, nell = moment_filter_nd_rms((rms, signature), lik, ys, order, ms0, stable=stable)
            return (r,), nell
        if mode == 'central':
            r, m, nell = moment_filter_nd_cms((cms, signature), mean_fn, lik, ys, order, ms0, mean0, stable=stable)
            return (r, m), nell
        r, m, s, nell = moment_filter_nd_scms((scms, signature), mean_var, lik, ys, order, ms0, mean0, scale0,
                                              stable=stable)
        return (r, m, s), nell

    fn.__name__ = f'moment_filter_nd_{dict(raw="rms", central="cms", scaled="scms")[mode]}'
    return fn


def _nd(mode, n, d, stable, tr, lk, signature='index'):
    s = Sys()
    s.name = f'{d}d-{mode}-N{n}-{tr}-{lk}-{signature}' + ('-stable' if stable else '')
    fn = nd_fn(mode, tr, lk, d, n, stable, signature)
    s.event = fn.__name__

    def draw(rng, T):
        mean, cov = rng.normal(size=d) * .4, ref.spd(rng, d, .3, .8)
        return draw_nd_params(rng, d), ref.gaussian_nd_moments(mean, cov, d, n, mode), ref.draw_ys_nd(lk, rng, T)

    def run(th, init, ys):
        if s.factor != 1.:
            th = {**th, 'factor': s.factor}
        return fn(th, init[0], init[1], init[2], ys)

    def restart(outs, k):
        o = [v[k - 1] for v in outs]
        return (o[0], o[1] if mode != 'raw' else np.zeros(d), o[2] if mode == 'scaled' else np.ones(d))

    s.draw, s.fn, s.restart, s.mode, s.n, s.d = draw, run, restart, mode, n, d
    s.cond = lambda th, init, ys: ref.np_filter_nd(mode, tr, lk, th, d, n, *init, ys)[2]
    return s


def draw_gauss(rng, dx, dy):
    A = rng.normal(size=(dx, dx))
    A = A / max(1., np.max(np.abs(np.linalg.eigvals(A))) / .95)
    return {'F': A, 'Q': ref.spd(rng, dx, .1, .6), 'H': rng.normal(size=(dy, dx)), 'R': ref.spd(rng, dy, .2, .9)}


def _classical(kind, dx, dy, smoother=False):
    """kf / ekf / sgp (cubature, Gauss--Hermite) / continuous-discrete versions, nonlinear except kf."""
    s = Sys()
    s.name = f'{kind}-dx{dx}-dy{dy}' + ('-smoother' if smoother else '')
    s.smooth = smoother
    dt0 = 0.02 if kind.startswith('cd') else 0.1  # one explicit Runge--Kutta step per interval: keep it non-stiff

    def draw(rng, T):
        return {**draw_gauss(rng, dx, dy), 'dt': dt0}, (rng.normal(size=dx), ref.spd(rng, dx, .3, .9)), rng.normal(size=(T, dy)) * 1.5

    def run(th, init, ys):
        import jax.numpy as jnp
        from mfs.classical_filters_smoothers import gfs
        from mfs.classical_filters_smoothers.quadratures import SigmaPoints
        m0, v0 = init
        F, Q, H, R, dt = th['F'], th['Q'], th['H'], th['R'], th['dt']

        def state(x, dt_):
            return F @ x + dt_ * jnp.sin(x[::-1]), Q * dt_ * (1 + .1 * jnp.tanh(x[0]) ** 2)

        def meas(x):
            z = H @ x
            return z + .2 * jnp.sin(z), R

        def drift(x):
            return (F - jnp.eye(dx)) @ x + jnp.sin(x[::-1])

        Bm = jnp.linalg.cholesky(Q)
        sg = SigmaPoints.cubature(dx) if 'cub' in kind else SigmaPoints.gauss_hermite(dx, 3)
        if kind == 'kf':
            r = gfs.kf(F, Q, H, R, m0, v0, ys)
            back = lambda: gfs.rts(F, Q, r[0], r[1])
        elif kind == 'ekf':
            r = gfs.ekf(state, meas, m0, v0, dt, ys)
            back = lambda: gfs.eks(state, r[0], r[1], dt)
        elif kind.startswith('sgp'):
            r = gfs.sgp_filter(state, meas, sg, m0, v0, dt, ys, const_measurement_cov=True)
            back = lambda: gfs.sgp_smoother(state, sg, r[0], r[1], dt)
        elif kind == 'cdekf':
            r = gfs.cd_ekf(drift, lambda x: Bm, meas, m0, v0, dt, ys)
            back = lambda: gfs.cd_eks(drift, lambda x: Bm, r[0], r[1], dt)
        else:
            r = gfs.cd_sgp_filter(drift, Bm, meas, sg, m0, v0, dt, ys, const_measurement_cov=True)
            back = lambda: gfs.cd_sgp_smoother(drift, Bm, sg, r[0], r[1], dt)
        if smoother:
            return tuple(back()), None
        return (r[0], r[1]), r[2]

    s.event = {'kf': ('kf', 'rts'), 'ekf': ('ekf', 'eks'), 'cdekf': ('cd_ekf', 'cd_eks')}.get(
        kind, ('sgp_filter', 'sgp_smoother') if kind.startswith('sgp') else ('cd_sgp_filter', 'cd_sgp_smoother'))[
        1 if smoother else 0]
    s.draw, s.fn = draw, run
    if not smoother:
        s.restart = lambda outs, k: (outs[0][k - 1], outs[1][k - 1])
    return s


def _brute(method, steps, grid='even'):
    s = Sys()
    s.name, s.event = f'brute-{method}-{steps}-{grid}', 'brute_force_filter'
    xs = np.linspace(-6., 6., 241)
    if grid == 'uneven':  # allowed for the Chapman methods
        xs = xs + .6 * np.sin(xs * np.pi / 6)
    s.xs = xs
    dt0 = .05 if method != 'kolmogorov' else 5e-4 * steps

    def draw(rng, T):
        ws, mus, vs = gen.measure_1d(rng, 'mixture')
        vs = vs * .5 + .2
        p = np.sum(ws * np.exp(-(xs[:, None] - mus) ** 2 / 2 / vs) / np.sqrt(2 * np.pi * vs), axis=1)
        return np.array([*rng.uniform(.3, 1., 2), dt0]), (p,), rng.normal(size=T)

    def run(th, init, ys):
        import jax.numpy as jnp
        from mfs.classical_filters_smoothers.brute_force import brute_force_filter
        r = brute_force_filter(lambda x: th[0] * jnp.tanh(x), lambda x: th[1] + .1 * jnp.cos(x),
                               lambda y, x: s.factor * jnp.exp(-(y - x) ** 2), init[0], jnp.asarray(xs), ys, th[2],
                               integration_steps=steps, pred_method=method)
        return (r,), None

    s.draw, s.fn, s.restart = draw, run, (lambda outs, k: (outs[0][k - 1],))
    return s


def _particle(kind, resample, n=64):
    s = Sys()
    s.name, s.event = f'{kind}-{resample}', kind

    def draw(rng, T):
        return np.array([rng.uniform(.6, .95), rng.uniform(.3, .8)]), (int(rng.integers(2 ** 31)),), rng.normal(size=T)

    def run(th, init, ys):
        import jax
        import jax.numpy as jnp
        from mfs.classical_filters_smoothers.smc import bootstrap_filter, particle_filter
        from mfs.classical_filters_smoothers import resampling
        key = jax.random.PRNGKey(init[0])
        res = getattr(resampling, resample) if resample != 'continuous' else None
        tr = lambda x, k: th[0] * x + th[1] * jax.random.normal(k, x.shape)
        lik = lambda y, x: s.factor * jnp.exp(-(y - x) ** 2 / 2 / .5)
        ini = lambda k, m: jax.random.normal(k, (m,))
        if kind == 'bootstrap_filter':
            o, nell = bootstrap_filter(tr, lik, ys, ini, key, n, res, conti_resampling=resample == 'continuous')
            return (o,), nell
        dens = lambda a, b: jnp.exp(-(a - th[0] * b) ** 2 / 2 / th[1] ** 2) / th[1]
        return (particle_filter(lambda x, y, k: tr(x, k), lambda a, b, y: dens(a, b), dens, lik, ys, ini, key, n, res),), None

    s.draw, s.fn = draw, run
    return s


SPEC = {
    '1d': [(_one_dim, a) for a in [('raw', 2, False, 'tanh', 'bernoulli'), ('raw', 3, True, 'ar', 'gauss'),
                                   ('central', 3, False, 'state-noise', 'gauss'), ('central', 2, True, 'skew', 'poisson3'),
                                   ('scaled', 3, False, 'tanh', 'gauss'), ('scaled', 2, True, 'ar', 'bernoulli')]],
    'nd': [(_nd, a) for a in [('raw', 2, 2, False, 'lin', 'gauss', 'index'), ('central', 2, 2, False, 'sin', 'bernoulli', 'multi-index'),
                              ('scaled', 2, 2, False, 'twopoint', 'gauss', 'multi-index'), ('central', 3, 2, True, 'lin', 'partial', 'index'),
                              ('scaled', 2, 3, True, 'sin', 'bernoulli', 'index')]],
    'gauss': [(_classical, a) for a in [('kf', 3, 2), ('kf', 2, 1), ('ekf', 2, 2), ('sgp-cub', 3, 2), ('sgp-gh', 2, 1),
                                        ('cdekf', 2, 2), ('cdsgp-gh', 2, 2), ('cdsgp-cub', 3, 1)]],
    'brute': [(_brute, a) for a in [('chapman-euler', 1), ('chapman-tme-2', 2), ('kolmogorov', 3), ('chapman-euler', 2, 'uneven'), ('chapman-tme-1', 1, 'uneven')]],
    'particle': [(_particle, a) for a in [('bootstrap_filter', 'systematic'), ('bootstrap_filter', 'stratified'),
                                          ('bootstrap_filter', 'multinomial'), ('bootstrap_filter', 'continuous'),
                                          ('particle_filter', 'systematic')]],
    'smoother': [(_classical, a) for a in [('kf', 3, 2, True), ('ekf', 2, 2, True), ('sgp-cub', 3, 2, True),
                                           ('sgp-gh', 2, 1, True), ('cdekf', 2, 2, True), ('cdsgp-gh', 2, 2, True)]],
}


def keys(groups=None):
    return [(g, i) for g in SPEC if groups is None or g in groups for i in range(len(SPEC[g]))]


def name_of(g, i):
    return f'{g}-{i}-' + '-'.join(str(v) for v in SPEC[g][i][1])


def build(g, i, factor=1.):
    f, a = SPEC[g][i]
    s = f(*a)
    s.factor = factor
    return s


def to_jax(tree, dtype=None):
    import jax
    import jax.numpy as jnp

    def cv(v):
        if isinstance(v, (int, np.integer)):
            return v
        return jnp.asarray(v, dtype=dtype)

    return jax.tree_util.tree_map(cv, tree)
