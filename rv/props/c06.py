"""C06: independent filters agree on the true posterior as their budget grows."""
import numpy as np

from rv import ref

RULE = ('Random linear-Gaussian problems (d = 1..3), Benes--Bernoulli and double-well--Poisson problems simulated from '
        'the shipped models with random keys and parameters, random non-Gaussian priors; T = 5..60.  On each record the '
        'moment filters (three representations, growing N, several conditional-moment builders), the Kalman, extended, '
        'Gauss--Hermite filters, the brute-force filter and the particle filters are all run, and their posterior means, '
        'variances, characteristic functions and log-likelihoods are compared with the exact or refined answer and with '
        'each other.  Non-trivial: T >= 2.')
ASSUMPTIONS = ['float64', 'particle comparisons use an empirical standard error over independent keys, ten standard errors',
               'moment-filter error is demanded to fall below a tolerance that the same N reaches with exact quadrature '
               'arithmetic (paper: convergence as N grows)']
MUST_RUN = ['lg1-mean', 'lg1-var', 'lg1-nell', 'lg1-converges', 'lgn-mean', 'lgn-cov', 'lgn-nell', 'lgn-converges',
            'grid-mean', 'grid-var', 'grid-cf', 'grid-nell', 'pf-mean', 'pf-nell', 'gaussian-family', 'lv-mean', 'lv-nell']


def tasks(tier):
    k = 1 if tier == 'quick' else 4
    out = []
    for mode in ('raw', 'central', 'scaled'):
        out.append((f'lg1-{mode}', lg1, {'mode': mode, 'n': 4 * k}))
    for d, N in ((2, (2, 3, 4)), (3, (2, 3))):
        for mode in ('raw', 'central', 'scaled'):
            out.append((f'lg{d}-{mode}', lgn, {'d': d, 'mode': mode, 'Ns': N, 'n': 2 * k}))
    for i in range(2 * k):
        for model in ('benes', 'well'):
            out.append((f'grid-{model}-{i}', grid, {'model': model, 'i': i + (model == 'well')}))
    out.append(('prey-predator', lv, {'n': 1 * k}))
    out.append(('gaussian', gaussian, {'n': 3 * k}))
    return out


def kf_ref(a, b, q, r, m, v, ys):
    ms, vs, n = [], [], 0.
    ns = []
    for y in ys:
        m, v = a * m + b, a * a * v + q
        s = v + r
        n += .5 * (np.log(2 * np.pi * s) + (y - m) ** 2 / s)
        k = v / s
        m, v = m + k * (y - m), v - k * v
        ms.append(m), vs.append(v), ns.append(n)
    return np.array(ms), np.array(vs), np.array(ns)


def lg1(mon, rng, tier, mode, n):
    """dX = (A X + B) dt + C dW observed in Gaussian noise: the moment filter converges to the Kalman filter."""
    import jax
    import jax.numpy as jnp
    from mfs.one_dim.filtering import moment_filter_rms, moment_filter_cms, moment_filter_scms
    from mfs.one_dim import moments as mm
    from mfs.classical_filters_smoothers.gfs import kf
    Ns = (3, 6, 9)
    A, B, C, dt = -.7, .3, .9, .5

    def make(N, builder):
        drift, disp = (lambda x: A * x + B), (lambda _: C)

        @jax.jit
        def run(ms0, mean0, scale0, ys, r):
            lik = lambda y, x: jnp.exp(-(y - x) ** 2 / 2 / r) / jnp.sqrt(2 * jnp.pi * r)
            b = builder(drift, disp, N)
            if mode == 'raw':
                o, ne = moment_filter_rms(b[0], lik, ms0, ys)
                m = o[:, 1]
                return m, o[:, 2] - m ** 2, ne
            if mode == 'central':
                o, m, ne = moment_filter_cms(b[1], b[3], lik, ms0, mean0, ys)
                return m, o[:, 2], ne
            o, m, s, ne = moment_filter_scms(b[2], b[4], lik, ms0, mean0, scale0, ys)
            return m, s ** 2 * o[:, 2], ne

        run.__name__ = f'moment_filter_{mode}'
        return run

    builders = {'tme': lambda f, g, N: mm.sde_cond_moments_tme(f, g, dt, 2),
                'tme_normal': lambda f, g, N: mm.sde_cond_moments_tme_normal(f, g, dt, 3, N),
                'euler': lambda f, g, N: mm.sde_cond_moments_euler(f, g, dt, N)}
    runs = {(N, b): make(N, builders[b]) for N, b in ((3, 'tme'), (3, 'tme_normal'), (9, 'tme_normal'), (3, 'euler'), (6, 'euler'))}
    from rv import gen
    for _ in range(n):
        T = int(rng.integers(8, 30))
        m0, v0, r = rng.normal() * .3, rng.uniform(.2, .6), rng.uniform(2., 8.)
        ys = m0 + rng.normal(size=T) * 1.2
        mon.case(nontrivial=True, mode=mode, m0=m0, v0=v0, r=r, T=T, ys=ys)
        meas = (np.array([1.]), np.array([m0]), np.array([v0]))
        for b in builders:
            if b == 'euler':
                a_, b_, q_ = 1 + A * dt, B * dt, C ** 2 * dt
            elif b == 'tme_normal':  # third-order expansions of the exact mean and variance
                z = A * dt
                a_, b_ = 1 + z + z * z / 2 + z ** 3 / 6, B * dt * (1 + z / 2 + z * z / 6)
                q_ = C ** 2 * dt * (1 + z + 2 * z * z / 3)
            else:
                a_, b_, q_ = 1 + A * dt + (A * dt) ** 2 / 2, B * dt * (1 + A * dt / 2), C ** 2 * dt * (1 + A * dt)
            want = kf_ref(a_, b_, q_, r, m0, v0, ys)
            # the library's own Kalman filter, with the affine term moved into the state
            off = b_ / (1 - a_)
            k = mon.api(kf, jnp.array([[a_]]), jnp.array([[q_]]), jnp.eye(1), jnp.array([[r]]), jnp.array([m0 - off]),
                        jnp.array([[v0]]), jnp.asarray(ys - off)[:, None])
            mon.close('lg1-mean', np.asarray(k[0])[:, 0] + off, want[0], 1e-9, 1e-10, msg='kf ')
            mon.close('lg1-nell', np.asarray(k[2]), want[2], 1e-9, 1e-9, msg='kf ')
            errs = {}
            for N in Ns:
                if (N, b) not in runs:
                    continue
                init = gen.represent(meas, 2 * N, mode)
                m, v, ne = (np.asarray(u) for u in mon.api(runs[N, b], init[0], init[1], init[2], ys, r))
                e = [np.max(np.abs(m - want[0])) / np.sqrt(np.min(want[1])), np.max(np.abs(v / want[1] - 1)),
                     abs(ne - want[2][-1]) / max(1., abs(want[2][-1]))]
                errs[N] = max(e)
                if N == 6:
                    tol = 2e-3
                elif N == 9:
                    tol = 1e-3
                else:
                    tol = .3
                mon.close('lg1-mean', m / np.sqrt(want[1]), want[0] / np.sqrt(want[1]), 0., tol, msg=f'{b} N={N} ')
                mon.close('lg1-var', v / want[1], np.ones(T), 0., 3 * tol, msg=f'{b} N={N} ')
                mon.close('lg1-nell', ne, want[2][-1], tol, tol, msg=f'{b} N={N} ')
            if len(errs) > 1:
                mon.true('lg1-converges', not errs[max(errs)] > .5 * errs[3] + 1e-6, f'{b}: error does not decrease with N: {errs}')



def lgn(mon, rng, tier, d, mode, Ns, n):
    """Linear SDE in d dimensions through the library's own conditional moments; Kalman as the limit."""
    import jax
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers.gfs import kf
    from mfs.multi_dims.filtering import moment_filter_nd_rms, moment_filter_nd_cms, moment_filter_nd_scms
    from mfs.multi_dims.moments import sde_cond_moments_euler_maruyama, sde_cond_moments_tme, sde_cond_moments_tme_normal
    from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices, gram_and_hankel_indices_graded_lexico
    dt = .35
    for i in range(n):
        T = int(rng.integers(5, 12))
        A = rng.normal(size=(d, d)) * .3 - 1.1 * np.eye(d)
        Bm = np.tril(rng.normal(size=(d, d)) * .2) + .7 * np.eye(d)
        m0, P0 = rng.normal(size=d) * .3, ref.spd(rng, d, .2, .5)
        H, R = rng.normal(size=(2, d)), ref.spd(rng, 2, 4., 9.)
        H /= np.linalg.norm(H, axis=1, keepdims=True)
        Ri, cst = np.linalg.inv(R), 1 / np.sqrt(np.linalg.det(2 * np.pi * R))
        ys = (rng.normal(size=(T, 2)) * 1.5)
        mon.case(mode=mode, d=d, A=A, B=Bm, H=H, R=R, m0=m0, ys=ys)
        which = ['euler', 'tme_normal', 'tme'][i % 3]
        drift, disp = (lambda x: jnp.asarray(A) @ x), (lambda x: jnp.asarray(Bm))
        F, Q = np.eye(d) + A * dt, Bm @ Bm.T * dt
        if which != 'euler':  # order-2 expansion of mean and covariance
            F = F + A @ A * dt ** 2 / 2
            Q = Q + (A @ Bm @ Bm.T + Bm @ Bm.T @ A.T) * dt ** 2 / 2
        if which == 'tme':
            Q = None  # the expansion of high moments is not that of a Gaussian; compare with the normal closure loosely
        lik = lambda y, x: cst * jnp.exp(-.5 * (y - H @ x) @ Ri @ (y - H @ x))
        Qk = Q if Q is not None else Bm @ Bm.T * dt + (A @ Bm @ Bm.T + Bm @ Bm.T @ A.T) * dt ** 2 / 2
        k = mon.api(kf, jnp.asarray(F), jnp.asarray(Qk), jnp.asarray(H), jnp.asarray(R), jnp.asarray(m0), jnp.asarray(P0), jnp.asarray(ys))
        km, kv, kn = (np.asarray(u) for u in k)
        errs = {}
        for N in Ns:
            mi = generate_graded_lexico_multi_indices(d, 2 * N - 1)
            if which == 'tme' and (N > 3 or d == 3 and N > 2):
                continue
            order = (mi, gram_and_hankel_indices_graded_lexico(N, d))
            if which == 'euler':
                b, sig = sde_cond_moments_euler_maruyama(drift, disp, dt, mi), 'index'
            elif which == 'tme_normal':
                b, sig = sde_cond_moments_tme_normal(drift, disp, dt, 2, mi), 'index'
            else:
                b, sig = sde_cond_moments_tme(drift, disp, dt, 2), 'multi-index'
            ms, mean, scale = ref.gaussian_nd_moments(m0, P0, d, N, mode)

            @jax.jit
            def run(ms, mean, scale, ys):
                if mode == 'raw':
                    return moment_filter_nd_rms((b[0], sig), lik, ys, order, ms)
                if mode == 'central':
                    return moment_filter_nd_cms((b[1], sig), b[3], lik, ys, order, ms, mean)
                return moment_filter_nd_scms((b[2], sig), b[4], lik, ys, order, ms, mean, scale)

            run.__name__ = f'moment_filter_nd_{mode}'
            o = [np.asarray(u) for u in mon.api(run, ms, mean, scale, ys)]
            pos = {tuple(m): i for i, m in enumerate(np.asarray(mi))}
            e = np.eye(d, dtype=int)
            first = o[0][:, [pos[tuple(e[i])] for i in range(d)]]
            second = np.stack([np.stack([o[0][:, pos[tuple(e[i] + e[j])]] for j in range(d)], -1) for i in range(d)], -2)
            if mode == 'raw':
                mean_, cov_ = first, second - first[:, :, None] * first[:, None, :]
            elif mode == 'central':
                mean_, cov_ = o[1], second
            else:
                mean_, cov_ = o[1], second * o[2][:, :, None] * o[2][:, None, :]
            sd = np.sqrt(np.diagonal(kv, axis1=1, axis2=2))
            tol = {2: .8, 3: .4, 4: .2}[N] * (2 if which == 'tme' else 1)
            zm = (mean_ - km) / sd
            zc = (cov_ - kv) / (sd[:, :, None] * sd[:, None, :])
            errs[N] = max(np.max(np.abs(zm)), np.max(np.abs(zc)))
            mon.close('lgn-mean', zm, np.zeros_like(zm), 0., tol, msg=f'{which} N={N} ')
            mon.close('lgn-cov', zc, np.zeros_like(zc), 0., 2 * tol, msg=f'{which} N={N} ')
            mon.close('lgn-nell', o[-1], kn[-1], tol / 5, tol, msg=f'{which} N={N} ')
        if len(errs) >= 2:
            lo, hi = min(errs), max(errs)
            mon.true('lgn-converges', not errs[hi] > .9 * errs[lo] + .01, f'{which}: error does not decrease with N: {errs}')


def grid_reference(f, g, pmf, ws, mus, vs, ys, dt, xs, tr_m, tr_v):
    """Chapman--Kolmogorov on a fine grid with a Gaussian one-step transition, in NumPy."""
    p = np.sum(ws * np.exp(-(xs[:, None] - mus) ** 2 / 2 / vs) / np.sqrt(2 * np.pi * vs), axis=1)
    m, v = tr_m(xs), tr_v(xs)
    K = np.exp(-(xs[:, None] - m[None]) ** 2 / 2 / v[None]) / np.sqrt(2 * np.pi * v[None])
    h = xs[1] - xs[0]
    out, nell, nells = [], 0., []
    for y in ys:
        p = K @ p * h
        q = p * pmf(y, xs)
        z = np.sum(q) * h
        nell -= np.log(z)
        p = q / z
        out.append(p), nells.append(nell)
    return np.array(out), np.array(nells)


def grid(mon, rng, tier, model, i):
    """Nonlinear, non-Gaussian models: moment filters of growing order, grid filter, particles."""
    import jax
    import jax.numpy as jnp
    from mfs.one_dim.filtering import moment_filter_cms, moment_filter_scms, moment_filter_rms
    from mfs.one_dim.moments import sde_cond_moments_tme_normal, sde_cond_moments_tme, characteristic_fn, characteristic_from_pdf
    from mfs.one_dim import ss_models
    from mfs.classical_filters_smoothers.brute_force import brute_force_filter
    from mfs.classical_filters_smoothers.smc import bootstrap_filter
    from mfs.classical_filters_smoothers import resampling
    from mfs.utils import GaussianSum1D
    N = 9
    T = int(rng.integers(25, 60))
    key = jax.random.PRNGKey(int(rng.integers(2 ** 31)))
    k0, k1, k2, k3 = jax.random.split(key, 4)
    if model == 'benes':
        dt, _, _, ic, drift, disp, logistic, pmf, sim = mon.api(ss_models.benes_bernoulli, N)
        xs = sim(ic.sampler(k0, 1)[0], k1)[:T]
        ys = jax.random.bernoulli(k2, logistic(xs)).astype(float)
    else:
        p1, p2 = rng.uniform(.5, 2.), rng.uniform(.8, 2.5)
        dt, _, _, ic, drift_, disp, em, pmf_, sim = mon.api(ss_models.well_poisson, p1, N)
        drift, pmf = (lambda x: drift_(x, p1)), (lambda y, x: pmf_(y, x, p2))
        xs = sim(ic.sampler(k0, 1)[0], k1)[:T]
        ys = jax.random.poisson(k2, em(xs, p2)).astype(float)
    if rng.random() < .5:  # another initial law
        ws = rng.dirichlet(np.ones(2) * 3)
        ic = GaussianSum1D.new(jnp.asarray(rng.uniform(-.6, .6, 2)), jnp.asarray(rng.uniform(.03, .15, 2)), jnp.asarray(ws), N=N)
    ysn = np.asarray(ys)
    mon.case(model=model, T=T, N=N, ys=ysn, mean=np.asarray(ic.mean), var=np.asarray(ic.variance))
    zs = np.linspace(-2., 2., 41)

    # the grid solution of the library and an independent one (normal closure of the expansion, order 3)
    gx = np.linspace(-6., 6., 1201)
    bf = jax.jit(lambda y: brute_force_filter(drift, disp, pmf, ic.pdf(jnp.asarray(gx)), jnp.asarray(gx), y, dt,
                                              integration_steps=1, pred_method='chapman-tme-3'))
    bf.__name__ = 'brute_force_filter'
    ps = np.asarray(mon.api(bf, ys))
    gmean = np.trapz(ps * gx, gx, axis=1)
    gvar = np.trapz(ps * gx ** 2, gx, axis=1) - gmean ** 2
    gcf = np.trapz(ps[:, None, :] * np.exp(1j * zs[:, None] * gx), gx, axis=-1)
    lib_cf = np.asarray(jax.jit(jax.vmap(jax.vmap(characteristic_from_pdf, (0, None, None)), (None, 0, None)))(
        jnp.asarray(zs), jnp.asarray(ps), jnp.asarray(gx)))
    mon.close('grid-cf', lib_cf, gcf, 0., 1e-6, msg='characteristic_from_pdf ')
    mv = jax.jit(sde_cond_moments_tme_normal(drift, disp, dt, 3, 2)[4])
    mc, vc = (np.asarray(u) for u in mv(jnp.asarray(gx)))
    pv = jax.jit(jax.vmap(pmf, (None, 0)))
    ps2, nell2 = grid_reference(None, None, lambda y, x: np.asarray(pv(y, jnp.asarray(x))), np.asarray(ic.weights), np.asarray(ic.means),
                                np.asarray(ic.variances), ysn, dt, gx, lambda x: mc, lambda x: vc)
    mon.close('grid-mean', gmean, np.trapz(ps2 * gx, gx, axis=1), 0., 1e-6, msg='grid filter vs independent grid ')

    res = {}
    modes = ('raw', 'central', 'scaled')
    for mode in modes:
        for closure in ('tme_normal', 'tme'):
            if closure == 'tme' and mode != modes[i % 3]:
                continue
            Nm = N if closure == 'tme_normal' else 5
            def cut(v):
                return v[:2 * Nm]
            b = sde_cond_moments_tme_normal(drift, disp, dt, 3, Nm) if closure == 'tme_normal' else sde_cond_moments_tme(drift, disp, dt, 3)
            if mode == 'raw':
                fl = jax.jit(lambda y: moment_filter_rms(b[0], pmf, cut(ic.rms), y))
                fl.__name__ = 'moment_filter_rms'
                o, ne = mon.api(fl, ys)
                m, v = o[:, 1], o[:, 2] - o[:, 1] ** 2
                cf = jax.vmap(jax.vmap(characteristic_fn, (0, None)), (None, 0))(zs, o)
            elif mode == 'central':
                fl = jax.jit(lambda y: moment_filter_cms(b[1], b[3], pmf, cut(ic.cms), ic.mean, y))
                fl.__name__ = 'moment_filter_cms'
                o, m, ne = mon.api(fl, ys)
                v = o[:, 2]
                cf = jax.vmap(jax.vmap(characteristic_fn, (0, None, None)), (None, 0, 0))(zs, o, m)
            else:
                fl = jax.jit(lambda y: moment_filter_scms(b[2], b[4], pmf, cut(ic.scms), ic.mean, jnp.sqrt(ic.variance), y))
                fl.__name__ = 'moment_filter_scms'
                o, m, s, ne = mon.api(fl, ys)
                v = o[:, 2] * s ** 2
                cf = jax.vmap(jax.vmap(characteristic_fn, (0, None, None, None)), (None, 0, 0, 0))(zs, o, m, s)
            m, v, ne, cf = (np.asarray(u) for u in (m, v, ne, cf))
            res[mode, closure] = m, v, ne
            t = {'tme_normal': .06, 'tme': .5}[closure]
            sd = np.sqrt(gvar)
            mon.close('grid-mean', m / sd, gmean / sd, 0., t, msg=f'{mode} {closure} ')
            mon.close('grid-var', v / gvar, np.ones(T), 0., 3 * t, msg=f'{mode} {closure} ')
            mon.close('grid-cf', cf, gcf, 0., 2 * t, msg=f'{mode} {closure} ')
            mon.close('grid-nell', ne, nell2[-1], 0., t, msg=f'{mode} {closure} ')

    # particles, four independent keys per resampler
    n = 4000

    def trans(x, k):
        m, v = mv(x)
        return m + jnp.sqrt(v) * jax.random.normal(k, x.shape)

    for rname in (('systematic', 'stratified', 'multinomial')[i % 3],):
        pf = jax.jit(jax.vmap(lambda k, y: bootstrap_filter(trans, jax.vmap(pmf, (None, 0)), y, ic.sampler, k, n, getattr(resampling, rname)), (0, None)))
        pf.__name__ = 'bootstrap_filter'
        keys = jax.random.split(jax.random.fold_in(k3, len(rname)), 8)
        sm, ne = mon.api(pf, keys, ys)
        pm = np.asarray(sm).mean(axis=2)  # (8, T)
        se = np.maximum(pm.std(axis=0, ddof=1), np.sqrt(gvar / n)) / np.sqrt(8)
        mon.close('pf-mean', pm.mean(axis=0) / se, gmean / se, 0., 10., msg=f'{rname} ')
        ne = np.asarray(ne)
        ne = ne if ne.ndim == 1 else ne[:, -1]
        se = max(ne.std(ddof=1), 1e-3) / np.sqrt(8)
        mon.close('pf-nell', ne.mean(), nell2[-1], 0., 10 * se, msg=f'{rname} ')


def lv(mon, rng, tier, n):
    """Prey--predator: multidimensional moment filters of two orders against particles."""
    import jax
    import jax.numpy as jnp
    from mfs.multi_dims.filtering import moment_filter_nd_cms, moment_filter_nd_scms
    from mfs.multi_dims.moments import sde_cond_moments_euler_maruyama
    from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices, gram_and_hankel_indices_graded_lexico
    from mfs.multi_dims.ss_models import prey_predator
    from mfs.classical_filters_smoothers.smc import bootstrap_filter
    from mfs.classical_filters_smoothers.resampling import systematic
    for _ in range(n):
        N, T, sub = 3, 40, 20
        mi = generate_graded_lexico_multi_indices(2, 2 * N - 1)
        order = (mi, gram_and_hankel_indices_graded_lexico(N, 2))
        dt, _, _, gs, drift, disp, em, pmf, sim = mon.api(prey_predator, mi)
        key = jax.random.PRNGKey(int(rng.integers(2 ** 31)))
        k0, k1 = jax.random.split(key)
        x0, xs, ys = sim(k0)
        ys = ys[:T * sub:sub].astype(float)
        ddt = 5e-3
        mon.case(ys=np.asarray(ys), N=N, T=T)
        b = sde_cond_moments_euler_maruyama(drift, disp, ddt, mi)
        fc = jax.jit(lambda y: moment_filter_nd_cms((b[1], 'index'), b[3], pmf, y, order, gs.cms, gs.mean))
        sc0 = jnp.sqrt(jnp.diag(gs.cov))
        mij = jnp.asarray(np.asarray(mi))
        fs = jax.jit(lambda y: moment_filter_nd_scms((b[2], 'index'), b[4], pmf, y, order,
                                                     gs.cms / jnp.prod(sc0 ** mij, axis=1), gs.mean, sc0))
        fc.__name__, fs.__name__ = 'moment_filter_nd_cms', 'moment_filter_nd_scms'
        _, mc, nc = mon.api(fc, ys)
        _, ms, _, ns = mon.api(fs, ys)
        mon.close('lv-mean', ms, mc, 1e-6, 1e-7, msg='scaled vs central ')

        def trans(x, k):
            return x + jax.vmap(drift)(x) * ddt + .1 * x * jnp.sqrt(ddt) * jax.random.normal(k, x.shape)

        npart = 4000
        pf = jax.jit(jax.vmap(lambda k, y: bootstrap_filter(trans, jax.vmap(pmf, (None, 0)), y, gs.sampler, k, npart, systematic), (0, None)))
        pf.__name__ = 'bootstrap_filter'
        sm, ne = mon.api(pf, jax.random.split(k1, 8), ys)
        sm, ne = np.asarray(sm), np.asarray(ne)
        ne = ne if ne.ndim == 1 else ne[:, -1]
        pm = sm.mean(axis=2)
        sd = sm.std(axis=2).mean(axis=0)
        se = np.maximum(pm.std(axis=0, ddof=1), sd / np.sqrt(npart)) / np.sqrt(8)
        mon.true('lv-mean', np.all(np.abs(np.asarray(mc) - pm.mean(axis=0)) <= 10 * se + .02 * sd),
                 f'moment filter and particles differ by {np.max(np.abs(np.asarray(mc) - pm.mean(axis=0)) / (10 * se + .02 * sd)):.3g} tolerances')
        s = max(ne.std(ddof=1), 1e-3) / np.sqrt(8)
        mon.close('lv-nell', np.asarray(nc), ne.mean(), 0., 10 * s + .01)


def gaussian(mon, rng, tier, n):
    """Mildly nonlinear problem with small noise: extended, cubature, Gauss--Hermite, moment filter and grid agree."""
    import jax
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers import gfs
    from mfs.classical_filters_smoothers.quadratures import SigmaPoints
    from mfs.one_dim.filtering import moment_filter_cms
    from mfs.one_dim.moments import sde_cond_moments_tme_normal
    from rv import gen
    dt, N = .5, 6
    drift, disp = (lambda x: -x + .2 * jnp.sin(x)), (lambda x: .3)
    b = sde_cond_moments_tme_normal(drift, disp, dt, 2, N)
    import tme.base_jax as tme

    def state(x, d_):
        return tme.mean_and_cov(jnp.atleast_1d(x), d_, lambda u: -u + .2 * jnp.sin(u), lambda u: .3 * jnp.eye(1), order=2)

    def meas(x):
        return jnp.atleast_1d(x[0] + .1 * jnp.sin(x[0])), jnp.array([[.4]])

    lik = lambda y, x: jnp.exp(-(y - x - .1 * jnp.sin(x)) ** 2 / .8) / jnp.sqrt(2 * jnp.pi * .4)
    fns = {'ekf': jax.jit(lambda m, v, y: gfs.ekf(state, meas, m, v, dt, y)),
           'sgp-cub': jax.jit(lambda m, v, y: gfs.sgp_filter(state, meas, SigmaPoints.cubature(1), m, v, dt, y, const_measurement_cov=True)),
           'sgp-gh': jax.jit(lambda m, v, y: gfs.sgp_filter(state, meas, SigmaPoints.gauss_hermite(1, 7), m, v, dt, y, const_measurement_cov=True)),
           'cd_ekf': jax.jit(lambda m, v, y: gfs.cd_ekf(lambda x: -x + .2 * jnp.sin(x), lambda x: .3 * jnp.eye(1), meas, m, v, dt, y)),
           'cd_sgp': jax.jit(lambda m, v, y: gfs.cd_sgp_filter(lambda x: -x + .2 * jnp.sin(x), .3 * jnp.eye(1), meas, SigmaPoints.gauss_hermite(1, 7), m, v, dt, y, const_measurement_cov=True))}
    mf = jax.jit(lambda ms, m, y: moment_filter_cms(b[1], b[3], lik, ms, m, y))
    for _ in range(n):
        T = int(rng.integers(10, 40))
        m0, v0 = rng.normal() * .5, rng.uniform(.02, .06)
        x, ys = m0 + np.sqrt(v0) * rng.normal(), np.zeros(T)
        for t in range(T):
            x = .62 * x + .17 * rng.normal()
            ys[t] = 1.1 * x + np.sqrt(.4) * rng.normal()
        mon.case(m0=m0, v0=v0, ys=ys)
        init = gen.represent((np.array([1.]), np.array([m0]), np.array([v0])), 2 * N, 'central')
        mon.saw('moment_filter_cms')
        o, m, ne = (np.asarray(u) for u in mf(init[0], init[1], ys))
        for k, f in fns.items():
            mon.saw(k)
            gm, gv, gn = (np.asarray(u) for u in f(jnp.array([m0]), jnp.array([[v0]]), jnp.asarray(ys)[:, None]))
            sd = np.sqrt(o[:, 2])
            mon.close('gaussian-family', (gm[:, 0] - m) / sd, 0 * m, 0., .5, msg=f'{k} mean ')
            mon.close('gaussian-family', gv[:, 0, 0] / o[:, 2], 1 + 0 * m, 0., .5, msg=f'{k} variance ')
            mon.close('gaussian-family', gn[-1], ne, .01, .1, msg=f'{k} nell ')
