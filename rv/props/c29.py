"""C29: precision and input types change results by rounding only."""
import numpy as np

from rv import gen, ref, zoo

RULE = ('Every public filter and smoother (the zoo of random problems), the quadratures, conversions, conditional moments, '
        'Gaussian sums, factorisations, resamplers, simulators and shipped models, executed in single precision (the JAX '
        'default) and compared with the same call in double precision on the same (single-precision representable) input; '
        'and the same double-precision call fed with NumPy arrays, JAX arrays, Python scalars, non-contiguous views, '
        'read-only arrays, integer and boolean measurement records.  Non-trivial: T >= 2 or at least three moments.')
ASSUMPTIONS = ['the tolerance in single precision is a multiple of the response of the double-precision call to a '
               'perturbation of its input of relative size 1e-7; cases where that response exceeds 3e-5, or where a moment problem of the recursion has a Gram '
               'matrix of condition number above 3e4 (1e5 for a single rule), are out of reach']
MUST_RUN = ['single', 'single-dtype', 'numpy-input', 'record-type', 'views', 'single-fn', 'scalar-input', 'model-single']


def tasks(tier):
    out = []
    for g, i in zoo.keys():
        if g == 'particle':
            continue
        out.append((f'zoo-{zoo.name_of(g, i)}', run_zoo, {'g': g, 'i': i, 'n': 3 if tier == 'quick' else 20}))
    for f in ('quadrature', 'convert', 'conditional', 'conditional_nd', 'gsum', 'linalg', 'series', 'particle', 'models', 'simulate', 'scalars'):
        out.append((f, globals()['fn_' + f], {'n': 8 if tier == 'quick' else 60}))
    return out


def f32able(tree):
    import jax

    def cv(v):
        if isinstance(v, (int, np.integer)):
            return v
        v = np.asarray(v)
        return v.astype(np.float32).astype(np.float64) if v.dtype.kind == 'f' else v

    return jax.tree_util.tree_map(cv, tree)


def leaves(o):
    import jax
    return [np.asarray(v) for v in jax.tree_util.tree_leaves(o)]


def perturb(tree, rng):
    import jax

    def cv(v):
        v = np.asarray(v)
        return v * (1 + 1e-7 * rng.uniform(-1, 1, v.shape)) + 1e-8 * rng.uniform(-1, 1, v.shape) if v.dtype.kind == 'f' else v

    return jax.tree_util.tree_map(cv, tree)


def compare_single(mon, rng, make, args, tag='single', dtypes=True, floor=2e-5, gain=400., exact64=None):
    """make()(*args) in single precision against double precision; args NumPy pytrees; built separately in each."""
    import jax
    import jax.numpy as jnp
    from jax.experimental import disable_x64
    args = f32able(args)
    if exact64 is None:
        fn = make()

        def exact64(a):
            return leaves(fn(*zoo.to_jax(a)))
    base = exact64(args)
    if not all(np.all(np.isfinite(b)) for b in base):
        mon.skip(tag)
        return
    sens = [np.zeros(np.shape(b)) for b in base]
    for _ in range(6):
        pert = exact64(perturb(args, rng))
        sens = [np.maximum(s, np.abs(p - b)) for s, p, b in zip(sens, pert, base)]
    scales = [np.max(np.abs(b)) if b.size else 0. for b in base]
    if any(not np.all(np.isfinite(s)) or (s.size and np.max(s) > 3e-5 * max(1., sc)) for s, sc in zip(sens, scales)):
        mon.skip(tag)
        return
    with disable_x64():
        fn = make()
        got = leaves(fn(*zoo.to_jax(jax.tree_util.tree_map(
            lambda v: np.asarray(v, np.float32) if np.asarray(v).dtype.kind == 'f' else v, args))))
    for k, (g, b, s, sc) in enumerate(zip(got, base, sens, scales)):
        if dtypes:
            mon.true('single-dtype', g.dtype in (np.float32, np.complex64, np.int32, np.uint32, np.bool_),
                     f'output {k} has dtype {g.dtype} in single precision')
        mon.close(tag, np.asarray(g, np.complex128 if g.dtype.kind == 'c' else np.float64), b, 1., floor * max(sc, 1e-3),
                  scale=gain * np.max(s) if s.size else 0., msg=f'output {k}: single vs double precision ')


def reachable(s, th, init, ys, limit=3e4):
    """Whether single precision can represent the moment problems: beyond, a Cholesky factor may fail by rounding."""
    if s.cond is None:
        return True
    try:
        with np.errstate(all='ignore'):
            c = s.cond(*f32able((th, init, ys)))
    except (np.linalg.LinAlgError, ArithmeticError, ValueError):
        return False
    return np.isfinite(c) and c < limit


def run_zoo(mon, rng, tier, g, i, n):
    import jax
    import jax.numpy as jnp
    s = zoo.build(g, i)
    T = 6
    fast = {}

    def make():
        k = jnp.result_type(float)
        if k not in fast:
            z = zoo.build(g, i)
            fast[k] = jax.jit(lambda *a: z.fn(*a))
        return fast[k]

    fn = make()

    for rep in range(n):
        th, init, ys = s.draw(rng, T)
        mon.case(system=s.name, th=th, init=init, ys=ys)
        mon.saw(s.event, 8)
        if reachable(s, th, init, ys):
            compare_single(mon, rng, make, (th, init, ys), floor=2e-5 if g != 'brute' else 1e-4, gain=600.)
        else:
            mon.skip('single-conditioning')
        # input containers, double precision
        base = leaves(fn(*zoo.to_jax((th, init, ys))))
        if not all(np.all(np.isfinite(b)) for b in base):
            mon.skip('numpy-input')
            continue
        npargs = jax.tree_util.tree_map(lambda v: v if isinstance(v, int) else np.asarray(v), (th, init, ys))
        for j, b in zip(leaves(mon.api(s.fn, *zoo.to_jax(npargs[:2]), npargs[2])), base):
            mon.close('numpy-input', j, b, 1e-9, 1e-10, msg='NumPy record ')

        def view(v):
            if isinstance(v, int):
                return v
            v = np.asarray(v, dtype=float)
            if v.ndim == 0:
                return v
            w = np.zeros((2 * v.shape[0],) + v.shape[1:])
            w[::2] = v
            out = w[::2]
            out.flags.writeable = False
            return out

        for j, b in zip(leaves(fn(*jax.tree_util.tree_map(view, npargs))), base):
            mon.close('views', j, b, 1e-9, 1e-10, msg='non-contiguous read-only input ')
        # integer valued records
        yi = np.round(ys)
        if 'bernoulli' in s.name:
            yi = (ys > .5).astype(float)
        elif 'poisson' in s.name:
            yi = np.abs(yi)
        want = leaves(fn(*zoo.to_jax((th, init, yi))))
        if not all(np.all(np.isfinite(b)) for b in want):
            mon.skip('record-type')
            continue
        types = [np.int64, np.int32, np.float32] + ([np.bool_] if set(np.unique(yi)) <= {0., 1.} and 'bernoulli' in s.name else [])
        for ty in types:
            got = leaves(jax.jit(s.fn)(*zoo.to_jax((th, init)), jnp.asarray(yi.astype(ty))))
            for j, b in zip(got, want):
                mon.close('record-type', j, b, 1e-9, 1e-10, msg=f'record as {np.dtype(ty).name} ')


def fn_quadrature(mon, rng, tier, n):
    import jax
    from mfs.one_dim.quadtures import moment_quadrature
    from mfs.multi_dims.quadratures import moment_quadrature_nd
    from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices, gram_and_hankel_indices_graded_lexico
    for rep in range(n):
        N = int(rng.integers(1, 5))
        meas = gen.measure_1d(rng, ['normal', 'mixture', 'symmetric'][rep % 3])
        mode = ['raw', 'central', 'scaled'][int(rng.integers(3))]
        ms, mean, scale = gen.represent(meas, 2 * N, mode)
        mon.case(nontrivial=N >= 2, N=N, ms=ms, mode=mode)
        for ldl in (False, True):
            if ref.hankel_cond(ms, N) > 1e5:
                mon.skip('single-conditioning')
                break
            mon.saw('moment_quadrature', 8)
            compare_single(mon, rng, lambda: lambda m, a, b: moment_quadrature(m, a, b, sort_nodes=True, ldl=ldl), (ms, mean, scale),
                           tag='single-fn', gain=2000.)
        d = int(rng.integers(1, 4))
        N = 2
        mi = generate_graded_lexico_multi_indices(d, 2 * N - 1)
        inds = gram_and_hankel_indices_graded_lexico(N, d)
        m, c = rng.normal(size=d) * .3, ref.spd(rng, d, .4, .9)
        ms, mean, scale = ref.gaussian_nd_moments(m, c, d, N, mode)
        pw = np.asarray(mi)

        def func(ms, mean, scale):  # moments and a smooth functional: independent of the order of the nodes
            import jax.numpy as jnp
            w, x = moment_quadrature_nd(ms, inds, mean, scale)
            return jnp.sum(w), jnp.einsum('i,ik->k', w, jnp.prod(x[:, None, :] ** pw, axis=-1))

        mon.saw('moment_quadrature_nd', 8)
        compare_single(mon, rng, lambda: func, (ms, mean, scale), tag='single-fn', gain=2000., floor=1e-4)


def fn_convert(mon, rng, tier, n):
    from mfs.one_dim import moments as mm
    for rep in range(n):
        M = int(rng.integers(3, 9))
        meas = gen.measure_1d(rng, ['normal', 'mixture', 'symmetric'][rep % 3])
        raw = gen.represent(meas, M, 'raw')[0]
        cen, mean, _ = gen.represent(meas, M, 'central')
        sca, mean, scale = gen.represent(meas, M, 'scaled')
        mon.case(M=M, raw=raw)
        for f, a in ((mm.raw_to_central, (raw,)), (mm.central_to_raw, (cen, mean)), (mm.raw_to_scaled, (raw,)),
                     (mm.scaled_to_central, (sca, scale)), (mm.sms_to_cumulants, (sca, mean, scale))):
            mon.saw(f.__name__, 8)
            compare_single(mon, rng, lambda: f, a, tag='single-fn', gain=2000., floor=2e-4)


def _memo(builder):
    """One compiled function per precision."""
    import jax
    import jax.numpy as jnp
    memo = {}

    def make():
        k = jnp.result_type(float)
        if k not in memo:
            memo[k] = jax.jit(builder())
        return memo[k]

    return make


def fn_conditional(mon, rng, tier, n):
    import jax.numpy as jnp
    from mfs.one_dim import moments as mm
    drift, disp = (lambda x: jnp.tanh(x) - .3 * x), (lambda x: .6 + .2 * jnp.cos(x))
    pw = np.arange(6)

    def builder(k):
        def go():
            b = {'tme': lambda: mm.sde_cond_moments_tme(drift, disp, .05, 2), 'normal': lambda: mm.sde_cond_moments_tme_normal(drift, disp, .05, 2, 3),
                 'euler': lambda: mm.sde_cond_moments_euler(drift, disp, .05, 3)}[k]()
            return lambda x, m, s: (b[0](x, pw), b[1](x, pw, m), b[2](x, pw, m, s), b[3](x), b[4](x))
        return go

    makes = {k: _memo(builder(k)) for k in ('tme', 'normal', 'euler')}
    for rep in range(n):
        x, mean, scale = rng.normal(size=4), rng.normal() * .5, rng.uniform(.5, 1.5)
        x[0] = mean
        mon.case(x=x, mean=mean, scale=scale)
        for k in makes:
            mon.saw(f'sde_cond_moments_{k}', 8)
            compare_single(mon, rng, makes[k], (x, mean, scale), tag='single-fn', gain=1000.)


def fn_conditional_nd(mon, rng, tier, n):
    import jax.numpy as jnp
    from mfs.multi_dims import moments as mm
    from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices
    drift, disp = (lambda x: jnp.tanh(x[::-1]) - .3 * x), (lambda x: jnp.array([[.6, .1], [.2 * jnp.cos(x[0]), .5]]))

    def builder(k):
        def go():
            mi = generate_graded_lexico_multi_indices(2, 3)
            b = {'normal': lambda: mm.sde_cond_moments_tme_normal(drift, disp, .05, 2, mi), 'euler': lambda: mm.sde_cond_moments_euler_maruyama(drift, disp, .05, mi),
                 'tme': lambda: mm.sde_cond_moments_tme(drift, disp, .05, 2)}[k]()
            w = np.asarray(mi) if k == 'tme' else np.arange(len(mi))
            return lambda x, m, s: (b[0](x, w), b[1](x, w, m), b[2](x, w, m, s), b[3](x), b[4](x))
        return go

    makes = {k: _memo(builder(k)) for k in ('tme', 'normal', 'euler')}
    for rep in range(n):
        x, mean, scale = rng.normal(size=(4, 2)), rng.normal(size=2) * .5, rng.uniform(.5, 1.5, 2)
        x[0] = mean
        mon.case(x=x, mean=mean, scale=scale)
        for k in makes:
            mon.saw(f'sde_cond_moments_nd_{k}', 8)
            compare_single(mon, rng, makes[k], (x, mean, scale), tag='single-fn', gain=1000.)


def fn_gsum(mon, rng, tier, n):
    import jax.numpy as jnp
    from mfs.utils import GaussianSum1D, GaussianSumND
    from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices
    for rep in range(n):
        k = int(rng.integers(1, 4))
        means, vs, ws = rng.normal(size=k), rng.uniform(.1, 1., k), rng.dirichlet(np.ones(k) * 3)
        xs = rng.normal(size=5)
        mon.case(means=means, vs=vs, ws=ws)

        def one(means, vs, ws, xs):
            g = GaussianSum1D.new(means, vs, ws, N=3)
            return g.rms, g.cms, g.scms, g.mean, g.variance, g.pdf(xs)

        mon.saw('GaussianSum1D.new', 8)
        compare_single(mon, rng, lambda: one, (means, vs, ws, xs), tag='single-fn', gain=1000.)
        d = int(rng.integers(1, 4))
        mi = generate_graded_lexico_multi_indices(d, 3)
        means, covs, x = rng.normal(size=(k, d)), np.stack([ref.spd(rng, d) for _ in range(k)]), rng.normal(size=d)

        def nd(means, covs, ws, x):
            g = GaussianSumND.new(means, covs, ws, mi)
            return g.rms, g.cms, g.mean, g.cov, g.pdf(x), g.logpdf(x)

        mon.saw('GaussianSumND.new', 8)
        compare_single(mon, rng, lambda: nd, (means, covs, ws, x), tag='single-fn', gain=1000., floor=1e-4)


def fn_linalg(mon, rng, tier, n):
    import jax.numpy as jnp
    from mfs import utils
    for rep in range(n):
        d = int(rng.integers(2, 6))
        A = ref.spd(rng, d, .5, 2.)
        v = rng.normal(size=d)
        mon.case(A=A, v=v)
        for nm, f, a in (('ldl', utils.ldl, (A,)), ('ldl_chol', utils.ldl_chol, (A,)),
                         ('lanczos', lambda A, v: utils.lanczos(A, v, min(3, d))[0:2], (A, v)),
                         ('discretise_lti_sde', lambda A, B: utils.discretise_lti_sde(A, B, .1), (-A, rng.normal(size=(d, 2))))):
            mon.saw(nm, 8)
            compare_single(mon, rng, lambda: f, a, tag='single-fn', gain=4000., floor=2e-4)


def fn_series(mon, rng, tier, n):
    import jax.numpy as jnp
    from mfs import utils
    from mfs.one_dim import pdf_approximations as pa
    from mfs.classical_filters_smoothers.quadratures import SigmaPoints
    from mfs.one_dim.moments import characteristic_fn
    for rep in range(n):
        x = rng.uniform(-1.5, 1.5)
        meas = gen.measure_1d(rng, 'mixture')
        sms, mean, scale = gen.represent(meas, 6, 'scaled')
        raw = gen.represent(meas, 6, 'raw')[0]
        mon.case(x=x, sms=sms)
        q = int(rng.integers(2, 7))
        order = int(rng.integers(2, 9))
        d = int(rng.integers(1, 4))
        fs = [('hermite_probabilist', lambda x: utils.hermite_probabilist(q, x), (x,)),
              ('partial_bell', lambda v: utils.partial_bell(4, 2, v), (rng.normal(size=5),)),
              ('complete_bell', lambda v: utils.complete_bell(4, v), (rng.normal(size=5),)),
              ('gram_charlier', lambda c, x: pa.gram_charlier(c)(jnp.atleast_1d(x)), (np.array([.1, .9, .2, .1]), x)),
              ('legendre_poly_expansion', lambda r, x: pa.legendre_poly_expansion(r, -4., 4.)(jnp.atleast_1d(x)), (raw, x)),
              ('characteristic_fn', lambda z, m, a, b: characteristic_fn(z, m, a, b), (x, sms, mean, scale)),
              ('sigma-points', lambda m, c: SigmaPoints.gauss_hermite(d, order if d == 1 else 3).gen_sigma_points(m, c), (rng.normal(size=d), np.linalg.cholesky(ref.spd(rng, d)))),
              ('cubature', lambda m, c: SigmaPoints.cubature(d).gen_sigma_points(m, c), (rng.normal(size=d), np.linalg.cholesky(ref.spd(rng, d))))]
        for nm, f, a in fs:
            mon.saw(nm, 8)
            compare_single(mon, rng, lambda: f, a, tag='single-fn', gain=2000., floor=3e-4, dtypes=nm not in ('sigma-points', 'cubature'))


def fn_particle(mon, rng, tier, n):
    """Random draws differ between precisions; the law must not: compare means over many particles."""
    import jax
    import jax.numpy as jnp
    from jax.experimental import disable_x64
    from mfs.classical_filters_smoothers.smc import bootstrap_filter, particle_filter
    from mfs.classical_filters_smoothers import resampling
    a, q, r = .8, .5, .6
    npart, T = 20000, 6
    from rv.props.c06 import kf_ref
    for rep in range(3):
        ys = rng.normal(size=T)
        seed = int(rng.integers(2 ** 31))
        mon.case(seed=seed, ys=ys)
        km, kv, kn = kf_ref(a, 0., q, r, 0., 1., ys)
        with disable_x64():
            for name in ('systematic', 'stratified', 'multinomial', 'continuous', 'general'):
                key = jax.random.PRNGKey(seed)
                lik = lambda y, x: jnp.exp(-(y - x) ** 2 / 2 / r) / jnp.sqrt(2 * jnp.pi * r)
                tr = lambda x, k: a * x + jnp.sqrt(q) * jax.random.normal(k, x.shape)
                ini = lambda k, m: jax.random.normal(k, (m,))
                if name == 'general':
                    dens = lambda u, v: jnp.exp(-(u - a * v) ** 2 / 2 / q)
                    mon.saw('particle_filter')
                    sm = jax.jit(lambda y, k: particle_filter(lambda x, y_, kk: tr(x, kk), lambda u, v, y_: dens(u, v), dens, lik, y, ini, k, npart,
                                                              resampling.systematic))(jnp.asarray(ys, jnp.float32), key)
                    ne = kn[-1]
                else:
                    mon.saw('bootstrap_filter')
                    res = None if name == 'continuous' else getattr(resampling, name)
                    sm, ne = jax.jit(lambda y, k: bootstrap_filter(tr, lik, y, ini, k, npart, res, conti_resampling=name == 'continuous'))(
                        jnp.asarray(ys, jnp.float32), key)
                sm = np.asarray(sm)
                mon.true('single-dtype', sm.dtype == np.float32, f'{sm.dtype}')
                mon.close('single-fn', sm.astype(float).mean(1) / np.sqrt(kv), km / np.sqrt(kv), 0., 20 / np.sqrt(npart), msg=f'{name}: single-precision particles vs exact ')
                mon.close('single-fn', sm.astype(float).var(1) / kv, np.ones(T), 0., 30 / np.sqrt(npart), msg=f'{name}: variance ')
                mon.close('single-fn', float(np.ravel(np.asarray(ne))[-1]), kn[-1], 0., 20 / np.sqrt(npart) * np.sqrt(T), msg=f'{name}: nell ')


def fn_models(mon, rng, tier, n):
    """Shipped models in the default precision."""
    import jax
    import jax.numpy as jnp
    from jax.experimental import disable_x64
    from mfs.one_dim import ss_models as s1
    from mfs.multi_dims import ss_models as sn
    from mfs.one_dim.filtering import moment_filter_cms
    from mfs.one_dim.moments import sde_cond_moments_tme_normal
    out = {}
    T = 30
    ys = rng.integers(0, 2, T).astype(np.float64)
    x = rng.uniform(-1.5, 1.5, 7)
    mon.case(ys=ys, x=x)

    def values():
        dt, T_, ts, ic, drift, disp, logistic, pmf, sim = s1.benes_bernoulli(3)
        b = sde_cond_moments_tme_normal(drift, disp, dt, 3, 3)
        r = jax.jit(lambda y: moment_filter_cms(b[1], b[3], pmf, ic.cms, ic.mean, y))(jnp.asarray(ys))
        o = [dt * jnp.ones(1), ts, ic.cms, drift(jnp.asarray(x)), pmf(1., jnp.asarray(x)), pmf(0., jnp.asarray(x)), *r]
        dt, T_, ts, ic, drift, disp, em, pmf, sim2 = s1.well_poisson(2., 3)
        o += [ts, ic.rms, drift(jnp.asarray(x), 2.), em(jnp.asarray(x), 1.5), pmf(2., jnp.asarray(x), 1.5)]
        dt, T_, ts, gs, drift, disp, em, pmf, sim3 = sn.prey_predator(((0, 0), (0, 1), (1, 0), (0, 2), (1, 1), (2, 0)))
        o += [ts, gs.rms, gs.cms, jax.vmap(drift)(jnp.abs(jnp.asarray(x)).reshape(-1, 1) * jnp.ones((1, 2))), em(jnp.abs(jnp.asarray(x)))]
        return [np.asarray(v) for v in o], (sim, sim2, sim3)

    want, _ = values()
    with disable_x64():
        got, (sim, sim2, sim3) = values()
        k = jax.random.PRNGKey(int(rng.integers(2 ** 31)))
        for nm, tr in (('benes', sim(.3, k)), ('well', sim2(.3, k)), ('prey', sim3(k)[1])):
            mon.saw(f'simulate-{nm}')
            tr = np.asarray(tr)
            mon.true('model-single', np.all(np.isfinite(tr)) and tr.dtype == np.float32, f'{nm}: single-precision simulation')
            # quadratic variation over the window (state-dependent for prey)
            if nm != 'prey':
                qv = np.sum(np.diff(tr.astype(float)) ** 2) / ((len(tr) - 1) * 1e-2)
                mon.true('model-single', abs(qv - 1) < 6 * np.sqrt(2 / len(tr)) + .05, f'{nm}: quadratic variation {qv}')
    for i, (g, w) in enumerate(zip(got, want)):
        mon.saw('shipped-model')
        mon.close('model-single', g.astype(float), w, 5e-4, 1e-5, msg=f'quantity {i} in single precision ')


def fn_simulate(mon, rng, tier, n):
    """simulate_sde with zero noise is a deterministic recursion; precisions must agree."""
    import jax
    import jax.numpy as jnp
    from jax.experimental import disable_x64
    from mfs.utils import simulate_sde
    for rep in range(max(2, n // 4)):
        d = int(rng.integers(1, 4))
        A = ref.spd(rng, d, .3, 1.)
        x0 = rng.normal(size=d)
        mon.case(A=A, x0=x0)
        mon.saw('simulate_sde', 8)
        key = np.asarray(jax.random.PRNGKey(3))

        def fn(A, x0):
            return simulate_sde(lambda x, dt: (x - dt * (A @ x), 1e-30 * jnp.eye(d)), x0, .05, 20, jnp.asarray(key, jnp.uint32), diagonal_cov=bool(rep % 2), integration_steps=4) \
                if rep % 2 == 0 else simulate_sde(lambda x, dt: (x - dt * (A @ x), 1e-30 * jnp.ones(d)), x0, .05, 20, jnp.asarray(key, jnp.uint32), diagonal_cov=True, integration_steps=4)

        compare_single(mon, rng, lambda: fn, (A, x0), tag='single-fn', gain=400.)


def fn_scalars(mon, rng, tier, n):
    """Python scalars, NumPy scalars and zero-dimensional arrays are interchangeable."""
    import jax.numpy as jnp
    from mfs.one_dim import moments as mm
    from mfs.one_dim.quadtures import moment_quadrature
    from mfs.one_dim.pdf_approximations import inverse_fourier
    from mfs.one_dim.moments import characteristic_fn
    from mfs import utils
    for rep in range(n):
        N = int(rng.integers(2, 5))
        sms, mean, scale = gen.represent(gen.measure_1d(rng, 'mixture'), 2 * N, 'scaled')
        z = float(rng.normal())
        mean, scale = float(mean), float(scale)
        mon.case(sms=sms, mean=mean, scale=scale, z=z)
        forms = (lambda v: v, np.float64, lambda v: np.asarray(v), jnp.asarray)
        fs = {'moment_quadrature': lambda c, s: moment_quadrature(s, c(mean), c(scale)),
              'scaled_to_central': lambda c, s: mm.scaled_to_central(s, c(scale)),
              'central_to_raw': lambda c, s: mm.central_to_raw(s, c(mean)),
              'characteristic_fn': lambda c, s: characteristic_fn(c(z), s, c(mean), c(scale)),
              'hermite_probabilist': lambda c, s: utils.hermite_probabilist(3, c(z)),
              'raw_moment_of_normal': lambda c, s: mm.raw_moment_of_normal(c(mean), c(scale), 5)}
        for nm, f in fs.items():
            base = leaves(mon.api(f, jnp.asarray, jnp.asarray(sms)))
            for c in forms:
                for b, g in zip(base, leaves(mon.api(f, c, jnp.asarray(sms)))):
                    mon.close('scalar-input', g, b, 1e-12, 1e-13, msg=f'{nm} ')
