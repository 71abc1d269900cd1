"""C02: the 1D moment filters compute the Bayes recursion (posterior moments and -log p(y_{1:T}))."""
import numpy as np

from rv import gen, ref

RULE = ('Random models: transition law x likelihood x initial measure x parameters x measurement record, T = 1..12 and 70..110, '
        'N = 1..10 (also odd moment counts), for each of the raw / central / scaled filters with and without the stable '
        'option.  Oracle: the predict-update recursion carried out independently in 60-digit arithmetic.  A case is '
        'non-trivial when T >= 1 and the initial measure has at least N points of support; distinct by parameters, '
        'initial moments and measurements.  Half of the cases are re-expressed for a X + b with |a| in 1e-4..1e4 and b up to 1e5 |a|, and '
        'half multiply the likelihood by a constant between 1e-60 and 1e40.')
ASSUMPTIONS = ['float64', 'tolerance is a multiple of the error a double-precision reference makes on the same case; '
               'cases where that exceeds 1e-6 count as out of numerical reach']
MUST_RUN = ['moments', 'mean', 'scale', 'nell', 'finite-bayes', 'stable-finite']

TRS = ['ar', 'tanh', 'state-noise', 'twopoint', 'skew', 'det']
LKS = ['gauss', 'gauss-cubic', 'bernoulli', 'poisson3', 'laplace', 'flat']


def make_filter(mode, tr, lk, stable, jit=True, affine=False):
    """fn(th, ms0, mean0, scale0, ys) -> (moments, means, scales, nell) through the public 1D filters."""
    import jax
    import jax.numpy as jnp
    from mfs.one_dim.filtering import moment_filter_rms, moment_filter_cms, moment_filter_scms
    lib = ref.jnp_lib()

    def fn(th, ms0, mean0, scale0, ys):
        f, g, mom = ref.transition(tr, th[:3], lib)
        lik = ref.likelihood(lk, lib)
        if affine:  # th[3], th[4]: the state is a X + b
            f, g, mom, lik = ref.affine_model(f, g, mom, lik, th[3], th[4])
        if th.shape[0] > 5:  # th[5]: a constant factor of the likelihood (densities in other units of y)
            lik = (lambda y, x, lik_=lik: th[5] * lik_(y, x))
        M = ms0.shape[0]

        def rms(x, orders):
            return jnp.stack(mom(x, 0., M), axis=-1)[:, orders]

        def cms(x, orders, mean):
            return jnp.stack(mom(x, mean, M), axis=-1)[:, orders]

        def scms(x, orders, mean, scale):
            return (jnp.stack(mom(x, mean, M), axis=-1) / scale ** jnp.arange(M))[:, orders]

        if mode == 'raw':
            r, nell = moment_filter_rms(rms, lik, ms0, ys, stable=stable)
            return r, None, None, nell
        if mode == 'central':
            r, m, nell = moment_filter_cms(cms, f, lik, ms0, mean0, ys, stable=stable)
            return r, m, None, nell
        r, m, s, nell = moment_filter_scms(scms, lambda x: (f(x), g(x)), lik, ms0, mean0, scale0, ys, stable=stable)
        return r, m, s, nell

    fn.__name__ = f'moment_filter_{dict(raw="rms", central="cms", scaled="scms")[mode]}'
    if jit:
        j = jax.jit(fn)

        def wrapped(*a):
            return j(*a)

        wrapped.__name__ = fn.__name__
        return wrapped
    return fn


def draw_params(rng, tr):
    if tr == 'det':
        return np.array([rng.uniform(.7, 1.1) * rng.choice([-1, 1]), rng.normal() * .3, rng.uniform(-.5, .5)])
    if tr in ('ar', 'twopoint', 'skew'):
        return np.array([rng.uniform(-1.05, 1.05), rng.normal() * .3, rng.uniform(.05, .8)])
    return np.array([rng.uniform(-.6, .8), rng.normal() * .3, rng.uniform(.05, .8)])


def tasks(tier):
    out = []
    ns = [1, 2, 3, 4, 5, 6] if tier == 'quick' else [1, 2, 3, 4, 5, 6, 7, 8]
    k = 0
    for mode in ('raw', 'central', 'scaled'):
        for n in ns:
            if mode == 'scaled' and n == 1:
                continue  # with one node the posterior scale is zero: the scaled representation does not exist
            for stable in (False, True):
                # rotate transitions/likelihoods so that every pair occurs in some mode and order
                pairs = []
                for j in range(3 if tier == 'quick' else 12):
                    tr, lk = TRS[(k + j) % len(TRS)], LKS[(k // 2 + 2 * j + j // 3) % len(LKS)]
                    if mode == 'scaled' and tr == 'det':
                        tr = 'skew'
                    pairs.append((tr, lk))
                k += 1
                out.append((f'{mode}-N{n}-{"stable" if stable else "plain"}', run,
                            dict(mode=mode, n=n, stable=stable, pairs=pairs, odd=False)))
    for mode in ('raw', 'central', 'scaled'):
        out.append((f'{mode}-odd-count', run, dict(mode=mode, n=2, stable=False, pairs=[('ar', 'gauss')], odd=True)))
    for i, (mode, n) in enumerate((m, n) for m in ('raw', 'central', 'scaled') for n in (2, 3)):
        out.append((f'{mode}-long-N{n}', run, dict(mode=mode, n=n, stable=bool(i % 2), odd=False, Ts=(70 + 13 * (i % 4),), reps=4 if tier == 'quick' else 12,
                                                   pairs=[('ar', LKS[i % 3]), ('tanh', LKS[3 + i % 3]), ('skew', 'gauss')])))
    for i, (mode, n) in enumerate([('central', 7), ('central', 8), ('scaled', 8), ('scaled', 10), ('raw', 7)]):
        out.append((f'{mode}-high-N{n}', run, dict(mode=mode, n=n, stable=bool(i % 2), odd=False, Ts=(1, 4), reps=8 if tier == 'quick' else 12, mild=True,
                                                   pairs=[('ar', LKS[i % 3]), ('tanh', LKS[2 + i % 3]), ('skew', 'gauss')])))
    out.append(('stable-indefinite', indefinite, {}))
    out += [(f'finite-bayes-{mode}-N{n}', finite_bayes, dict(mode=mode, n=n)) for mode in ('raw', 'central')
            for n in (2, 3, 4)]
    return out


def run(mon, rng, tier, mode, n, stable, pairs, odd, Ts=None, reps=None, mild=False):
    import jax.numpy as jnp
    import mpmath as mpm
    reps = reps or (4 if tier == 'quick' else 15)
    M = 2 * n + (1 if odd else 0)
    for tr, lk in pairs:
        fn = make_filter(mode, tr, lk, stable, affine=True)
        for T in Ts or ((1, 6) if tier == 'quick' else (1, 5, 12)):
            for rep in range(reps):
                kind = ['normal', 'mixture', 'bimodal-tight', 'skewed', 'atoms', 'many-atoms', 'symmetric'][int(rng.integers(7))]
                if mild:
                    kind = ['normal', 'mixture', 'symmetric'][int(rng.integers(3))]
                meas = gen.measure_1d(rng, kind, n)
                if len(meas[0]) < n and not np.any(meas[2] > 0):
                    meas = gen.measure_1d(rng, 'mixture')
                if mode != 'raw' and rng.random() < .3:
                    meas = gen.affine(meas, float(rng.normal() * 3), float(10. ** rng.uniform(-1, .7)))
                # units: the same model for a X + b, the likelihood being a density in units of its own
                a, b, c = 1., 0., 1.
                if rep % 2:
                    a = float(rng.choice([-1, 1]) * 10. ** rng.choice([-4, -3, -2, 2, 3, 4]))
                    b = float(rng.normal() * abs(a) * (.3 if mode == 'raw' else 3.))
                    if mode != 'raw' and rep % 4 == 3:  # a mean far from the origin, in units of the spread
                        b *= float(10. ** rng.uniform(1, 5))
                if rng.random() < .5:
                    c = float(rng.choice([1e-60, 1e-12, 1e-6, 1e6, 1e40]))
                ms0, mean0, scale0 = gen.represent(gen.affine(meas, b, a), M, mode)
                th = draw_params(rng, tr)
                if mild:
                    th[2] = rng.uniform(.4, .8)
                ys = ref.draw_ys(lk, rng, T, scale=1. if mild else float(rng.choice([1., 1., 4.])))
                with mpm.workdps(60):
                    k = range(M)
                    raw0 = ref.shift_moments([mpm.mpf(m) * mpm.mpf(scale0) ** j for j, m in enumerate(ms0)],
                                             mpm.mpf(b) - mpm.mpf(mean0))
                    raw0 = [m / mpm.mpf(a) ** j for j, m in enumerate(raw0)]
                    try:
                        refs, inc, dg = ref.mp_filter(tr, lk, th, raw0, ys)
                    except ArithmeticError:
                        mon.skip('not-positive-definite')
                        continue
                    if not dg < 1e6:
                        mon.skip('nearly-degenerate')
                        continue
                    refs = [ref.shift_moments([m * mpm.mpf(a) ** j for j, m in enumerate(r)], -mpm.mpf(b)) for r in refs]
                    reps_mp = [ref.mp_represent(r, mode) for r in refs]
                    want = [(ref.f64(p), float(q), float(r)) for p, q, r in reps_mp]
                    nell = float(sum(inc))
                units = np.abs(a) ** np.arange(M) if mode != 'scaled' else np.ones(M)
                try:
                    with np.errstate(all='ignore'):
                        bs, bn, cond, _ = ref.np_filter(mode, tr, lk, th, ms0, mean0, scale0, ys, aff=(a, b))
                except np.linalg.LinAlgError:
                    mon.skip('conditioning')
                    continue
                sc = [np.maximum(np.abs(w[0]), np.abs(_absm((w[0] / units,), n)) * units) for w in want]
                sd = [abs(w[1]) + (w[2] if mode == 'scaled' else abs(a)) for w in want]
                err = max(max(np.max(np.abs(r[0] - w[0]) / s), abs(r[1] - w[1]) / e, abs(r[2] - w[2]) / w[2])
                          for r, w, s, e in zip(bs, want, sc, sd))
                err = max(err, abs(bn - nell) / (1 + abs(nell)))
                if not (err < 1e-6 and cond < 1e11):
                    mon.skip('conditioning')
                    continue
                tol = 1e-9 + 500 * err + 3 * ref.EPS * cond + 50 * ref.EPS * dg
                mon.case(mode=mode, n=n, stable=stable, tr=tr, lk=lk, T=T, th=th, units=(a, b, c), ms0=ms0, mean0=mean0, scale0=scale0, ys=ys)
                nell -= T * np.log(c)
                r, m, s, nl = mon.api(fn, jnp.asarray([*th, a, b, c]), jnp.asarray(ms0), mean0, scale0, jnp.asarray(ys))
                mon.true('shapes', np.shape(r) == (T, M) and np.shape(nl) == (), 'shape of the outputs',
                         moments=np.shape(r), nell=np.shape(nl))
                mon.close('moments', np.asarray(r) / np.array(sc), np.array([w[0] for w in want]) / np.array(sc), atol=tol, rtol=0)
                if m is not None:
                    mon.close('mean', m, [w[1] for w in want], atol=0, rtol=tol, scale=np.array(sd))
                if s is not None:
                    mon.close('scale', s, [w[2] for w in want], atol=0, rtol=tol, scale=np.array([w[2] for w in want]))
                mon.close('nell', nl, nell, atol=tol, rtol=tol)


def _absm(w, n):
    """A natural magnitude for each moment, so that odd moments that vanish do not demand relative accuracy."""
    ms = w[0]
    M = len(ms)
    ev = np.abs(ms[::2])
    out = np.ones(M)
    for j in range(M):
        lo, hi = ev[j // 2], ev[min((j + 1) // 2, len(ev) - 1)]
        out[j] = np.sqrt(max(lo, 1e-12) * max(hi, 1e-12)) if j % 2 else max(ev[j // 2], 1e-12)
    if M == 2:
        out[1] = max(1., abs(ms[1]))
    return out


def finite_bayes(mon, rng, tier, mode, n):
    """A prior with exactly N atoms under an injective map: the filter must reproduce elementary finite Bayes exactly."""
    import jax.numpy as jnp
    for lk in LKS:
        fn = make_filter(mode, 'det', lk, False)
        for rep in range(3 if tier == 'quick' else 20):
            T = 4
            ws, xs, vs = gen.measure_1d(rng, 'atoms', n)
            ms0, mean0, scale0 = gen.represent((ws, xs, vs), 2 * n, mode)
            th = draw_params(rng, 'det')
            ys = ref.draw_ys(lk, rng, T)
            f, _, _ = ref.transition('det', th, ref.np_lib)
            lik = ref.likelihood(lk, ref.np_lib)
            w, x, nell, want, means = ws.copy(), xs.copy(), 0., [], []
            for y in ys:
                x = f(x)
                l = w * lik(y, x)
                nell -= np.log(l.sum())
                w = l / l.sum()
                mu = 0. if mode == 'raw' else np.dot(w, x)
                means.append(mu)
                want.append([np.dot(w, (x - mu) ** k) for k in range(2 * n)])
            if w.min() < 1e-3 or np.min(np.diff(np.sort(x))) < .1:
                mon.skip('nearly-degenerate')
                continue
            mon.case(mode=mode, n=n, lk=lk, th=th, ws=ws, xs=xs, ys=ys)
            r, m, s, nl = mon.api(fn, jnp.asarray(th), jnp.asarray(ms0), mean0, scale0, jnp.asarray(ys))
            mon.close('finite-bayes', r, want, rtol=1e-5, atol=1e-7)
            mon.close('finite-bayes', nl, nell, rtol=1e-6, atol=1e-7)
            if m is not None:
                mon.close('finite-bayes', m, means, rtol=1e-6, atol=1e-7)


def indefinite(mon, rng, tier):
    """Moments slightly outside the moment cone (as approximate conditional moments deliver), before or after the
    prediction: with the stable option the step still yields finite numbers and a proper evidence."""
    import jax
    import jax.numpy as jnp
    from mfs.one_dim.filtering import moment_filter_rms, moment_filter_cms, moment_filter_scms
    for n in (2, 3, 4, 5):
        M = 2 * n
        lik = lambda y, x: 1. + .2 * jnp.tanh(y * x)
        fns = {
            'rms': jax.jit(lambda ms0, pred, ys: moment_filter_rms(lambda x, w: jnp.broadcast_to(pred, (x.shape[0], M)), lik, ms0, ys, stable=True)),
            'cms': jax.jit(lambda ms0, pred, ys: moment_filter_cms(lambda x, w, c: jnp.broadcast_to(pred, (x.shape[0], M)), lambda x: 0 * x, lik, ms0, 0., ys, stable=True)),
            'scms': jax.jit(lambda ms0, pred, ys: moment_filter_scms(lambda x, w, c, s: jnp.broadcast_to(pred, (x.shape[0], M)), lambda x: (0 * x, 0 * x + 1.), lik, ms0, 0., 1., ys, stable=True))}
        for rep in range(4 if tier == 'quick' else 40):
            meas = gen.measure_1d(rng, ['normal', 'mixture', 'symmetric'][rep % 3])
            good = gen.represent(meas, M, 'central')[0]
            i = np.arange(n)
            bad = good.copy()
            G = bad[i[:, None] + i[None, :]]
            pivot = G[-1, -1] - G[-1, :-1] @ np.linalg.solve(G[:-1, :-1], G[:-1, -1])
            bad[2 * n - 2] -= pivot * (1 + 10. ** rng.uniform(-4, -1.5))
            ys = rng.normal(size=1)
            for where, (a, b) in {'prior': (bad, good), 'prediction': (good, bad)}.items():
                mon.case(n=n, where=where, ms=bad, ys=ys)
                for name, f in fns.items():
                    out = f(jnp.asarray(a), jnp.asarray(b), jnp.asarray(ys))
                    mon.saw('moment_filter_' + name)
                    mon.true('stable-finite', all(np.all(np.isfinite(np.asarray(v))) for v in out), f'{name} not finite, indefinite {where}', out=out)
                    mon.close('stable-finite', np.asarray(out[0])[0, 0], 1., atol=1e-9, rtol=0)
                    mon.true('stable-finite', abs(float(out[-1])) <= .25, 'the evidence of a likelihood in [0.8, 1.2]', nell=out[-1])
