"""C08: the multidimensional moment filters compute the Bayes recursion, in every representation and signature."""
import numpy as np

from rv import gen, ref, zoo

RULE = ('Random d-dimensional models (transition law x likelihood x parameters x initial law x record of 1..8 or 70..96 measurements), d = 1..3, N = 1..3, '
        'three representations, index / multi-index signatures, stable on and off.  Oracle: the predict--update recursion '
        'written independently (operator moments, product-spectral rule); the three representations against each other; '
        'd = 1 against the one-dimensional filters; each coordinate in units of its own (1e-4 .. 1e4) and with means up to 1e5 spreads from the origin; '
        'linear Gaussian models with hundreds of moments against the Kalman filter; indefinite moments with the stable option.')
ASSUMPTIONS = ['float64', 'cases where the reference meets an indefinite Gram matrix, condition number > 1e9 or evidence lost '
               'to cancellation are out of numerical reach']
MUST_RUN = ['moments', 'nell', 'mean', 'scale', 'signature', 'stable', 'd1', 'modes', 'size-mismatch', 'permutation', 'units', 'kalman', 'stable-finite']

TRS = ['lin', 'sin', 'state-noise', 'twopoint']
LKS = ['gauss', 'bernoulli', 'partial']


def tasks(tier):
    out = []
    k = 0
    for d, n in ((2, 2), (2, 3), (3, 2), (1, 3), (2, 1)) if tier == 'quick' else ((2, 2), (2, 3), (3, 2), (1, 3), (2, 1), (2, 4), (4, 2)):
        for mode in ('raw', 'central', 'scaled'):
            if n == 1 and mode == 'scaled':
                continue
            for j in range(2 if tier == 'quick' and n < 3 else 1 if tier == 'quick' else 3):
                tr, lk = TRS[k % 4], LKS[(k + k // 4) % 3]
                if d == 3 and tr == 'twopoint' and tier == 'quick':
                    tr = 'state-noise'
                if d == 1 and lk == 'gauss':
                    lk = 'partial'
                k += 1
                sig = 'multi-index' if k % 2 else 'index'
                out.append((f'd{d}-N{n}-{mode}-{tr}-{lk}-{sig}-{j}', run, dict(d=d, n=n, mode=mode, tr=tr, lk=lk, sig=sig)))
    out += [('d1-equivalence', d1, {}), ('modes', modes, {}), ('size-mismatch', mismatch, {}), ('permutation', perm, {})]
    out += [(f'units-{m}', units, dict(mode=m)) for m in ('raw', 'central', 'scaled')]
    out += [(f'kalman-{m}-{s}', kalman, dict(mode=m, sig=s)) for m, s in (('raw', 'index'), ('central', 'index'), ('scaled', 'multi-index'))]
    out += [('stable-indefinite', indefinite, {})]
    out += [(f'long-{m}', run, dict(d=2, n=2, mode=m, tr=tr, lk=lk, sig=s, Ts=(T,)))
            for m, tr, lk, s, T in (('raw', 'lin', 'gauss', 'index', 70), ('central', 'state-noise', 'bernoulli', 'multi-index', 83),
                                    ('scaled', 'sin', 'partial', 'index', 96))]
    return out


def draw_law(rng, d, n, mode):
    k = int(rng.integers(1, 4))
    ws = rng.dirichlet(np.ones(k) * 3)
    return ref.mixture_nd_moments(ws, rng.normal(size=(k, d)) * .5, [ref.spd(rng, d, .25, .8) for _ in range(k)], d, n, mode)


def reference(mon, mode, tr, lk, th, d, n, init, ys):
    try:
        with np.errstate(all='ignore'):
            r = ref.np_filter_nd(mode, tr, lk, th, d, n, *init, ys)
    except (np.linalg.LinAlgError, ArithmeticError):
        mon.skip('ill-posed')
        return None
    if r[2] > 1e9 or r[3] < 1e-3 or not np.isfinite(r[1]):
        mon.skip('ill-posed')
        return None
    return r


def compare(mon, tagset, outs, nell, r, T):
    want, nl, cond, small = r
    tol = 1e-8 + 300 * ref.EPS * cond / small
    sc = np.array([np.maximum(np.abs(w[0]), 1.) for w in want])
    mon.close(tagset.get('moments', 'moments'), np.asarray(outs[0]) / sc, np.array([w[0] for w in want]) / sc, rtol=0, atol=tol)
    if len(outs) > 1:
        mon.close('mean', outs[1], np.array([w[1] for w in want]), rtol=tol, atol=tol)
    if len(outs) > 2:
        mon.close('scale', outs[2], np.array([w[2] for w in want]), rtol=tol, atol=tol)
    mon.close(tagset.get('nell', 'nell'), nell, nl, rtol=tol, atol=tol)


def run(mon, rng, tier, d, n, mode, tr, lk, sig, Ts=None):
    import jax
    fns = {}
    for st, sg in ((False, sig), (True, sig), (False, 'index' if sig == 'multi-index' else 'multi-index')):
        if sg != sig and (d, n) not in ((2, 2), (1, 3)) and tier == 'quick':
            continue
        f0 = zoo.nd_fn(mode, tr, lk, d, n, st, sg)
        f = jax.jit(f0)
        g = lambda *a, f=f: f(*a)
        g.__name__ = f0.__name__
        fns[st, sg] = g
    for T in Ts or ((1, 4) if tier == 'quick' else (1, 3, 8)):
        done = 0
        for rep in range(12 if tier == 'quick' else 60):
            if done >= (3 if tier == 'quick' else 15):
                break
            th, init, ys = zoo.draw_nd_params(rng, d), draw_law(rng, d, n, mode), ref.draw_ys_nd(lk, rng, T)
            r = reference(mon, mode, tr, lk, th, d, n, init, ys)
            if r is None:
                continue
            if Ts:  # over a long record: how far do perturbations of the size of rounding errors grow?
                q = reference(mon, mode, tr, lk, th, d, n, (init[0] * (1 + 1e-12 * rng.normal(size=init[0].shape) * (np.arange(len(init[0])) > d)), *init[1:]),
                              ys * (1 + 1e-12 * rng.normal(size=ys.shape)) if np.asarray(ys).dtype.kind == 'f' else ys)
                if q is None:
                    continue
                resp = max(max(np.max(np.abs(a[0] - b[0]) / np.maximum(1., np.abs(b[0]))) for a, b in zip(q[0], r[0])), abs(q[1] - r[1]) / (1 + abs(r[1])))
                if not resp < 1e-9:
                    mon.skip('chaotic')
                    continue
            done += 1
            mon.case(d=d, n=n, mode=mode, tr=tr, lk=lk, th=th, init=init, ys=ys)
            args = [zoo.to_jax(v) for v in (th, *init, ys)]
            for (st, sg), f in fns.items():
                o, nell = mon.api(f, *args)
                mon.true('shape', np.shape(o[0]) == (T, len(ref.brute_multi_indices(d, 2 * n - 1))) and np.shape(nell) == ()
                         and all(np.shape(v) == (T, d) for v in o[1:]), 'output shapes')
                if st:
                    compare(mon, dict(moments='stable', nell='stable'), o, nell, r, T)
                elif sg != sig:
                    compare(mon, dict(moments='signature', nell='signature'), o, nell, r, T)
                else:
                    compare(mon, {}, o, nell, r, T)


def d1(mon, rng, tier):
    """d = 1: identical to the one-dimensional filters."""
    import jax
    import jax.numpy as jnp
    from mfs.one_dim.filtering import moment_filter_rms, moment_filter_cms, moment_filter_scms
    lib = ref.jnp_lib()
    n, T = 3, 5
    for mode in ('raw', 'central', 'scaled'):
        for tr in ('lin', 'twopoint'):
            f = jax.jit(zoo.nd_fn(mode, tr, 'bernoulli', 1, n, False, 'index'))

            def one(th, ms0, mean0, scale0, ys):
                fm, cov, mom = ref.transition_nd(tr, th, 1, lib)
                l = ref.likelihood_nd('bernoulli', 1, lib)
                lik = lambda y, x: l(y, [x])
                mis = [(j,) for j in range(2 * n)]
                M = lambda x, c: jnp.stack([v + 0 * x for v in mom([x], [c], mis)], axis=-1)
                if mode == 'raw':
                    r, nell = moment_filter_rms(lambda x, o: M(x, 0.)[:, o], lik, ms0, ys)
                    return (r,), nell
                if mode == 'central':
                    r, m, nell = moment_filter_cms(lambda x, o, c: M(x, c)[:, o], lambda x: fm([x])[0], lik, ms0, mean0[0], ys)
                    return (r, m[:, None]), nell
                r, m, s, nell = moment_filter_scms(
                    lambda x, o, c, sc: (M(x, c) / sc ** jnp.arange(2 * n))[:, o],
                    lambda x: (fm([x])[0], cov([x])[0][0] + 0 * x), lik, ms0, mean0[0], scale0[0], ys)
                return (r, m[:, None], s[:, None]), nell

            f1 = jax.jit(one)
            for rep in range(3 if tier == 'quick' else 15):
                th, init, ys = zoo.draw_nd_params(rng, 1), draw_law(rng, 1, n, mode), ref.draw_ys_nd('bernoulli', rng, T)
                r = reference(mon, mode, tr, 'bernoulli', th, 1, n, init, ys)
                if r is None:
                    continue
                mon.case(mode=mode, tr=tr, th=th, init=init, ys=ys)
                args = [zoo.to_jax(v) for v in (th, *init, ys)]
                a, na = mon.api(f, *args)
                b, nb = mon.api(f1, *args)
                tol = 1e-8 + 300 * ref.EPS * r[2]
                for u, v in zip(a, b):
                    mon.close('d1', u, np.asarray(v), rtol=tol, atol=tol)
                mon.close('d1', na, nb, rtol=tol, atol=tol)


def modes(mon, rng, tier):
    """Raw, central and scaled filters describe one posterior."""
    import jax
    d, n, T = 2, 2, 4
    mis = np.array(ref.brute_multi_indices(d, 2 * n - 1))
    for tr, lk in (('lin', 'gauss'), ('state-noise', 'bernoulli'), ('sin', 'partial')):
        fns = {m: jax.jit(zoo.nd_fn(m, tr, lk, d, n, False)) for m in ('raw', 'central', 'scaled')}
        for rep in range(4 if tier == 'quick' else 20):
            th, ys = zoo.draw_nd_params(rng, d), ref.draw_ys_nd(lk, rng, T)
            k = 2
            ws, mus, covs = rng.dirichlet(np.ones(k) * 3), rng.normal(size=(k, d)) * .5, [ref.spd(rng, d, .25, .8) for _ in range(k)]
            inits = {m: ref.mixture_nd_moments(ws, mus, covs, d, n, m) for m in fns}
            if reference(mon, 'central', tr, lk, th, d, n, inits['central'], ys) is None:
                continue
            mon.case(tr=tr, lk=lk, th=th, ws=ws, mus=mus, ys=ys)
            out = {}
            for m, f in fns.items():
                o, nell = mon.api(f, *[zoo.to_jax(v) for v in (th, *inits[m], ys)])
                o = [np.asarray(v) for v in o]
                mean = o[1] if m != 'raw' else np.zeros((T, d))
                sc = o[2] if m == 'scaled' else np.ones((T, d))
                # raw moments of all representations
                raw = np.stack([_to_raw(o[0][t], mean[t], sc[t], mis) for t in range(T)])
                out[m] = (raw, float(nell))
            for m in ('central', 'scaled'):
                mon.close('modes', out[m][0], out['raw'][0], rtol=1e-6, atol=1e-7)
                mon.close('modes', out[m][1], out['raw'][1], rtol=1e-7, atol=1e-7)


def _to_raw(ms, mean, scale, mis):
    import itertools
    import math
    pos = {tuple(m): j for j, m in enumerate(mis)}
    out = []
    for m in mis:
        tot = 0.
        for k in itertools.product(*[range(v + 1) for v in m]):
            c = np.prod([math.comb(int(a), b) for a, b in zip(m, k)])
            tot += c * ms[pos[k]] * np.prod(scale ** np.array(k)) * np.prod(mean ** (m - np.array(k)))
        out.append(tot)
    return np.array(out)


def mismatch(mon, rng, tier):
    """A moment vector whose size does not match the multi-indices is refused, not silently misread."""
    import jax.numpy as jnp
    from mfs.multi_dims import filtering as F
    from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices, gram_and_hankel_indices_graded_lexico
    one = lambda *a: jnp.ones((1, 1))
    for d, n in ((2, 2), (3, 2), (2, 3)):
        order = (generate_graded_lexico_multi_indices(d, 2 * n - 1), gram_and_hankel_indices_graded_lexico(n, d))
        z = order[0].shape[0]
        for bad in (z - 1, z + 1, 2 * z, 1):
            ms = jnp.ones(bad)
            mon.case(d=d, n=n, bad=bad)
            for call in (lambda: F.moment_filter_nd_rms((one, 'index'), one, jnp.zeros(2), order, ms),
                         lambda: F.moment_filter_nd_cms((one, 'index'), one, one, jnp.zeros(2), order, ms, jnp.zeros(d)),
                         lambda: F.moment_filter_nd_scms((one, 'index'), one, one, jnp.zeros(2), order, ms, jnp.zeros(d), jnp.ones(d))):
                mon.saw('moment_filter_nd_*')
                try:
                    call()
                    ok = False
                except ValueError as e:
                    ok = True
                except Exception:
                    ok = False
                mon.true('size-mismatch', ok, f'{bad} moments accepted for {z} multi-indices')


def perm(mon, rng, tier):
    """Relabelling the coordinates of the state relabels the posterior (d = 2, where the functional has no ordering)."""
    import jax
    d, n, T = 2, 2, 3
    mis = ref.brute_multi_indices(d, 2 * n - 1)
    swap = np.array([mis.index(m[::-1]) for m in mis])
    for mode in ('raw', 'central', 'scaled'):
        f = jax.jit(zoo.nd_fn(mode, 'lin', 'bernoulli', d, n, False))

        def swapped(th, ms0, mean0, scale0, ys):
            import jax.numpy as jnp
            from mfs.multi_dims.filtering import moment_filter_nd_rms, moment_filter_nd_cms, moment_filter_nd_scms
            from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices, gram_and_hankel_indices_graded_lexico
            lib = ref.jnp_lib()
            order = (generate_graded_lexico_multi_indices(d, 2 * n - 1), gram_and_hankel_indices_graded_lexico(n, d))
            fm, cov, mom = ref.transition_nd('lin', th, d, lib)
            l = ref.likelihood_nd('bernoulli', d, lib)
            lik = lambda y, x: l(y, [x[1], x[0]])
            M = lambda x, c: jnp.stack([v + 0 * x[:, 0] for v in mom([x[:, 1], x[:, 0]], c[::-1], mis)], axis=-1)[:, swap]
            mf = lambda x: jnp.stack([v + 0 * x[:, 0] for v in fm([x[:, 1], x[:, 0]])[::-1]], axis=-1)
            if mode == 'raw':
                r, nell = moment_filter_nd_rms((lambda x, i: M(x, jnp.zeros(2))[:, i], 'index'), lik, ys, order, ms0)
                return (r,), nell
            if mode == 'central':
                r, m, nell = moment_filter_nd_cms((lambda x, i, c: M(x, c)[:, i], 'index'), mf, lik, ys, order, ms0, mean0)
                return (r, m), nell

            def mv(x):
                C = cov([x[:, 1], x[:, 0]])
                return mf(x), jnp.stack([C[1][1] + 0 * x[:, 0], C[0][0] + 0 * x[:, 0]], axis=-1)

            r, m, s, nell = moment_filter_nd_scms(
                (lambda x, i, c, s: (M(x, c) / jnp.prod(s ** jnp.asarray(np.array(mis)), axis=1))[:, i], 'index'),
                mv, lik, ys, order, ms0, mean0, scale0)
            return (r, m, s), nell

        g = jax.jit(swapped)
        for rep in range(3 if tier == 'quick' else 15):
            th, init, ys = zoo.draw_nd_params(rng, d), draw_law(rng, d, n, mode), ref.draw_ys_nd('bernoulli', rng, T)
            r = reference(mon, mode, 'lin', 'bernoulli', th, d, n, init, ys)
            if r is None:
                continue
            mon.case(mode=mode, th=th, init=init, ys=ys)
            a, na = mon.api(f, *[zoo.to_jax(v) for v in (th, *init, ys)])
            b, nb = mon.api(g, *[zoo.to_jax(v) for v in (th, init[0][swap], init[1][::-1].copy(), init[2][::-1].copy(), ys)])
            tol = 1e-7 + 300 * ref.EPS * r[2] / r[3]
            mon.close('permutation', np.asarray(b[0])[:, swap], np.asarray(a[0]), rtol=tol, atol=tol)
            for u, v in zip(a[1:], b[1:]):
                mon.close('permutation', np.asarray(v)[:, ::-1], np.asarray(u), rtol=tol, atol=tol)
            mon.close('permutation', nb, na, rtol=tol, atol=tol)


def units(mon, rng, tier, mode):
    """Measuring each coordinate in units of its own (from 1e-4 to 1e4, either sign) and the likelihood up to a constant
    changes the numbers that represent the posterior, not the posterior."""
    import jax
    d, T = 2, 3
    for n, tr, lk in ((2, 'lin', 'gauss'), (2, 'state-noise', 'bernoulli'), (3, 'sin', 'partial')):
        mis = np.array(ref.brute_multi_indices(d, 2 * n - 1))
        f0 = zoo.nd_fn(mode, tr, lk, d, n, False)
        f, fs = jax.jit(f0), jax.jit(zoo.nd_fn(mode, tr, lk, d, n, True, 'multi-index'))
        for rep in range(8 if tier == 'quick' else 40):
            th, ys = zoo.draw_nd_params(rng, d), ref.draw_ys_nd(lk, rng, T)
            init = draw_law(rng, d, n, mode)
            r = reference(mon, mode, tr, lk, th, d, n, init, ys)
            if r is None:
                continue
            want, nl, cond, small = r
            a = rng.choice([-1, 1], d) * 10. ** rng.choice([-4, -3, -2, 0, 2, 3, 4], d)
            sh = np.zeros(d) if mode == 'raw' else rng.normal(size=d) * np.abs(a) * 3
            off = 0.
            if mode != 'raw' and rep % 2:  # means far from the origin, in units of the spread
                sh = sh * 10. ** rng.uniform(2, 5)
                q = reference(mon, mode, tr, lk, th, d, n, (init[0] * (1 + 1e-9 * rng.normal(size=init[0].shape) * (np.arange(len(init[0])) > d)),
                                                            init[1] + 1e-9 * rng.normal(size=d), init[2]), ys)
                if q is None:
                    continue
                off = 1e9 * max(max(max(np.max(np.abs(u - v) / np.maximum(1., np.abs(v))) for u, v in zip(x, y)) for x, y in zip(q[0], want)),
                                abs(q[1] - nl) / (1 + abs(nl)), 1e-9) * np.max(np.abs(sh / a))
                if not off < 1e7:
                    continue
            c = float(10. ** rng.choice([-40, -12, 0, 12, 40]))
            fac = np.prod(a ** mis, axis=1) if mode != 'scaled' else np.prod(np.sign(a) ** mis, axis=1)
            ini = (init[0] * fac, init[1] * a + sh if mode != 'raw' else init[1], init[2] * np.abs(a) if mode == 'scaled' else init[2])
            mon.case(mode=mode, n=n, tr=tr, lk=lk, th=th, init=init, ys=ys, units=a, shift=sh, factor=c)
            tol = 1e-8 + 300 * ref.EPS * cond / small + 50 * ref.EPS * off
            sc = np.array([np.maximum(np.abs(w[0]), 1.) for w in want])
            for g in (f, fs):
                o, nell = g(*[zoo.to_jax(v) for v in ({**th, 'units': a, 'shift': sh, 'factor': c}, *ini, ys)])
                mon.saw(f0.__name__)
                o = [np.asarray(v) for v in o]
                mon.close('units', o[0] / fac / sc, np.array([w[0] for w in want]) / sc, rtol=0, atol=tol)
                if len(o) > 1:
                    mon.close('units', (o[1] - sh) / a, np.array([w[1] for w in want]), rtol=tol, atol=tol)
                if len(o) > 2:
                    mon.close('units', o[2] / np.abs(a), np.array([w[2] for w in want]), rtol=tol, atol=0, scale=np.array([w[2] for w in want]))
                mon.close('units', float(nell) + T * np.log(c), nl, rtol=tol, atol=tol)


def kalman(mon, rng, tier, mode, sig):
    """Hundreds of moments: for a linear Gaussian model the filter approaches the Kalman filter."""
    import jax
    import jax.numpy as jnp
    from mfs.multi_dims.filtering import moment_filter_nd_rms, moment_filter_nd_cms, moment_filter_nd_scms
    from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices, gram_and_hankel_indices_graded_lexico
    for d, n, atol in ((2, 12, 1e-5),):
        order = (generate_graded_lexico_multi_indices(d, 2 * n - 1), gram_and_hankel_indices_graded_lexico(n, d))
        mis = ref.brute_multi_indices(d, 2 * n - 1)
        mi = np.array(mis)
        mij, M = jnp.asarray(mi), 2 * n
        keys = jnp.asarray([int(sum(v * M ** i for i, v in enumerate(m))) for m in mis])

        def fn(th, ms0, mean0, scale0, ys):
            def allm(x, c, s):
                cols = [jnp.stack(ref.gauss_moments((th['A'][i] * x[:, i] - c[i]) / s[i], th['Q'][i] / s[i] ** 2 + 0 * x[:, i], M), axis=1)
                        for i in range(d)]
                out = 1.
                for i in range(d):
                    out = out * cols[i][:, mij[:, i]]
                return out

            def pick(v, which):
                if sig == 'multi-index':
                    which = jnp.argmax(keys[None, :] == jnp.sum(jnp.asarray(which) * M ** jnp.arange(d), axis=-1)[:, None], axis=1)
                return v[:, which]

            lik = lambda y, x: jnp.exp(-(y - jnp.dot(th['h'], x)) ** 2 / 2 / th['r']) / jnp.sqrt(2 * jnp.pi * th['r'])
            one, zero = jnp.ones(d), jnp.zeros(d)
            if mode == 'raw':
                r, nell = moment_filter_nd_rms((lambda x, w: pick(allm(x, zero, one), w), sig), lik, ys, order, ms0)
                return r, None, None, nell
            if mode == 'central':
                r, m, nell = moment_filter_nd_cms((lambda x, w, c: pick(allm(x, c, one), w), sig), lambda x: x * th['A'], lik, ys, order, ms0, mean0)
                return r, m, None, nell
            r, m, s, nell = moment_filter_nd_scms((lambda x, w, c, s: pick(allm(x, c, s), w), sig),
                                                  lambda x: (x * th['A'], 0 * x + th['Q']), lik, ys, order, ms0, mean0, scale0)
            return r, m, s, nell

        f = jax.jit(fn)
        f.__name__ = f'moment_filter_nd_{dict(raw="rms", central="cms", scaled="scms")[mode]}'
        for rep in range(2 if tier == 'quick' else 8):
            T = 2
            th = {'A': rng.uniform(.6, .95, d), 'Q': rng.uniform(.2, .5, d), 'h': rng.normal(size=d) * .4, 'r': float(rng.uniform(.8, 1.5))}
            mean, cov = rng.normal(size=d) * .2, ref.spd(rng, d, .5, .8)
            ys = rng.normal(size=T) * .7
            m, P, nl, ms, Ps = mean, cov, 0., [], []
            for y in ys:
                m, P = th['A'] * m, P * np.outer(th['A'], th['A']) + np.diag(th['Q'])
                S = th['h'] @ P @ th['h'] + th['r']
                nl += .5 * np.log(2 * np.pi * S) + .5 * (y - th['h'] @ m) ** 2 / S
                K = P @ th['h'] / S
                m, P = m + K * (y - th['h'] @ m), P - np.outer(K, K) * S
                ms.append(m)
                Ps.append(P)
            mon.case(mode=mode, sig=sig, d=d, n=n, th=th, mean=mean, cov=cov, ys=ys)
            r, mm, ss, nell = mon.api(f, *[zoo.to_jax(v) for v in (th, *ref.gaussian_nd_moments(mean, cov, d, n, mode), ys)])
            r = np.asarray(r)
            e1 = [mis.index(tuple(int(i == j) for j in range(d))) for i in range(d)]
            gm = r[:, e1] if mode == 'raw' else np.asarray(mm)
            gs = np.asarray(ss) if mode == 'scaled' else np.ones((T, d))
            mon.close('kalman', gm, np.array(ms), rtol=0, atol=atol, msg='mean')
            for i in range(d):
                for j in range(d):
                    k = mis.index(tuple(int(i == q) + int(j == q) for q in range(d)))
                    got = r[:, k] * gs[:, i] * gs[:, j] - (gm[:, i] * gm[:, j] if mode == 'raw' else 0.)
                    mon.close('kalman', got, [p[i, j] for p in Ps], rtol=0, atol=atol, msg='covariance')
            mon.close('kalman', nell, nl, rtol=0, atol=atol, msg='nell')


def indefinite(mon, rng, tier):
    """Moments that are slightly outside the moment cone (as approximate conditional moments deliver), before or after the
    prediction: with the stable option the step still yields finite numbers."""
    import jax
    import jax.numpy as jnp
    from mfs.multi_dims.filtering import moment_filter_nd_rms, moment_filter_nd_cms, moment_filter_nd_scms
    from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices, gram_and_hankel_indices_graded_lexico
    for d, n in ((1, 3), (2, 2), (2, 3)):
        order = (generate_graded_lexico_multi_indices(d, 2 * n - 1), gram_and_hankel_indices_graded_lexico(n, d))
        mis = ref.brute_multi_indices(d, 2 * n - 1)
        pos = {m: j for j, m in enumerate(mis)}
        basis = ref.brute_multi_indices(d, n - 1)
        lik = lambda y, x: 1. + .2 * jnp.tanh(y * x[0])
        one = jnp.ones(d)
        fns = {
            'rms': jax.jit(lambda ms0, pred, ys: moment_filter_nd_rms((lambda x, w: jnp.broadcast_to(pred, (x.shape[0], len(mis))), 'index'), lik, ys, order, ms0, stable=True)),
            'cms': jax.jit(lambda ms0, pred, ys: moment_filter_nd_cms((lambda x, w, c: jnp.broadcast_to(pred, (x.shape[0], len(mis))), 'index'), lambda x: 0 * x, lik, ys, order, ms0, 0 * one, stable=True)),
            'scms': jax.jit(lambda ms0, pred, ys: moment_filter_nd_scms((lambda x, w, c, s: jnp.broadcast_to(pred, (x.shape[0], len(mis))), 'index'), lambda x: (0 * x, 0 * x + 1.), lik, ys, order, ms0, 0 * one, one, stable=True))}
        for rep in range(4 if tier == 'quick' else 40):
            good = ref.gaussian_nd_moments(np.zeros(d), ref.spd(rng, d, .5, 1.5), d, n, 'central')[0]
            bad = good.copy()
            G = np.array([[bad[pos[tuple(np.add(a, b))]] for b in basis] for a in basis])
            pivot = G[-1, -1] - G[-1, :-1] @ np.linalg.solve(G[:-1, :-1], G[:-1, -1])
            bad[pos[tuple(np.multiply(basis[-1], 2))]] -= pivot * (1 + 10. ** rng.uniform(-4, -1.5))
            ys = rng.normal(size=1)
            for where, (a, b) in {'prior': (bad, good), 'prediction': (good, bad)}.items():
                mon.case(d=d, n=n, where=where, ms=bad, ys=ys)
                for name, f in fns.items():
                    out = f(jnp.asarray(a), jnp.asarray(b), jnp.asarray(ys))
                    mon.saw('moment_filter_nd_' + name)
                    mon.true('stable-finite', all(np.all(np.isfinite(np.asarray(v))) for v in out), f'{name} not finite, indefinite {where}', out=out)
