"""C01: the 1D moment quadrature is the Gauss rule of the supplied moments."""
import numpy as np

from rv import gen, ref

RULE = ('Seeded probability measures (atoms, more atoms than nodes, Gaussian mixtures, tight bimodal, skewed, symmetric) '
        'under random affine maps over six decades, in raw / central / scaled representation, N = 1..20, all flag '
        'combinations, eager and jitted.  A case is non-trivial when the measure has at least N points of support, so '
        'that the N-point rule is determined by the moments; distinct by its moment vector.')
ASSUMPTIONS = ['float64', 'accuracy is demanded up to a multiple of the error of a textbook double-precision solver on '
               'the same case; cases where that error exceeds 1e-5 are counted as out of numerical reach']
MUST_RUN = ['weights-nonnegative', 'weights-sum', 'reproduce-moments', 'nodes-vs-mp', 'weights-vs-mp', 'small-weights', 'sorted',
            'ldl-agrees', 'ldl-finite', 'characteristic', 'affine']

KINDS = ['atoms', 'many-atoms', 'normal', 'mixture', 'bimodal-tight', 'skewed', 'symmetric']


def tasks(tier):
    ns = [*range(1, 9), 9, 10, 12, 15, 18, 20] if tier == 'quick' else [*range(1, 21), 22, 25]
    out = [(f'gauss-N{n}', run, dict(n=n)) for n in ns]
    out += [(f'indefinite-N{n}', indefinite, dict(n=n)) for n in range(2, 7)]
    return out


def _observe(mon, fns, ms, mean, scale, n, mode, flags, meas):
    import mpmath as mpm
    import jax.numpy as jnp
    sort, ldl = flags
    w, x = mon.api(fns[flags], jnp.asarray(ms), mean, scale)
    w, x = np.asarray(w), np.asarray(x)
    return w, x


def run(mon, rng, tier, n):
    import functools
    import jax
    import jax.numpy as jnp
    import mpmath as mpm
    from mfs.one_dim.quadtures import moment_quadrature
    from mfs.one_dim.moments import characteristic_fn

    fns = {}
    for sort in (False, True):
        for ldl in (False, True):
            fns[sort, ldl] = jax.jit(functools.partial(moment_quadrature, sort_nodes=sort, ldl=ldl))
    cf = jax.jit(characteristic_fn)
    reps = 24 if tier == 'quick' else 60
    if n > 8:
        reps //= 4
    M = 2 * n
    for rep in range(reps):
        for kind in KINDS if n <= 10 else ['normal', 'mixture', 'symmetric', 'skewed']:
            base = gen.measure_1d(rng, kind, n)
            # location and spread: mostly O(1), sometimes extreme
            sc = 10. ** rng.choice([0, 0, 0, -2, 2, -3, 3])
            mode = ['raw', 'central', 'scaled'][rep % 3]
            loc = rng.normal() * sc * (0.5 if mode == 'raw' else 10. ** rng.choice([0, 1, 2]))
            if mode == 'raw':
                loc = rng.normal() * sc * 0.5
            meas = gen.affine(base, loc, sc)
            sf = None if rng.random() < 0.6 else float(rng.uniform(.5, 2.) * sc)
            ms, mean, scale = gen.represent(meas, M, mode, scale=sf)
            support = np.inf if np.any(meas[2] > 0) else len(meas[0])
            if support < n:
                continue
            with mpm.workdps(60):
                try:
                    rw, rx = ref.mp_gauss(ms, n)
                except ArithmeticError:
                    mon.skip('not-positive-definite-in-double')
                    continue
                rw, rx = ref.f64(rw), ref.f64(rx)
            o = np.argsort(rx)
            rw, rx = rw[o], rx[o]
            spread = np.max(np.abs(rx))
            if spread < 1e-12 * sc:
                spread = 1.
            # attainable accuracy: a textbook double-precision solver on the case and on rounding perturbations of it
            amp, ampr = 1e-15, 1e-15
            try:
                for t in range(1 if n <= 8 else 5):
                    bw, bx = ref.np_gauss(ms * (1 + (ref.EPS * rng.normal(size=M) if t else 0.)), n)
                    amp = max(amp, np.max(np.abs(bx - rx)) / spread, np.max(np.abs(bw - rw)))
                    ampr = max(ampr, amp, np.max(np.abs(np.sqrt(bw) - np.sqrt(rw))))
            except np.linalg.LinAlgError:
                mon.skip('conditioning')
                continue
            cond = ref.hankel_cond(ms, n)
            if amp > 1e-5 or (cond > 1e12 and n <= 8):
                mon.skip('conditioning')
                continue
            tol = 1e-10 + 300 * amp + (3 * ref.EPS * cond if n <= 8 else 0.)
            # the weights are squares of eigenvector components, so it is their roots that carry a uniform error
            root = 1e-12 + (300 if n <= 8 else 50) * ampr + (3 * ref.EPS * cond if n <= 8 else 0.)
            mon.case(kind=kind, n=n, mode=mode, ms=ms, mean=mean, scale=scale, nontrivial=support >= n)
            k = np.arange(M)
            absm = np.maximum(np.array([np.sum(rw * np.abs(rx) ** j) for j in k]), 1e-300 if n > 1 else spread)
            tiny = np.array([np.sum((2 * np.sqrt(rw) * root + root ** 2) * np.abs(rx) ** j) for j in k]) / absm if n > 8 else 0.
            got = {}
            for fl in fns:
                w, x = _observe(mon, fns, ms, mean, scale, n, mode, fl, meas)
                mon.true('shape', w.shape == (n,) and x.shape == (n,), 'n weights and n nodes expected', w=w, x=x)
                mon.true('real', np.isrealobj(w) and np.isrealobj(x) and np.all(np.isfinite(w)) and np.all(np.isfinite(x)),
                         'weights and nodes must be real and finite', w=w, x=x)
                mon.true('weights-nonnegative', np.all(w >= -1e-12), 'negative weight', w=w)
                mon.close('weights-sum', w.sum(), 1., atol=tol, rtol=0)
                u = (x - mean) / scale
                # node positions lose digits when |mean| >> spread: that loss is inherent to the returned units
                loss = 4 * ref.EPS * (abs(mean) + spread * scale) / (scale * spread)
                rep_m = np.array([np.sum(w * u ** j) for j in k])
                mon.close('reproduce-moments', rep_m / absm, ms / absm, atol=(tol + loss) * (1 + k) + tiny, rtol=0, msg='moments')
                if fl[0]:
                    mon.true('sorted', np.all(np.diff(x) >= 0), 'nodes not ascending with sort_nodes', x=x)
                o = np.argsort(x)
                mon.close('nodes-vs-mp', u[o] / spread, rx / spread, atol=tol + loss, rtol=0)
                mon.close('weights-vs-mp', w[o], rw, atol=tol + loss * n, rtol=0)
                mon.close('small-weights', np.sqrt(np.maximum(w[o], 0.)), np.sqrt(rw), atol=root + loss * n, rtol=0)
                got[fl] = (w[o], x[o])
            for fl in ((False, True), (True, True), (True, False)):
                tag = 'ldl-agrees' if fl[1] else 'sort-agrees'
                mon.close(tag, got[fl][1] / (scale * spread), got[False, False][1] / (scale * spread), atol=tol + loss, rtol=0)
                mon.close(tag, got[fl][0], got[False, False][0], atol=tol + loss, rtol=0)
            # the characteristic function of the rule
            z = float(rng.uniform(-3, 3) / (scale * spread))
            phi = complex(mon.api(cf, z, jnp.asarray(ms), mean, scale))
            xx = rx * scale + mean
            want = np.sum(rw * np.exp(1j * z * xx))
            mon.close('characteristic', np.array([phi.real, phi.imag]), np.array([want.real, want.imag]),
                      atol=20 * tol + abs(z) * 1e-13 * (abs(mean) + 1), rtol=0)
            # affine equivariance of the representation: scaled moments with another mean/scale shift the nodes only
            a, b = float(rng.uniform(.3, 3)), float(rng.normal())
            if mode == 'scaled':
                w2, x2 = mon.api(fns[True, False], jnp.asarray(ms), b, a)
                mon.close('affine', (np.asarray(x2) - b) / a / spread, rx / spread, atol=tol + 1e-14 * (1 + abs(b) / a), rtol=0)
                mon.close('affine', np.asarray(w2), rw, atol=tol, rtol=0)
    if n > 8:
        return
    # eager call, default arguments
    meas = gen.measure_1d(rng, 'mixture', n)
    ms, _, _ = gen.represent(meas, M, 'raw')
    w, x = mon.api(moment_quadrature, jnp.asarray(ms))
    mon.case(eager=True, n=n, ms=ms)
    bw, bx = ref.np_gauss(ms, n)
    mon.close('eager', np.sort(np.asarray(x)), bx, rtol=1e-6)


def indefinite(mon, rng, tier, n):
    """With ldl, sequences slightly outside the moment cone still give a probability rule with finite nodes."""
    import functools
    import jax
    import jax.numpy as jnp
    from mfs.one_dim.quadtures import moment_quadrature
    fn = jax.jit(functools.partial(moment_quadrature, ldl=True))
    for rep in range(20 if tier == 'quick' else 200):
        meas = gen.measure_1d(rng, 'atoms', max(1, n - 1))
        ms, mean, scale = gen.represent(meas, 2 * n, 'central')
        eps = 10. ** rng.uniform(-9, -2)
        ms = ms * (1 + eps * np.where(np.arange(2 * n) >= 2, rng.normal(size=2 * n), 0.))
        i = np.arange(n)
        ev = np.linalg.eigvalsh(ms[i[:, None] + i[None, :]])
        mon.case(nontrivial=bool(ev[0] < 0), n=n, ms=ms, min_eig=float(ev[0]))
        w, x = mon.api(fn, jnp.asarray(ms), mean, 1.)
        w, x = np.asarray(w), np.asarray(x)
        mon.true('ldl-finite', np.all(np.isfinite(w)) and np.all(np.isfinite(x)), 'not finite', w=w, x=x)
        mon.true('weights-nonnegative', np.all(w >= -1e-12), 'negative weight', w=w)
        mon.close('weights-sum', w.sum(), 1., atol=1e-8, rtol=0)
