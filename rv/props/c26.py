"""C26: density approximations match the moments they are built from and are exact where they should be."""
import math

import mpmath as mpm
import numpy as np

from rv import gen, ref

RULE = ('Gram--Charlier (3..9 cumulants), Legendre expansions on arbitrary intervals (2..10 moments), truncated cumulant-generating functions, '
        'saddle-point densities, Fourier pairs and characteristic functions of random mixtures (shifted, scaled over two decades), vector and jit '
        'evaluation.  Oracles: moments of the returned density by exact quadrature, 40-digit series, exact densities in the '
        'Gaussian / polynomial / band-limited cases.  Non-trivial: the law is not a centred Gaussian.')
ASSUMPTIONS = ['float64', 'saddle points are demanded where the real root of the saddle equation nearest the standardised argument is well separated']
MUST_RUN = ['gc-moments', 'gc-gaussian', 'gc-series', 'gc-jit', 'leg-moments', 'leg-exact', 'leg-series', 'leg-default', 'cgf', 'cgf-cumulants', 'saddle', 'saddle-gaussian', 'fourier', 'fourier-roundtrip',
            'cf-pdf', 'cf-moments', 'cf-normal', 'pipeline']


def tasks(tier):
    n = 2 if tier == 'quick' else 8
    out = []
    for k in range(n):
        out += [(f'{nm}-{k}', fn, dict(k=k)) for nm, fn in (('gc', gc), ('legendre', leg), ('cgf', cgf), ('saddle', sad), ('fourier', fou))]
    return out


def law(rng, gaussian=False):
    kind = 'normal' if gaussian else ('mixture', 'skewed', 'symmetric')[int(rng.integers(3))]
    return gen.affine(gen.measure_1d(rng, kind), float(rng.normal() * 2), float(10. ** rng.uniform(-1, 1)))


def moments(meas, M):
    raw = ref.mixture_raw_moments(*meas, M)
    c = ref.shift_moments(raw, raw[1])
    return raw, c


def cumulants(c, mean, M):
    """k_1..k_{M-1} from central moments (mp)."""
    k = [None, mean]
    kk = [mpm.mpf(0)] * M
    for n in range(1, M):
        kk[n] = c[n] - sum(mpm.binomial(n - 1, m - 1) * kk[m] * c[n - m] for m in range(1, n))
    return [mean] + kk[2:]


def gc(mon, rng, tier, k):
    import jax
    import jax.numpy as jnp
    from mfs.one_dim.pdf_approximations import gram_charlier
    for rep in range(8 if tier == 'quick' else 40):
        g = rep % 4 == 3
        meas = law(rng, g)
        M = int(rng.integers(4, 11)) if rep else 10
        with mpm.workdps(40):
            raw, c = moments(meas, M)
            ks = ref.f64(cumulants(c, raw[1], M))
            mu, sg = float(raw[1]), float(mpm.sqrt(c[2]))
            z = [float(c[n] / c[2] ** (mpm.mpf(n) / 2)) for n in range(M)]
        mon.case(nontrivial=not g, M=M, mu=mu, sg=sg, k3=float(ks[2]))
        pdf = mon.api(gram_charlier, jnp.asarray(ks))
        x, w = np.polynomial.hermite_e.hermegauss(30)
        w = w / w.sum()
        p = np.asarray(mon.api(pdf, jnp.asarray(mu + sg * x)))
        ratio = p * sg * np.sqrt(2 * np.pi) * np.exp(x ** 2 / 2)
        sc = [float(w @ (np.abs(x) ** n * np.abs(ratio))) for n in range(M)]
        for n in range(M):
            mon.close('gc-moments', float(w @ (x ** n * ratio)), z[n], rtol=1e-7, atol=1e-8, scale=sc[n], msg=f'moment {n} of {M - 1}')
        q = mu + sg * rng.normal(size=6) * 1.5
        got = np.asarray(pdf(jnp.asarray(q)))
        # series with coefficients E[He_j(Z)] / j!
        y = (q - mu) / sg
        tot, big = 0., 0.
        for j in range(M):
            H = np.polynomial.hermite_e.herme2poly([0] * j + [1])
            cj = sum(H[i] * z[i] for i in range(j + 1)) / math.factorial(j)
            bj = sum(abs(H[i] * z[i]) for i in range(j + 1)) / math.factorial(j)
            tot = tot + cj * np.polynomial.polynomial.polyval(y, H)
            big = big + bj * np.polynomial.polynomial.polyval(np.abs(y), np.abs(H))
        base = np.exp(-y ** 2 / 2) / np.sqrt(2 * np.pi) / sg
        mon.close('gc-series', got / base, tot, rtol=1e-9, atol=1e-10, scale=big)
        if g:
            mon.close('gc-gaussian', got, base, rtol=1e-8, atol=1e-10 / sg, scale=base.max())
        if rep % 4 == 0:
            mon.close('gc-jit', np.asarray(jax.jit(lambda c_, q_: gram_charlier(c_)(q_))(jnp.asarray(ks), jnp.asarray(q))), got, rtol=1e-9, atol=1e-11 / sg, scale=np.abs(big * base).max())


def leg(mon, rng, tier, k):
    import jax
    import jax.numpy as jnp
    from mfs.one_dim.pdf_approximations import legendre_poly_expansion
    for rep in range(14 if tier == 'quick' else 60):
        M = int(rng.integers(2, 11)) if rep % 4 else int(rng.integers(8, 17))
        a, b = (-1., 1.) if rep % 4 == 0 else (lambda c, h: (c - h, c + h))(float(rng.normal()), float(rng.uniform(.6, 2.5)))
        exact = rep % 3 == 1
        gx, gw = np.polynomial.legendre.leggauss(60)
        xx, ww = (a + b) / 2 + (b - a) / 2 * gx, gw * (b - a) / 2
        if exact:  # a polynomial density of degree < M is reproduced
            deg = int(rng.integers(0, M))
            co = rng.uniform(-.3, .3, deg + 1) / (deg + 1)
            co[0] = 1.
            f = lambda t: np.polynomial.legendre.legval(t, co) / (b - a)
        else:
            f0 = lambda t: np.exp(1.2 * np.sin(3 * t + k) - t ** 2)
            Z = np.sum(gw * f0(gx))
            f = lambda t: f0(t) / Z * 2 / (b - a)
        p = f(gx)
        rms = np.array([np.sum(ww * p * xx ** n) for n in range(M)])
        mon.case(nontrivial=M > 2, M=M, a=a, b=b, exact=exact, m1=float(rms[1]))
        pdf = mon.api(legendre_poly_expansion, jnp.asarray(rms), a, b)
        got = np.asarray(mon.api(pdf, jnp.asarray(xx)))
        cond = (1 + 2 * max(abs(a), abs(b)) / (b - a)) ** (2 * M)
        if (a, b) == (-1., 1.):
            cond = M * (1 + math.sqrt(2)) ** M
        tol = 1e-14 * cond * 10 + 1e-10
        if tol > 1e-5:
            mon.skip('ill-conditioned')
            continue
        top = max(abs(a), abs(b), 1.)
        for n in range(M):
            mon.close('leg-moments', np.sum(ww * got * (xx / top) ** n), rms[n] / top ** n, rtol=0, atol=tol, msg=f'moment {n} on [{a}, {b}]')
        # projection on polynomials of degree < M
        w = [np.sum(gw * p * (b - a) / 2 * np.polynomial.legendre.legval(gx, [0] * j + [1])) * (2 * j + 1) / 2 for j in range(M)]
        want = np.polynomial.legendre.legval(gx, w) * 2 / (b - a)
        mon.close('leg-series', got, want, rtol=0, atol=tol * 100, scale=1.)
        if exact:
            mon.close('leg-exact', got, p, rtol=0, atol=tol * 100)
        if (a, b) == (-1., 1.):
            mon.close('leg-default', np.asarray(mon.api(mon.api(legendre_poly_expansion, jnp.asarray(rms)), jnp.asarray(xx))), got, rtol=1e-12, atol=1e-12)
        if rep % 5 == 0:
            mon.close('leg-default', np.asarray(jax.jit(lambda r, u, v, t: legendre_poly_expansion(r, u, v)(t))(jnp.asarray(rms), a, b, jnp.asarray(xx))), got, rtol=1e-8, atol=tol, msg='jit')


def cgf(mon, rng, tier, k):
    import jax
    import jax.numpy as jnp
    from mfs.one_dim.pdf_approximations import truncated_cumulant_generating_function as K
    for rep in range(14 if tier == 'quick' else 60):
        meas = law(rng, rep % 5 == 4)
        M = int(rng.integers(2, 10))
        mode = ('raw', 'central', 'scaled')[rep % 3]
        ms, mean, scale = gen.represent(meas, M, mode)
        mon.case(M=M, mode=mode, mean=mean, scale=scale)
        sd = math.sqrt(float(np.sum(meas[0] * (meas[2] + (meas[1] - np.sum(meas[0] * meas[1])) ** 2))))
        args = () if mode == 'raw' else (mean,) if mode == 'central' else (mean, scale)
        mag = sd if mode != 'raw' else sd + abs(float(np.sum(meas[0] * meas[1])))
        for z in np.r_[rng.uniform(-.6, .6, 3) / mag, 0.]:
            with mpm.workdps(40):
                S = sum((mpm.mpf(z) * scale) ** n * mpm.mpf(ms[n]) / mpm.factorial(n) for n in range(M))
                if S < .05:
                    mon.skip('log-argument')
                    continue
                want = float(mpm.mpf(z) * mean + mpm.log(S))
            mon.close('cgf', float(mon.api(K, float(z), jnp.asarray(ms), *args)), want, rtol=1e-10, atol=1e-11, msg=mode)
        with mpm.workdps(40):
            raw, c = moments(meas, max(M, 3))
            ks = cumulants(c, raw[1], max(M, 3))
        fn = lambda z: K(z, jnp.asarray(ms), *args)
        for n in range(1, min(M, 5)):
            fn = jax.grad(fn)
            want = float(ks[n - 1])
            mon.close('cgf-cumulants', float(mon.api(fn, 0.)) / mag ** n, want / mag ** n, rtol=1e-8, atol=1e-8, msg=f'cumulant {n}, {mode}')


def sad(mon, rng, tier, k):
    import jax.numpy as jnp
    from mfs.one_dim.pdf_approximations import saddle_point
    for rep in range(8 if tier == 'quick' else 40):
        g = rep % 3 == 2
        meas = law(rng, g)
        M = int(rng.integers(4, 11)) if not g else 11
        sms, mean, scale = gen.represent(meas, M, 'scaled')
        sd = math.sqrt(float(np.sum(meas[0] * (meas[2] + (meas[1] - np.sum(meas[0] * meas[1])) ** 2))))
        mon.case(nontrivial=not g, M=M, mean=mean, scale=scale, s3=float(sms[3]))
        pdf = mon.api(saddle_point, jnp.asarray(sms), mean, scale)
        xs = mean + sd * np.r_[rng.uniform(-1.2, 1.2, 4), 0.]
        got = np.asarray(mon.api(pdf, jnp.asarray(xs)))
        if got.shape != (5,):
            mon.true('saddle', False, f'shape {got.shape}')
            continue
        for x, p in zip(xs, got):
            with mpm.workdps(40):
                P = [mpm.mpf(sms[n]) / mpm.factorial(n) for n in range(M)]  # ascending, in u = s * scale
                dP = [n * P[n] for n in range(1, M)]
                eq = [(mpm.mpf(mean) - mpm.mpf(x)) * P[n] + scale * (dP[n] if n < M - 1 else 0) for n in range(M)]
                while abs(eq[-1]) < mpm.mpf(10) ** -30:
                    eq.pop()
                try:
                    roots = mpm.polyroots(eq[::-1], maxsteps=500, extraprec=400)
                except mpm.libmp.NoConvergence:
                    mon.skip('roots')
                    continue
                u0 = (mpm.mpf(x) - mean) / scale
                real = sorted([mpm.re(r) for r in roots if abs(mpm.im(r)) < mpm.mpf(10) ** -15], key=lambda r: abs(r - u0))
                near = [r for r in roots if abs(mpm.im(r)) >= mpm.mpf(10) ** -15 and abs(mpm.im(r)) < 1e-3]
                if not real or near or (len(real) > 1 and abs(real[1] - u0) < 1.05 * abs(real[0] - u0) + 1e-3):
                    mon.skip('ambiguous-root')
                    continue
                u = real[0]
                S, S1, S2 = mpm.polyval(P[::-1], u), mpm.polyval(dP[::-1], u), mpm.polyval([n * dP[n] for n in range(1, M - 1)][::-1], u)
                K2 = scale ** 2 * (S2 / S - (S1 / S) ** 2)
                if S < 1e-3 or K2 < 1e-2 * scale ** 2:
                    mon.skip('singular-saddle')
                    continue
                want = float(mpm.exp(u / scale * mean + mpm.log(S) - u / scale * x) / mpm.sqrt(2 * mpm.pi * K2))
            mon.close('saddle', float(p) * scale, want * scale, rtol=1e-6, atol=1e-8, msg=f'x = {x}')
            if g and abs(x - mean) < .8 * sd:
                mon.close('saddle-gaussian', float(p) * sd, math.exp(-.5 * ((x - mean) / sd) ** 2) / math.sqrt(2 * math.pi), rtol=0, atol=2e-3)


def fou(mon, rng, tier, k):
    import jax
    import jax.numpy as jnp
    from mfs.one_dim.moments import characteristic_fn, characteristic_from_pdf, sms_to_cumulants
    from mfs.one_dim.pdf_approximations import gram_charlier, inverse_fourier
    for rep in range(8 if tier == 'quick' else 40):
        ws, mus, vs = law(rng)
        mean = float(np.sum(ws * mus))
        sd = math.sqrt(float(np.sum(ws * (vs + (mus - mean) ** 2))))
        smin = math.sqrt(vs.min())
        mon.case(mean=mean, sd=sd, n=len(ws))
        cf = lambda z: np.sum(ws * np.exp(1j * np.asarray(z)[..., None] * mus - .5 * vs * np.asarray(z)[..., None] ** 2), -1)
        pdf = lambda x: np.sum(ws * np.exp(-.5 * (x[:, None] - mus) ** 2 / vs) / np.sqrt(2 * np.pi * vs), -1)
        Z = 8.5 / smin
        n = int(Z * (abs(mean) + 8 * sd) * 2) + 400
        zs = np.linspace(-Z, Z, n)
        if rep % 2:  # uneven grid, refined around zero
            t = np.linspace(-1, 1, 8 * n + 1)
            zs = Z * (t + .3 * np.sin(np.pi * t) / np.pi)
        x = mean + sd * rng.uniform(-2, 2, 5)
        got = np.array([float(mon.api(inverse_fourier, float(q), jnp.asarray(cf(zs)), jnp.asarray(zs))) for q in x])
        mon.close('fourier', got * sd, pdf(x) * sd, rtol=0, atol=2e-3 if rep % 2 else 1e-9)
        got2 = np.asarray(jax.jit(jax.vmap(inverse_fourier, in_axes=[0, None, None]))(jnp.asarray(x), jnp.asarray(cf(zs)), jnp.asarray(zs)))
        mon.close('fourier', got2 * sd, got * sd, rtol=0, atol=1e-10)
        xs = np.linspace(mean - 9 * sd, mean + 9 * sd, int(18 * sd / smin * 8) + 100)
        zz = rng.uniform(-2, 2, 5) / sd
        g = np.array([complex(mon.api(characteristic_from_pdf, float(z), jnp.asarray(pdf(xs)), jnp.asarray(xs))) for z in zz])
        mon.true('cf-pdf', np.max(np.abs(g - cf(zz))) < 1e-8, f'{g} against {cf(zz)}')
        cfz = jax.vmap(characteristic_from_pdf, in_axes=[0, None, None])(jnp.asarray(zs if rep % 2 == 0 else np.linspace(-Z, Z, n)), jnp.asarray(pdf(xs)), jnp.asarray(xs))
        back = float(inverse_fourier(float(x[0]), cfz, jnp.asarray(zs if rep % 2 == 0 else np.linspace(-Z, Z, n))))
        mon.close('fourier-roundtrip', back * sd, float(pdf(x[:1])[0]) * sd, rtol=0, atol=1e-6)
        # from moments: derivatives at zero, exactness for few atoms, convergence for the Normal
        N = int(rng.integers(2, 6))
        at = gen.affine(gen.measure_1d(rng, 'atoms', n_atoms=N), float(rng.normal()), float(10. ** rng.uniform(-.5, .5)))
        mode = ('raw', 'central', 'scaled')[rep % 3]
        ms, m_, s_ = gen.represent(at, 2 * N, mode)
        args = () if mode == 'raw' else (m_,) if mode == 'central' else (m_, s_)
        asd = float(np.sqrt(np.sum(at[0] * (at[1] - np.sum(at[0] * at[1])) ** 2)))
        for z in rng.uniform(-3, 3, 3) / asd:
            got = complex(mon.api(characteristic_fn, float(z), jnp.asarray(ms), *args))
            want = complex(np.sum(at[0] * np.exp(1j * z * at[1])))
            tol = 1e-12 * ref.hankel_cond(ms, N) ** 1. + 1e-8
            if tol > 1e-4:
                mon.skip('ill-conditioned')
                continue
            mon.true('cf-moments', abs(got - want) < tol, f'{mode}, N = {N}: {got} against {want}')
        sms, m_, s_ = gen.represent((np.array([1.]), np.array([mean]), np.array([sd ** 2])), 14, 'scaled')
        for z in rng.uniform(-1.5, 1.5, 3) / sd:
            got = complex(mon.api(characteristic_fn, float(z), jnp.asarray(sms), m_, s_))
            mon.true('cf-normal', abs(got - np.exp(1j * z * mean - .5 * (sd * z) ** 2)) < 2e-4, f'{got}')
        # moments -> cumulants -> density
        sms, m_, s_ = gen.represent((ws, mus, vs), 8, 'scaled')
        q = np.asarray(mon.api(gram_charlier(mon.api(sms_to_cumulants, jnp.asarray(sms), m_, s_)), jnp.asarray(mean + sd * np.polynomial.hermite_e.hermegauss(20)[0])))
        y, w = np.polynomial.hermite_e.hermegauss(20)
        r = q * sd * np.exp(y ** 2 / 2)
        for n_ in range(8):
            mon.close('pipeline', float(w @ (y ** n_ * r)), float(sms[n_] * (s_ / sd) ** n_), rtol=1e-8, atol=1e-8, scale=float(w @ (np.abs(y) ** n_ * np.abs(r))))
