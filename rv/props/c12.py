"""C12: converting and extracting moments preserves the law they describe."""
import math

import mpmath as mpm
import numpy as np

from rv import gen, ref

RULE = ('Moments of random laws (atoms, mixtures, Gaussians; means of either sign, zero mean, scales over two decades), 2..12 '
        'moments, converted raw/central/scaled/cumulants in every direction, plainly, under jit and under vmap; joint moments '
        'of random d-dimensional laws (d = 1..4), with 0..2 leading batch axes, NumPy and JAX.  Oracle: 50-digit arithmetic.  '
        'Non-trivial: at least 3 moments.')
ASSUMPTIONS = ['float64', 'tolerance relative to the sum of absolute terms of the binomial expansion']
MUST_RUN = ['raw-to-central', 'central-to-raw', 'raw-to-scaled', 'scaled-to-central', 'cumulants', 'round-trip', 'vmap', 'jit',
            'extract', 'extract-mean', 'extract-cov', 'marginalise']
KINDS = ['atoms', 'many-atoms', 'normal', 'mixture', 'bimodal-tight', 'skewed', 'symmetric']


def tasks(tier):
    return [(f'convert-{k}', conv, dict(kind=k)) for k in KINDS] + [(f'joint-d{d}', joint, dict(d=d)) for d in (1, 2, 3, 4)]


def absbin(ms, c):
    return np.array([sum(math.comb(n, j) * abs(ms[j]) * abs(c) ** (n - j) for j in range(n + 1)) for n in range(len(ms))])


def cumulants(raw):
    """k_1.. from raw moments by the standard recursion (any number type)."""
    k = [None]
    for n in range(1, len(raw)):
        k.append(raw[n] - sum(math.comb(n - 1, m - 1) * k[m] * raw[n - m] for m in range(1, n)))
    return k[1:]


def conv(mon, rng, tier, kind):
    import jax
    import jax.numpy as jnp
    from mfs.one_dim.moments import raw_to_central, central_to_raw, raw_to_scaled, scaled_to_central, sms_to_cumulants
    for M in ((2, 3, 4, 5, 6, 8, 11, 12, 20, 36, 40) if tier == 'quick' else [*range(2, 17), 20, 24, 30, 34, 35, 36, 38, 40, 50]):
        jits = [jax.jit(f) for f in (raw_to_central, central_to_raw, raw_to_scaled, scaled_to_central)]
        batch = []
        for rep in range((4 if M <= 12 else 2) if tier == 'quick' else 25):
            meas = gen.measure_1d(rng, kind, n_atoms=3)
            sc = float(10. ** rng.uniform(-1, 1) if rep % 2 == 0 else 10. ** rng.uniform(-5, 5))
            meas = gen.affine(meas, 0. if rep == 0 else float(rng.normal() * 2) * sc, sc)
            if rep == 0:
                ws, mus, vs = meas
                meas = (ws, mus - np.sum(ws * mus), vs)
            with mpm.workdps(60):
                rawx = ref.mixture_raw_moments(*meas, M)
                raw = ref.f64(rawx)
                rawq = [mpm.mpf(float(v)) for v in raw]
                cenx = ref.shift_moments(rawq, rawq[1])
                cen = ref.f64(cenx)
            mon.case(kind=kind, M=M, raw=raw, nontrivial=M > 2)
            mean = raw[1]
            typ = (np.sqrt(np.sum(meas[0] * (meas[2] + meas[1] ** 2)) / np.sum(meas[0])) + 1e-6 * sc) ** np.arange(M)
            big = absbin(raw, mean) + typ
            got = np.asarray(mon.api(raw_to_central, jnp.asarray(raw)))
            mon.close('raw-to-central', got / big, cen / big, rtol=0, atol=1e-13)
            mon.close('jit', np.asarray(jits[0](jnp.asarray(raw))) / big, cen / big, rtol=0, atol=1e-13)
            batch.append((raw, got, big))
            # a location unrelated to the law: moments about an arbitrary point
            c = float(rng.normal() * sc)
            with mpm.workdps(60):
                r2 = ref.f64(ref.shift_moments([mpm.mpf(float(v)) for v in cen], -mpm.mpf(c)))
            b2 = absbin(cen, c) + typ
            mon.close('central-to-raw', np.asarray(mon.api(central_to_raw, jnp.asarray(cen), c)) / b2, r2 / b2, rtol=0, atol=1e-13)
            mon.close('jit', np.asarray(jits[1](jnp.asarray(cen), c)) / b2, r2 / b2, rtol=0, atol=1e-13)
            back = np.asarray(mon.api(central_to_raw, jnp.asarray(got), mean))
            bb = absbin(big, mean)
            mon.close('round-trip', back / bb, raw / bb, rtol=0, atol=1e-12)
            s = float(10. ** rng.uniform(-1, 1)) * sc
            p = s ** np.arange(M)
            mon.close('raw-to-scaled', np.asarray(mon.api(raw_to_scaled, jnp.asarray(raw), s)) * p / big, cen / big, rtol=0, atol=1e-12, msg='given scale')
            if M > 2 and cen[2] > 1e-6 * raw[2]:
                sd = np.sqrt(cen[2])
                p = sd ** np.arange(M)
                slack = 1e-12 * (1 + raw[2] / cen[2]) * M
                for nm, fn in (('raw-to-scaled', raw_to_scaled), ('jit', jits[2])):
                    mon.close(nm, np.asarray(mon.api(fn, jnp.asarray(raw))) * p / big, cen / big, rtol=0, atol=slack, msg='default scale')
                mon.close('raw-to-scaled', float(raw_to_scaled(jnp.asarray(raw))[2]), 1., rtol=0, atol=slack * 10 * raw[2] / cen[2], msg='second scaled moment')
            sms = cen / s ** np.arange(M)
            mon.close('scaled-to-central', np.asarray(mon.api(scaled_to_central, jnp.asarray(sms), s)) / big, cen / big, rtol=0, atol=1e-13)
            mon.close('jit', np.asarray(jits[3](jnp.asarray(sms), s)) / big, cen / big, rtol=0, atol=1e-13)
            # cumulants: about an arbitrary reported mean; k_1 is the mean, the others come from the central moments
            if M <= 8 and rep < (2 if M > 6 else 4):
                with mpm.workdps(60):
                    cz = [mpm.mpf(1), mpm.mpf(0)] + [mpm.mpf(float(v)) for v in cen[2:]]
                    kx = ref.f64(cumulants(cz))
                kabs = np.abs(ref.f64([cumulants_abs(np.abs(cen), n) for n in range(1, M)])) + 1e-300
                s0 = np.r_[1., 0., sms[2:]]
                for mu in (mean, 0., -3.5):
                    got_k = np.asarray(mon.api(sms_to_cumulants, jnp.asarray(s0), mu, s))
                    want = np.r_[mu, kx[1:]]
                    kk = np.r_[max(abs(mu), 1e-300), kabs[1:]]
                    mon.close('cumulants', got_k / kk, want / kk, rtol=0, atol=1e-12)
        got = np.asarray(mon.api(jax.vmap(raw_to_central), jnp.asarray([b[0] for b in batch])))
        for g, (_, w, b) in zip(got, batch):
            mon.close('vmap', g / b, w / b, rtol=0, atol=1e-13)


def cumulants_abs(a, n):
    """Sum of absolute terms of the n-th cumulant's partition formula."""
    from functools import lru_cache

    @lru_cache(None)
    def bell(m, k):
        if m == 0 and k == 0:
            return 1.
        if m == 0 or k == 0:
            return 0.
        return sum(math.comb(m - 1, i - 1) * a[i] * bell(m - i, k - 1) for i in range(1, m - k + 2))

    return sum(math.factorial(k - 1) * bell(n, k) for k in range(1, n + 1))


def joint(mon, rng, tier, d):
    import jax
    import jax.numpy as jnp
    from mfs.multi_dims.moments import extract_moments, extract_mean, extract_cov, marginalise_moments
    for rep in range(12 if tier == 'quick' else 80):
        N = int(rng.integers(2, {1: 7, 2: 6, 3: 4, 4: 4}[d]))
        if rep == 0 and d < 3:
            N = {1: 140, 2: 20}[d]
        mis = ref.brute_multi_indices(d, 2 * N - 1)
        pos = {m: k for k, m in enumerate(mis)}
        shape = [(), (3,), (2, 3)][rep % 3]
        # moments need not be those of a law for bookkeeping: random numbers identify entries unambiguously
        ms = rng.normal(size=shape + (len(mis),))
        arr = ms if rep % 2 else jnp.asarray(ms)
        mon.case(d=d, N=N, shape=shape, jax=rep % 2 == 0, rep=rep, head=ms.ravel()[:3])
        for q in [0, len(mis) - 1] + list(rng.integers(len(mis), size=6)):
            m = mis[q]
            for mi in (m, np.array(m), list(m)):
                mon.close('extract', mon.api(extract_moments, arr, mi), ms[..., q], rtol=0, atol=0.5e-300, msg=f'multi-index {m}')
        e = np.eye(d, dtype=int)
        want = np.stack([ms[..., pos[tuple(e[i])]] for i in range(d)], axis=-1)
        mon.close('extract-mean', mon.api(extract_mean, arr, d), want, rtol=0, atol=1e-300)
        want = np.stack([np.stack([ms[..., pos[tuple(e[i] + e[j])]] for j in range(d)], axis=-1) for i in range(d)], axis=-2)
        mon.close('extract-cov', mon.api(extract_cov, arr, d), want, rtol=0, atol=1e-300)
        for ax in range(d):
            want = np.stack([ms[..., pos[tuple(e[ax] * k)]] for k in range(2 * N)], axis=-1)
            mon.close('marginalise', mon.api(marginalise_moments, arr, d, N, ax), want, rtol=0, atol=1e-300)
            if rep % 4 == 0:
                mon.close('marginalise', jax.jit(lambda a: marginalise_moments(a, d, N, ax))(jnp.asarray(ms)), want, rtol=0, atol=1e-300)
                low = N - 1  # a lower degree of the same record is a prefix
                if low >= 1:
                    mon.close('marginalise', mon.api(marginalise_moments, arr, d, low, ax), want[..., :2 * low], rtol=0, atol=1e-300)
    # the marginal of a joint law: Gaussian mixture moments vs one-dimensional mixture
    for rep in range(4 if tier == 'quick' else 20):
        N = 2 if d > 2 else 3
        k = int(rng.integers(1, 4))
        ws, mus, covs = rng.dirichlet(np.ones(k)), rng.normal(size=(k, d)), np.array([ref.spd(rng, d) for _ in range(k)])
        ms, _, _ = ref.mixture_nd_moments(ws, mus, covs, d, N, 'raw')
        mon.case(ws=ws, mus=mus, covs=covs)
        for ax in range(d):
            with mpm.workdps(30):
                want = ref.f64(ref.mixture_raw_moments(ws, mus[:, ax], covs[:, ax, ax], 2 * N))
            mon.close('marginalise', mon.api(marginalise_moments, jnp.asarray(ms), d, N, ax), want, rtol=1e-11, atol=1e-11)
