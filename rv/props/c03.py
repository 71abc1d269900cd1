"""C03: raw, central and scaled filters, plain or stable, in any affine units, describe the same posterior."""
import itertools

import numpy as np

from rv import gen, ref
from rv.props.c02 import TRS, LKS, make_filter, draw_params, _absm

RULE = ('Random models (transition x likelihood x prior x parameters), N = 2..7, T up to 90: every pair of representation '
        'and stable flag is run on the same record, results are mapped to central moments and compared; then the state is '
        're-expressed as a X + b (a of either sign, over eight decades, and the likelihood multiplied by a constant) and the results must map accordingly.  Non-trivial: '
        'T >= 2 and the prior has at least N points of support; distinct by parameters, prior and record.')
ASSUMPTIONS = ['float64', 'tolerance is a multiple of the disagreement of a double-precision reference between modes']
MUST_RUN = ['modes-moments', 'modes-nell', 'stable-moments', 'units-moments', 'units-nell']


def tasks(tier):
    ns = (2, 3, 4, 5) if tier == 'quick' else (2, 3, 4, 5, 6)
    trs = [t for t in TRS if t != 'det']
    out = []
    for i, (n, tr) in enumerate(itertools.product(ns, trs)):
        lks = [LKS[i % len(LKS)]] if tier == 'quick' else LKS
        for lk in lks:
            out.append((f'N{n}-{tr}-{lk}', run, dict(n=n, tr=tr, lk=lk)))
    for i, (n, tr) in enumerate([(2, 'ar'), (3, 'tanh'), (6, 'ar'), (7, 'skew')]):
        out.append((f'long-N{n}-{tr}' if n < 4 else f'high-N{n}-{tr}', run, dict(n=n, tr=tr, lk=LKS[(i, 2, 0, 3)[i]], T=90 if n < 4 else 4, mild=n > 4)))
    return out


def central(mode, r, m, s):
    """(central moments, means, std) per step."""
    import mpmath as mpm
    cm, mu, sd = [], [], []
    with mpm.workdps(40):
        for k in range(len(r)):
            row = [mpm.mpf(float(v)) for v in np.asarray(r)[k]]
            if mode == 'raw':
                c, mean = ref.shift_moments(row, row[1]), row[1]
            elif mode == 'central':
                c, mean = row, mpm.mpf(float(m[k]))
            else:
                sc = mpm.mpf(float(s[k]))
                c, mean = [v * sc ** j for j, v in enumerate(row)], mpm.mpf(float(m[k]))
            cm.append(ref.f64(c))
            mu.append(float(mean))
            sd.append(np.sqrt(max(float(c[2]), 0.)))
    return np.array(cm), np.array(mu), np.array(sd)


def run(mon, rng, tier, n, tr, lk, T=None, mild=False):
    import jax.numpy as jnp
    M = 2 * n
    modes = ('raw', 'central', 'scaled')
    fns = {(md, st): make_filter(md, tr, lk, st) for md in modes for st in (False, True)}
    afn = {md: make_filter(md, tr, lk, False, affine=True) for md in modes}
    T = T or (10 if tier == 'quick' else 25)
    for rep in range((8 if mild else 4) if tier == 'quick' else 12):
        kind = ['normal', 'mixture', 'bimodal-tight', 'skewed', 'symmetric'][int(rng.integers(5))]
        if mild:
            kind = ['normal', 'mixture', 'symmetric'][int(rng.integers(3))]
        meas = gen.measure_1d(rng, kind, n)
        th = draw_params(rng, tr)
        if mild:
            th[2] = rng.uniform(.4, .8)
        ys = ref.draw_ys(lk, rng, T)
        a, b = float(rng.choice([-1, 1]) * 10. ** rng.uniform(-4, 4)), float(rng.normal())
        c = float(10. ** rng.choice([-60, -12, -6, 0, 6, 40]))
        b_small = b * abs(a)
        init = {md: gen.represent(meas, M, md) for md in modes}
        ainit = {md: gen.represent(gen.affine(meas, b_small, a), M, md) for md in modes}
        try:
            with np.errstate(all='ignore'):
                base = {md: ref.np_filter(md, tr, lk, th, *init[md], ys) for md in modes}
                abase = {md: ref.np_filter(md, tr, lk, th, *ainit[md], ys, aff=(a, b_small)) for md in modes}
        except np.linalg.LinAlgError:
            mon.skip('conditioning')
            continue
        cond = max(v[2] for v in list(base.values()) + list(abase.values()))
        dg = max(v[3] for v in list(base.values()) + list(abase.values()))
        if not (cond < 1e10 and dg < 1e5):
            mon.skip('conditioning')
            continue
        cb = {md: central(md, [o[0] for o in v[0]], [o[1] for o in v[0]], [o[2] for o in v[0]]) for md, v in base.items()}
        ab = {md: central(md, [o[0] for o in v[0]], [o[1] for o in v[0]], [o[2] for o in v[0]]) for md, v in abase.items()}
        sd = cb['central'][2]
        k = np.arange(M)
        sc = np.array([_absm((row,), n) for row in cb['central'][0]])
        err = max(np.max(np.abs(cb[md][0] - cb['central'][0]) / sc) for md in modes)
        err = max(err, max(np.max(np.abs(cb[md][1] - cb['central'][1]) / sd) for md in modes))
        asc = sc * np.abs(a) ** k
        err = max(err, max(np.max(np.abs(ab[md][0] - cb['central'][0] * a ** k) / asc) for md in modes))
        err = max(err, max(abs(v[1] - base['central'][1]) / (1 + abs(v[1])) for v in list(base.values()) + list(abase.values())))
        if not err < 1e-6:
            mon.skip('conditioning')
            continue
        tol = 1e-8 + 500 * err + 3 * ref.EPS * cond + 50 * ref.EPS * dg
        mon.case(n=n, tr=tr, lk=lk, th=th, kind=kind, meas=meas, ys=ys, affine=(a, b_small), factor=c)
        res = {}
        for key, fn in fns.items():
            md = key[0]
            r, m, s, nl = mon.api(fn, jnp.asarray(th), jnp.asarray(init[md][0]), init[md][1], init[md][2], jnp.asarray(ys))
            if not mon.true('finite', np.all(np.isfinite(np.asarray(r))) and np.isfinite(float(nl)), f'{key} not finite', r=r, nell=nl):
                return
            res[key] = (*central(md, np.asarray(r), m, s), float(nl))
        c0, m0, s0, n0 = res['central', False]
        for key in fns:
            if key == ('central', False):
                continue
            tag = 'stable' if key[1] else 'modes'
            cr, m, s, nl = res[key]
            mon.close(f'{tag}-moments', cr / sc, c0 / sc, atol=tol, rtol=0, msg=f'{key} vs central')
            mon.close(f'{tag}-means', m, m0, atol=tol * 10, rtol=0, scale=sd, msg=f'{key} vs central')
            mon.close(f'{tag}-nell', nl, n0, atol=tol, rtol=tol, msg=f'{key} vs central')
        for md in modes:
            th5 = np.concatenate([th, [a, b_small, c]])
            r, m, s, nl = mon.api(afn[md], jnp.asarray(th5), jnp.asarray(ainit[md][0]), ainit[md][1], ainit[md][2], jnp.asarray(ys))
            if not mon.true('finite', np.all(np.isfinite(np.asarray(r))), f'{md} not finite', r=r):
                return
            cu, m, s = central(md, np.asarray(r), m, s)
            mon.close('units-moments', cu / asc, c0 * a ** k / asc, atol=tol, rtol=0, msg=md)
            mon.close('units-means', (m - b_small) / a, m0, atol=10 * tol + 1e-13, rtol=0, msg=md)
            mon.close('units-nell', float(nl) + T * np.log(c), n0, atol=tol + 1e-13 * T * abs(np.log(c)), rtol=tol, msg=md)
