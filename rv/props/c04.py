"""C04: every filter is a causal, restartable, normalised recursion."""
import numpy as np

from rv import ref, zoo

RULE = ('Random problems for every public filter (moment filters 1D/nD in three representations, kf/ekf/sigma-point/'
        'continuous-discrete, brute force, particle).  History operations: change the future of the record, cut it at '
        'every position and restart from the reported state, run it in one go, records of 137 steps in blocks, empty prefix, multiply the likelihood by 2^-60 or 2^60.  Non-trivial: T >= 3 with '
        'a cut strictly inside.')
ASSUMPTIONS = ['float64', 'the moment problem stays well posed along the record (case dropped when the full run is not finite '
               'although a double-precision reference says so)']
MUST_RUN = ['causal', 'restart', 'nell-additive', 'zeroth-moment', 'central-first', 'scaled-second', 'density-normalised', 'likelihood-factor', 'evidence-factor']


def tasks(tier):
    out = [(zoo.name_of(g, i), run, dict(g=g, i=i)) for g, i in zoo.keys() if g != 'smoother']
    out += [('factor-' + zoo.name_of(g, i), factor, dict(g=g, i=i)) for g, i in zoo.keys(['1d', 'nd', 'brute', 'particle'])]
    long = [('1d', 0), ('1d', 2), ('1d', 4), ('nd', 0), ('gauss', 0), ('gauss', 2), ('gauss', 3), ('gauss', 5), ('gauss', 6), ('brute', 1)]
    out += [('long-' + zoo.name_of(g, i), long_record, dict(g=g, i=i)) for g, i in long]
    return out


def run(mon, rng, tier, g, i):
    import jax
    s = zoo.build(g, i)
    f = jax.jit(s.fn) if g != 'particle' else s.fn
    f.__name__ = s.event
    T = 6
    for rep in range(3 if tier == 'quick' else 20):
        th, init, ys = s.draw(rng, T)
        tj, ij = zoo.to_jax(th), zoo.to_jax(init)
        outs, nell = mon.api(f, tj, ij, zoo.to_jax(ys))
        outs = [np.asarray(o) for o in outs]
        if not all(np.all(np.isfinite(o)) for o in outs):
            if g in ('1d', 'nd'):  # ill-posed moment sequence; C02/C08 decide correctness with a reference
                mon.skip('not-finite')
                continue
        mon.case(system=s.name, th=th, init=init, ys=ys)
        mon.true('length', all(o.shape[0] == T for o in outs), 'one output per measurement')
        mon.true('finite', all(np.all(np.isfinite(o)) for o in outs) and (nell is None or np.all(np.isfinite(nell))), 'finite')
        invariants(mon, s, g, outs)
        # causality: the future of the record must not influence the past, in any bit
        k = int(rng.integers(1, T))
        ys2 = ys.copy()
        ys2[k:] = s.draw(rng, T)[2][k:]
        o2, n2 = mon.api(f, tj, ij, zoo.to_jax(ys2))
        for a, b in zip(outs, o2):
            mon.true('causal', np.array_equal(a[:k], np.asarray(b)[:k]), f'outputs before {k} depend on later measurements')
        if nell is not None and np.ndim(nell) == 1:
            mon.true('causal', np.array_equal(np.asarray(nell)[:k], np.asarray(n2)[:k]), 'cumulative nell')
        # the past matters: a different first measurement must be reflected in the last output unless the filter forgot it
        if s.restart is None:
            continue
        cuts = [1, 2, 4, 5] if tier == 'quick' else range(1, T)
        for k in cuts:
            a, na = mon.api(f, tj, ij, zoo.to_jax(ys[:k]))
            b, nb = mon.api(f, tj, zoo.to_jax(s.restart([np.asarray(v) for v in a], k)), zoo.to_jax(ys[k:]))
            for full, p, q in zip(outs, a, b):
                mon.close('restart', np.concatenate([np.asarray(p), np.asarray(q)]), full, rtol=1e-9, atol=1e-11,
                          msg=f'cut at {k}')
            if nell is not None:
                if np.ndim(nell) == 0:
                    mon.close('nell-additive', float(na) + float(nb), float(nell), rtol=1e-9, atol=1e-10, msg=f'cut at {k}')
                else:
                    mon.close('nell-additive', np.concatenate([np.asarray(na), na[-1] + np.asarray(nb)]),
                              np.asarray(nell), rtol=1e-9, atol=1e-10, msg=f'cut at {k}')


def factor(mon, rng, tier, g, i):
    """A likelihood known up to a constant (or in other units of y): same posterior, evidence shifted by its logarithm."""
    import jax
    s = zoo.build(g, i)
    T = 4
    probs = [s.draw(rng, T) for _ in range(2 if tier == 'quick' else 8)]
    run_ = {c: jax.jit(zoo.build(g, i, c).fn) for c in ([1., 2. ** -60, 2. ** 60] if tier == 'quick' else
                                                         [1., 2. ** -200, 2. ** -60, 2. ** -24, 2. ** 24, 2. ** 200])}
    for th, init, ys in probs:
        args = zoo.to_jax(th), zoo.to_jax(init), zoo.to_jax(ys)
        base, nell = run_[1.](*args)
        base = [np.asarray(o) for o in base]
        if not all(np.all(np.isfinite(o)) for o in base):
            mon.skip('not-finite')
            continue
        mon.case(system=s.name, th=th, init=init, ys=ys)
        mon.saw(s.event, len(run_))
        for c, f in run_.items():
            if c == 1.:
                continue
            o, nl = f(*args)
            o = [np.asarray(v) for v in o]
            for a, b in zip(o, base):
                mon.close('likelihood-factor', a, b, rtol=1e-9, atol=1e-12, msg=f'likelihood times {c:.3g}')
            if nell is not None:
                mon.close('evidence-factor', np.asarray(nl) + (T if np.ndim(nl) == 0 else np.arange(1, T + 1)) * np.log(c),
                          np.asarray(nell), rtol=1e-10, atol=1e-9, msg=f'likelihood times {c:.3g}')
            invariants(mon, s, g, o)


def invariants(mon, s, g, outs):
    if g in ('1d', 'nd'):
        ms = outs[0]
        mon.close('zeroth-moment', ms[:, 0], np.ones(len(ms)), rtol=1e-12, atol=1e-12)
        mis = ref.brute_multi_indices(s.d, 2 * s.n - 1)
        for i in range(s.d):
            e1 = tuple(1 if j == i else 0 for j in range(s.d))
            e2 = tuple(2 if j == i else 0 for j in range(s.d))
            if s.mode != 'raw':
                big = np.max(np.abs(ms)) + np.max(np.abs(outs[1]))
                mon.close('central-first', ms[:, mis.index(e1)] / big, np.zeros(len(ms)), atol=1e-9, rtol=0)
            if s.mode == 'scaled':
                mon.close('scaled-second', ms[:, mis.index(e2)], np.ones(len(ms)), atol=1e-9, rtol=0)
                mon.true('scale-positive', np.all(outs[2] > 0), 'scales are positive')
    if g == 'gauss':
        v = outs[1]
        mon.close('covariance-symmetric', v, np.swapaxes(v, 1, 2), rtol=1e-9, atol=1e-12)
        mon.true('covariance-positive', np.all(np.linalg.eigvalsh((v + np.swapaxes(v, 1, 2)) / 2) > -1e-10), 'covariances')
    if g == 'brute':
        mon.close('density-normalised', np.trapz(outs[0], s.xs, axis=1), np.ones(len(outs[0])), rtol=1e-10, atol=1e-10)
        if 'kolmogorov' not in s.name:
            mon.true('density-nonnegative', np.all(outs[0] >= 0), 'negative density')


def long_record(mon, rng, tier, g, i):
    """A record of hundreds of steps: the invariants hold at every step and chaining in uneven blocks equals one run."""
    import jax
    s = zoo.build(g, i)
    f = jax.jit(s.fn)
    f.__name__ = s.event
    for rep in range(2 if tier == 'quick' else 8):
        T = 137 if tier == 'quick' else 513
        th, init, ys = s.draw(rng, T)
        tj = zoo.to_jax(th)
        outs, nell = mon.api(f, tj, zoo.to_jax(init), zoo.to_jax(ys))
        outs = [np.asarray(o) for o in outs]
        if not all(np.all(np.isfinite(o)) for o in outs):
            mon.skip('not-finite')
            continue
        mon.case(system=s.name, T=T, th=th, init=init, ys=ys)
        mon.true('length', all(o.shape[0] == T for o in outs), 'one output per measurement')
        invariants(mon, s, g, outs)
        state, parts, tot, b = init, [], 0., 0
        while b < T:
            n = min(31, T - b)
            o, nl = mon.api(f, tj, zoo.to_jax(state), zoo.to_jax(ys[b:b + n]))
            o = [np.asarray(v) for v in o]
            parts.append(o)
            if nl is not None:
                tot += float(nl if np.ndim(nl) == 0 else nl[-1])
            state = s.restart(o, n)
            b += n
        for j in range(len(outs)):
            mon.close('restart', np.concatenate([p[j] for p in parts]), outs[j], rtol=1e-7, atol=1e-9, msg='in blocks of 31')
        if nell is not None:
            mon.close('nell-additive', tot, float(nell if np.ndim(nell) == 0 else nell[-1]), rtol=1e-9, atol=1e-9, msg='in blocks of 31')
