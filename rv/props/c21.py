"""C21: particle filters are correctly weighted, randomise with independent keys, and converge to the posterior."""
import numpy as np

RULE = ('Random state-space models (dx = 1..3, Gaussian / Student / bounded-support likelihoods, likelihood values over many decades), '
        '1..400 particles, T = 1..12, 130..160 and 3000..3500, three resamplers and continuous resampling, random proposals.  The user callbacks are instrumented: every '
        'key, sample array, weight and selection passes through a recorder and an offline checker replays the trace.  Statistical '
        'oracles compare thousands of particles with the exact linear-Gaussian posterior and check that exp(-nell) estimates p(y) '
        'without bias.  Non-trivial: T >= 2 and at least two particles.')
ASSUMPTIONS = ['float64', 'statistical oracles have a false-alarm probability below 1e-6 per run']
MUST_RUN = ['init', 'transition-input', 'likelihood-at', 'weights', 'selection', 'nell', 'keys-distinct', 'keys-derived', 'support', 'shape', 'same-key', 'other-key',
            'cont-strata', 'posterior-mean', 'posterior-var', 'evidence-unbiased', 'chain', 'step-independence']


def tasks(tier):
    out = [(f'{f}-{r}-{k}', trace, dict(filt=f, res=r, k=k)) for f in ('bootstrap', 'particle') for r in ('systematic', 'stratified', 'multinomial')
           for k in range(1 if tier == 'quick' else 4)]
    out += [(f'continuous-{k}', trace, dict(filt='bootstrap', res='continuous', k=k)) for k in range(1 if tier == 'quick' else 4)]
    out += [(f'posterior-{f}-{k}', posterior, dict(filt=f, k=k)) for f in ('bootstrap', 'particle', 'continuous') for k in range(2 if tier == 'quick' else 8)]
    out += [(f'evidence-{k}', evidence, dict(k=k)) for k in range(2 if tier == 'quick' else 6)]
    out += [('independence', independence, {})]
    return out


class Rec:
    """Recorder of callback events; ordered host callbacks keep program order."""

    def __init__(self):
        self.ev = []

    def put(self, kind, *arrs):
        import jax
        from jax.experimental import io_callback
        import jax.numpy as jnp

        def f(*a):
            self.ev.append((kind, [np.array(x) for x in a]))
            return np.zeros((), np.int32)

        # ordered=True keeps the trace in program order, also inside lax.scan
        io_callback(f, jax.ShapeDtypeStruct((), jnp.int32), *arrs, ordered=True)


def make(rng, dx, lik):
    """A model given as traceable functions on (n, dx) arrays (or (n,) when dx == 0)."""
    import jax
    import jax.numpy as jnp
    d = max(dx, 1)
    A, q = jnp.asarray(rng.normal(size=(d, d)) * 0.6), float(rng.uniform(0.2, 1.))
    c = jnp.asarray(rng.uniform(.5, 1.5, d) * rng.choice([-1., 1.], d))
    lev = float(10. ** rng.uniform(-30, 5))
    s = float(rng.uniform(0.3, 1.5))
    am = float(rng.uniform(-.5, .5))

    def lift(x):
        return x[:, None] if dx == 0 else x

    def low(x):
        return x[:, 0] if dx == 0 else x

    def mean(x):
        return jnp.tanh(lift(x) @ A.T) + am * lift(x)

    def sample(x, key):
        return low(mean(x) + q * jax.random.normal(key, lift(x).shape))

    def tdens(xt, xs):
        z = (lift(xt) - mean(xs)) / q
        return jnp.exp(-0.5 * jnp.sum(z ** 2, -1)) / (np.sqrt(2 * np.pi) * q) ** d

    def pdf(y, x):
        r = (y - lift(x) @ c) / s
        if lik == 'gauss':
            return lev * jnp.exp(-0.5 * r ** 2)
        if lik == 'cauchy':
            return lev / (1 + r ** 2)
        return jnp.where(jnp.abs(r) < 3., lev * (1 - jnp.abs(r) / 3.), 0.)  # bounded support

    g, qp = float(rng.uniform(0, .4)), q * float(rng.uniform(1., 1.6))

    def pmean(x, y):
        m = mean(x)
        return m + g * (y - m @ c)[:, None] * c / jnp.sum(c ** 2)

    def prop(x, y, key):
        return low(pmean(x, y) + qp * jax.random.normal(key, lift(x).shape))

    def pdens(xt, xs, y):
        z = (lift(xt) - pmean(xs, y)) / qp
        return jnp.exp(-0.5 * jnp.sum(z ** 2, -1)) / (np.sqrt(2 * np.pi) * qp) ** d

    def init(key, n):
        return low(jax.random.normal(key, (n, d)) * 0.8 + 0.3)

    return init, sample, tdens, pdf, prop, pdens


def trace(mon, rng, tier, filt, res, k):
    import jax
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers import resampling
    from mfs.classical_filters_smoothers.smc import bootstrap_filter, particle_filter
    from rv.props.c20 import cdf_bounds
    for rep in range(14 if tier == 'quick' else 60):
        dx = 0 if res == 'continuous' else int(rng.integers(0, 4))
        lik = ('gauss', 'cauchy', 'bounded')[rep % 3]
        n = int(rng.choice([1, 2, 3, 10, 50, 400]))
        if lik == 'bounded':
            n = max(n, 50)
        T = int(rng.choice([1, 2, 3, 5, 12]))
        if rep % 14 == 7:  # a long record
            T, n = int(rng.integers(130, 160)), max(min(n, 10), 50 if lik == 'bounded' else 2)
        init, sample, tdens, pdf, prop, pdens = make(rng, dx, lik)
        ys = rng.normal(size=T) * 0.7
        rec = Rec()

        def r_init(key, m):
            x = init(key, m)
            rec.put('init', key, x, jnp.asarray(m))
            return x

        def r_sample(x, key):
            o = sample(x, key)
            rec.put('move', key, x, o)
            return o

        def r_prop(x, y, key):
            o = prop(x, y, key)
            rec.put('move', key, x, o, y)
            return o

        def r_pdf(y, x):
            w = pdf(y, x)
            rec.put('lik', y, x, w)
            return w

        def r_tdens(a, b):
            w = tdens(a, b)
            rec.put('tdens', a, b, w)
            return w

        def r_pdens(a, b, y):
            w = pdens(a, b, y)
            rec.put('pdens', a, b, y, w)
            return w

        def r_res(w, key):
            i = getattr(resampling, res)(w, key)
            rec.put('resample', key, w, i)
            return i

        seed = int(rng.integers(2 ** 31))
        key = jax.random.PRNGKey(seed)
        mon.case(nontrivial=T > 1 and n > 1, n=n, T=T, dx=dx, lik=lik, seed=seed, y0=float(ys[0]))

        def run(key, ys_, i=r_init, s=r_sample, p=r_pdf, td=r_tdens, pr=r_prop, pd=r_pdens, rs=None):
            rs = r_res if rs is None else rs
            if filt == 'bootstrap':
                return bootstrap_filter(s, p, ys_, i, key, n, rs if res != 'continuous' else None, conti_resampling=res == 'continuous')
            return particle_filter(pr, pd, td, p, ys_, i, key, n, rs), None

        out, nell = mon.api(run, key, jnp.asarray(ys))
        out = np.asarray(out)
        jax.effects_barrier()
        ev = rec.ev
        mon.saw('callback', len(ev))
        liks = [e[1] for e in ev if e[0] == 'lik']
        mon.true('shape', out.shape == ((T, n) if dx == 0 else (T, n, dx)) and (np.all(np.isfinite(out)) or any(np.sum(l[2]) == 0 for l in liks)), f'{out.shape}')
        inits = [e[1] for e in ev if e[0] == 'init']
        mon.true('init', len(inits) == 1 and int(inits[0][2]) == n, f'{len(inits)} initial draws')
        moves, sels = [e[1] for e in ev if e[0] == 'move'], [e[1] for e in ev if e[0] == 'resample']
        if not mon.true('chain', len(moves) == T and (res == 'continuous' or len(sels) == T), f'{len(moves)} moves and {len(sels)} selections for T={T}'):
            continue
        keys = [tuple(inits[0][0].ravel())] + [tuple(m[0].ravel()) for m in moves] + [tuple(s[0].ravel()) for s in sels]
        mon.true('keys-distinct', len(set(keys)) == len(keys), 'a random key is used twice', keys=[list(map(int, q)) for q in keys])
        # a user function may split the key it is given: none of its children may be a key handed out elsewhere
        pack = lambda q: (np.asarray(q, np.uint64)[:, 0] << np.uint64(32)) | np.asarray(q, np.uint64)[:, 1]
        for m in ({2, 3, T, T + 1, 2 * T} if T < 100 else {2, T}):
            kids = np.asarray(jax.vmap(lambda q: jax.random.split(q, m))(jnp.asarray(np.array(keys, np.uint32)))).reshape(-1, 2)
            kids = np.r_[kids, np.asarray(jax.vmap(jax.random.split)(jnp.asarray(kids))).reshape(-1, 2)]  # and their children
            mon.true('keys-derived', not np.any(np.isin(pack(np.array(keys)), pack(kids))), f'splitting a key that was handed out (into {m}) yields another key that was handed out')
        if any(np.sum(l[2]) == 0 for l in liks):  # every particle outside the support of the likelihood: undefined
            mon.skip('all-weights-zero')
            continue
        tot = 0.
        for t in range(T):
            src = inits[0][1] if t == 0 else out[t - 1]
            mon.close('transition-input', moves[t][1], src, rtol=1e-12, atol=1e-12, msg=f'step {t}')
            x = moves[t][2]
            if filt == 'particle':
                mon.close('transition-input', moves[t][3], np.asarray(ys[t]), rtol=1e-12, atol=1e-12)
            w = np.asarray(pdf(jnp.asarray(ys[t]), jnp.asarray(x)))
            mon.true('likelihood-at', any(np.allclose(l[0], ys[t]) and l[1].shape == x.shape and np.allclose(l[1], x) for l in liks[t:t + 1] + liks),
                     f'the likelihood was never evaluated at the moved particles of step {t}')
            if filt == 'particle':
                w = w * np.asarray(tdens(jnp.asarray(x), jnp.asarray(src))) / np.asarray(pdens(jnp.asarray(x), jnp.asarray(src), jnp.asarray(ys[t])))
            tot -= np.log(np.mean(w))
            wn = w / w.sum()
            if res == 'continuous':
                o = np.argsort(x)
                s = np.sort(out[t])
                lo, hi = cdf_bounds(x[o], wn[o], s, 1e-9)
                j = np.arange(n)
                mon.true('cont-strata', np.all(hi >= j / n - 1e-9) and np.all(lo <= (j + 1) / n + 1e-9), f'step {t}: outputs are not quantiles of the weighted particles')
                continue
            mon.close('weights', sels[t][1], wn, rtol=1e-10, atol=1e-14, msg=f'weights passed to resampling at step {t}')
            mon.close('selection', out[t], x[sels[t][2]], rtol=1e-13, atol=1e-13, msg=f'step {t}')
            mon.true('support', np.all(wn[sels[t][2]] > 0), 'a particle of zero weight survives')
        if filt == 'bootstrap':
            mon.close('nell', nell, tot, rtol=1e-10, atol=1e-8)
        plain = dict(i=init, s=sample, p=pdf, td=tdens, pr=prop, pd=pdens, rs=getattr(resampling, res) if res != 'continuous' else None)
        again = np.asarray(jax.jit(lambda kk, yy: run(kk, yy, **plain)[0])(key, jnp.asarray(ys)))
        mon.close('same-key', again, out, rtol=1e-9, atol=1e-9, msg='same key, same result, jit or not')
        other = np.asarray(run(jax.random.PRNGKey(seed ^ 12345), jnp.asarray(ys), **plain)[0])
        mon.true('other-key', not np.allclose(other, out), 'another key gives the same particles')


def lgmodel(rng, k):
    a, q, h, r = rng.uniform(-1, 1), rng.uniform(.3, 1.), rng.uniform(.5, 1.5), rng.uniform(.4, 1.)
    m0, p0 = rng.normal() * 0.5, rng.uniform(.3, 1.)
    T = 6
    x = m0 + np.sqrt(p0) * rng.normal()
    ys = []
    for _ in range(T):
        x = a * x + q * rng.normal()
        ys.append(h * x + r * rng.normal())
    ys = np.array(ys)
    m, p, ell = m0, p0, 0.
    ms, ps = [], []
    for y in ys:
        m, p = a * m, a * a * p + q * q
        s = h * h * p + r * r
        ell += -0.5 * (np.log(2 * np.pi * s) + (y - h * m) ** 2 / s)
        g = p * h / s
        m, p = m + g * (y - h * m), p - g * h * p
        ms.append(m), ps.append(p)
    return a, q, h, r, m0, p0, ys, np.array(ms), np.array(ps), ell


def runner(filt, mod, n, res):
    import jax
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers import resampling
    from mfs.classical_filters_smoothers.smc import bootstrap_filter, particle_filter
    a, q, h, r, m0, p0, ys, *_ = mod
    one = filt == 'continuous'
    sh = (lambda v: v) if one else (lambda v: v[:, None])
    get = (lambda x: x) if one else (lambda x: x[:, 0])
    init = lambda key, m: sh(m0 + np.sqrt(p0) * jax.random.normal(key, (m,)))
    samp = lambda x, key: sh(a * get(x) + q * jax.random.normal(key, (x.shape[0],)))
    pdf = lambda y, x: jax.scipy.stats.norm.pdf(y, h * get(x), r)
    v = 1 / (1 / q ** 2 + h * h / r ** 2)
    pm = lambda x, y: v * (a * get(x) / q ** 2 + h * y / r ** 2)
    prop = lambda x, y, key: sh(pm(x, y) + np.sqrt(v) * jax.random.normal(key, (x.shape[0],)))
    pdens = lambda xt, xs, y: jax.scipy.stats.norm.pdf(get(xt), pm(xs, y), np.sqrt(v))
    tdens = lambda xt, xs: jax.scipy.stats.norm.pdf(get(xt), a * get(xs), q)
    rs = getattr(resampling, res)
    if filt == 'particle':
        return lambda key: (particle_filter(prop, pdens, tdens, pdf, jnp.asarray(ys), init, key, n, rs)[..., 0], jnp.zeros(()))
    if filt == 'continuous':
        return lambda key: bootstrap_filter(samp, pdf, jnp.asarray(ys), init, key, n, rs, conti_resampling=True)

    def f(key):
        s, nell = bootstrap_filter(samp, pdf, jnp.asarray(ys), init, key, n, rs)
        return s[..., 0], nell
    return f


def posterior(mon, rng, tier, filt, k):
    import jax
    for rep in range(2 if tier == 'quick' else 6):
        mod = lgmodel(rng, k)
        res = ('systematic', 'stratified', 'multinomial')[int(rng.integers(3))]
        n, K = 4000, 40 if tier == 'quick' else 200
        seed = int(rng.integers(2 ** 31))
        mon.case(filt=filt, res=res, n=n, K=K, seed=seed, a=mod[0])
        s, nell = mon.api(jax.jit(jax.vmap(runner(filt, mod, n, res))), jax.random.split(jax.random.PRNGKey(seed), K))
        s = np.asarray(s)
        ms, ps = mod[7], mod[8]
        mm = s.mean(-1)
        vv = ((s - ms[None, :, None]) ** 2).mean(-1)
        for name, obs, want in (('posterior-mean', mm, ms), ('posterior-var', vv, ps)):
            se = obs.std(0, ddof=1) / np.sqrt(K)
            # ratio-estimator bias is O(1/n)
            mon.true(name, np.all(np.abs(obs.mean(0) - want) <= 9 * se + 30. / n * np.sqrt(ps + 1e-3)), f'{obs.mean(0)} against {want}, standard error {se}')
        if filt == 'bootstrap':
            L = np.exp(-(np.asarray(nell)) - mod[9])
            mon.true('evidence-unbiased', abs(L.mean() - 1) <= 9 * L.std(ddof=1) / np.sqrt(K), f'E[p^(y)]/p(y) = {L.mean()} +- {L.std() / np.sqrt(K)}')


def evidence(mon, rng, tier, k):
    """exp(-nell) is unbiased for every number of particles, however small."""
    import jax
    for n in (1, 2, 5, 20, 100):
        mod = lgmodel(rng, k)
        res = ('systematic', 'stratified', 'multinomial')[int(rng.integers(3))]
        K = 100000 if tier == 'quick' else 1000000
        mod = mod[:6] + (mod[6][:2],) + mod[7:]
        a, q, h, r, m0, p0, ys = mod[:7]
        ell, m, p = 0., m0, p0
        for y in ys:
            m, p = a * m, a * a * p + q * q
            s = h * h * p + r * r
            ell += -0.5 * (np.log(2 * np.pi * s) + (y - h * m) ** 2 / s)
            g = p * h / s
            m, p = m + g * (y - h * m), p - g * h * p
        seed = int(rng.integers(2 ** 31))
        mon.case(nontrivial=n > 1, n=n, res=res, seed=seed, a=a)
        f = runner('bootstrap', mod, n, res)
        nell = np.asarray(mon.api(jax.jit(lambda ks: jax.lax.map(jax.vmap(lambda kk: f(kk)[1]), ks)), jax.random.split(jax.random.PRNGKey(seed), K).reshape(50, K // 50, 2)))
        L = np.exp(-nell.ravel() - ell)
        mon.true('evidence-unbiased', abs(L.mean() - 1) <= 7.5 * L.std() / np.sqrt(K) + 1e-3, f'n = {n}: E[p^(y)]/p(y) = {L.mean()} +- {L.std() / np.sqrt(K)}')


def independence(mon, rng, tier):
    """Random numbers of different steps and of different roles are uncorrelated."""
    import jax
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers import resampling
    from mfs.classical_filters_smoothers.smc import bootstrap_filter, particle_filter
    T, n = 4, 3
    for filt in ('bootstrap', 'particle'):
        seed = int(rng.integers(2 ** 31))
        mon.case(filt=filt, seed=seed, T=T, n=n)
        one = jnp.ones(n) / n
        # identity selection: the particles then carry their noise history in base-separated coordinates
        init = lambda key, m: jnp.zeros((m, T + 1)).at[:, 0].set(jax.random.normal(key, (m,)))

        def push(x, key):
            z = jax.random.normal(key, (x.shape[0],))
            slot = jnp.argmin(jnp.abs(x[0]) > 0)
            return x.at[:, slot].set(z)

        pdf = lambda y, x: jnp.ones(x.shape[0])
        ident = lambda w, key: jnp.arange(n)
        ys = jnp.zeros(T)
        if filt == 'bootstrap':
            f = lambda key: bootstrap_filter(push, pdf, ys, init, key, n, ident)[0][-1]
        else:
            f = lambda key: particle_filter(lambda x, y, key: push(x, key), lambda a, b, y: jnp.ones(n), lambda a, b: jnp.ones(n), pdf, ys, init, key, n, ident)[-1]
        K = 20000
        z = np.asarray(mon.api(jax.jit(jax.vmap(f)), jax.random.split(jax.random.PRNGKey(seed), K))).reshape(K, -1)
        C = np.corrcoef(z.T)
        off = np.max(np.abs(C - np.eye(C.shape[0])))
        mon.true('step-independence', off < 7 / np.sqrt(K), f'noises of different steps or particles are correlated: {off}')
    # records of thousands of measurements: every step still has keys of its own
    for filt in ('bootstrap', 'particle', 'continuous'):
        T, n = int(rng.integers(3000, 3500)), 2
        rec, seed = Rec(), int(rng.integers(2 ** 31))
        mon.case(filt=filt, seed=seed, T=T, n=n)

        def init(key, m):
            rec.put('init', key)
            return jnp.zeros(m)

        def push(x, key):
            rec.put('move', key)
            return jax.random.normal(key, x.shape)

        def res(w, key):
            rec.put('resample', key)
            return jnp.arange(n)

        pdf, ys, key = (lambda y, x: jnp.ones(n)), jnp.zeros(T), jax.random.PRNGKey(seed)
        if filt == 'particle':
            x = mon.api(particle_filter, lambda x, y, key: push(x, key), lambda a, b, y: jnp.ones(n), lambda a, b: jnp.ones(n), pdf, ys, init, key, n, res)
        else:
            x, _ = mon.api(bootstrap_filter, push, pdf, ys, init, key, n, res if filt == 'bootstrap' else None, conti_resampling=filt == 'continuous')
        x = np.asarray(x)
        jax.effects_barrier()
        mon.saw('callback', len(rec.ev))
        keys = [(tuple(e[1][0].ravel())) for e in rec.ev]
        mon.true('keys-distinct', len(set(keys)) == len(keys) >= T + 1, f'{len(keys)} keys, {len(set(keys))} distinct, {T} steps')
        z = x[:, 0]
        mon.true('step-independence', len(np.unique(z)) == T, f'{len(np.unique(z))} distinct values over {T} steps')
        f = np.abs(np.fft.fft(z - z.mean(), 2 * T)) ** 2
        ac = np.fft.ifft(f).real[1:T - 300] / f.mean()
        mon.true('step-independence', np.max(np.abs(ac)) < 7.5 / np.sqrt(T), f'autocorrelation {np.max(np.abs(ac))} at lag {1 + int(np.argmax(np.abs(ac)))}')
