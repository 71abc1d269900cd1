"""C05: transformations are transparent: jit and vmap agree with plain execution, gradients are derivatives."""
import numpy as np

from rv import zoo

RULE = ('Random problems for every public filter and smoother.  Each is executed plainly, under jit, under vmap over a '
        'batch of parameters/initial states/records, and differentiated (reverse and forward mode) with respect to model '
        'parameters and initial state; the oracle is plain execution and Richardson-checked central differences.')
ASSUMPTIONS = ['float64', 'gradients are checked where the quadrature nodes are distinct (1D always; nD with d = N = 2)',
               'a finite-difference direction whose two step sizes disagree is out of numerical reach']
MUST_RUN = ['jit', 'vmap', 'gradient', 'jvp', 'gradient-quadrature', 'gradient-ldl']


def tasks(tier):
    out = [(zoo.name_of(g, i), run, dict(g=g, i=i)) for g, i in zoo.keys()]
    out += [('quadrature-1d', quad1, {}), ('quadrature-nd', quadn, {}), ('ldl-indefinite', ldl_grad, {})]
    return out


def _flat(tree):
    import jax
    leaves, td = jax.tree_util.tree_flatten(tree)
    return [np.asarray(v, float) for v in leaves], td


def run(mon, rng, tier, g, i):
    import jax
    import jax.numpy as jnp
    s = zoo.build(g, i)
    T = 4
    jf = jax.jit(s.fn)
    B = 3
    probs = [s.draw(rng, T) for _ in range(B)]
    plain = []
    for th, init, ys in probs:
        s.fn.__name__ = s.event
        plain.append(mon.api(s.fn, zoo.to_jax(th), zoo.to_jax(init), zoo.to_jax(ys)))
    ok = [all(np.all(np.isfinite(o)) for o in p[0]) for p in plain]
    for (th, init, ys), (o, n), fin in zip(probs, plain, ok):
        if not fin and (g in ('1d', 'nd') or g == 'smoother' and 'cd' in s.name):
            mon.skip('not-finite')
            continue
        mon.case(system=s.name, th=th, init=init, ys=ys)
        oj, nj = mon.api(jf, zoo.to_jax(th), zoo.to_jax(init), zoo.to_jax(ys))
        for a, b in zip(o, oj):
            mon.close('jit', b, a, rtol=1e-8, atol=1e-10)
        if n is not None:
            mon.close('jit', nj, n, rtol=1e-8, atol=1e-10)
    st = lambda j: jax.tree_util.tree_map(lambda *v: jnp.stack([jnp.asarray(x) for x in v]), *[p[j] for p in probs])
    vf = jax.vmap(s.fn)
    ov, nv = mon.api(vf, st(0), st(1), st(2))
    for b in range(B):
        if not ok[b]:
            continue
        for a, v in zip(plain[b][0], ov):
            mon.close('vmap', v[b], a, rtol=1e-7, atol=1e-9)
        if plain[b][1] is not None:
            mon.close('vmap', nv[b], plain[b][1], rtol=1e-7, atol=1e-9)
    # derivatives of a scalar summary: the negative log-likelihood when there is one, otherwise a random functional
    if g == 'nd' and (s.n > 2 or s.d > 2) or g == 'particle' and 'continuous' not in s.name:
        return
    w = [rng.normal(size=np.shape(o)) for o in plain[0][0]]

    def scalar(th, init, ys):
        o, n = s.fn(th, init, ys)
        if n is None:
            return sum(jnp.sum(a * b) for a, b in zip(o, w)) / sum(x.size for x in w)
        return n if jnp.ndim(n) == 0 else n[-1]

    f = jax.jit(scalar)
    int_init = g == 'particle'
    arg = 0 if int_init else (0, 1)
    gr = jax.jit(jax.grad(scalar, argnums=arg))
    jv = jax.jit(lambda a, b, c, da, db: jax.jvp(lambda p, q: scalar(p, q, c), (a, b), (da, db))[1])
    for b in range(1 if tier == 'quick' else B):
        if not ok[b]:
            mon.skip('not-finite')
            continue
        th, init, ys = (zoo.to_jax(v) for v in probs[b])
        ga = mon.api(gr, th, init, ys)
        ga = (ga,) if int_init else ga
        prim = (th,) if int_init else (th, init)
        for rep in range(3 if tier == 'quick' else 6):
            dirs = jax.tree_util.tree_map(lambda v: jnp.asarray(rng.normal(size=jnp.shape(v)) * .3), prim)
            if g == 'nd' or g == '1d':
                # stay on meaningful directions: perturb parameters, and the initial moments mildly
                dirs = (dirs[0], jax.tree_util.tree_map(lambda v: v * .02, dirs[1]))
            if g == 'gauss' or g == 'smoother':
                dirs = (_sym(dirs[0]), _sym(dirs[1]))

            def at(h):
                p = jax.tree_util.tree_map(lambda v, d: v + h * d, prim, dirs)
                return float(f(p[0], init if int_init else p[1], ys))

            h = 2e-5
            d1 = (at(h) - at(-h)) / 2 / h
            d2 = (at(h / 2) - at(-h / 2)) / h
            fd = (4 * d2 - d1) / 3
            an = float(sum(jnp.sum(x * y) for x, y in zip(jax.tree_util.tree_leaves(ga), jax.tree_util.tree_leaves(dirs))))
            mag = 1 + abs(fd)
            if not np.isfinite(fd) or abs(d1 - d2) > 1e-5 * mag:
                mon.skip('finite-difference')
                continue
            mon.close('gradient', an, fd, rtol=1e-4, atol=1e-5, msg='directional derivative')
            if not int_init:
                mon.close('jvp', float(mon.api(jv, th, init, ys, *dirs)), an, rtol=1e-7, atol=1e-8)


def _sym(tree):
    import jax
    import jax.numpy as jnp

    def f(v):
        if jnp.ndim(v) == 2 and v.shape[0] == v.shape[1]:
            return (v + v.T) / 2 * .2
        return v

    return jax.tree_util.tree_map(f, tree)


def _fd(f, x, d, h=1e-5):
    d1 = (f(x + h * d) - f(x - h * d)) / 2 / h
    d2 = (f(x + h / 2 * d) - f(x - h / 2 * d)) / h
    return (4 * d2 - d1) / 3, np.max(np.abs(np.asarray(d1 - d2)))


def quad1(mon, rng, tier):
    """E_rule[g] is differentiable in the moments, mean and scale for both factorisations."""
    import jax
    import jax.numpy as jnp
    from mfs.one_dim.quadtures import moment_quadrature
    from rv import gen
    for n in (2, 3, 4):
        for ldl in (False, True):
            def f(p):
                w, x = moment_quadrature(p[:2 * n], p[2 * n], p[2 * n + 1], ldl=ldl)
                return jnp.dot(w, jnp.sin(1.3 * x) + jnp.exp(-x ** 2))

            jf, gf = jax.jit(f), jax.jit(jax.grad(f))
            for rep in range(3 if tier == 'quick' else 20):
                ms, m, s = gen.represent(gen.measure_1d(rng, 'mixture'), 2 * n, 'scaled')
                p = jnp.asarray(np.r_[ms, m, s])
                d = jnp.asarray(np.r_[0., rng.normal(size=2 * n + 1) * .05])
                mon.case(n=n, ldl=ldl, p=np.asarray(p), d=np.asarray(d))
                fd, dis = _fd(jf, p, d)
                if dis > 1e-6:
                    mon.skip('finite-difference')
                    continue
                gr = mon.api(gf, p)
                mon.close('gradient-quadrature', float(jnp.dot(gr, d)), float(fd), rtol=1e-5, atol=1e-6)


def quadn(mon, rng, tier):
    import jax
    import jax.numpy as jnp
    from mfs.multi_dims.quadratures import moment_quadrature_nd
    from mfs.multi_dims.multi_indices import gram_and_hankel_indices_graded_lexico
    from rv import ref
    for d, n in ((1, 3), (2, 2), (3, 2)):
        inds = gram_and_hankel_indices_graded_lexico(n, d)
        z = len(ref.brute_multi_indices(d, 2 * n - 1))
        for ldl in (False, True):
            def f(ms, mean, scale):
                w, x = moment_quadrature_nd(ms, inds, mean, scale, ldl=ldl)
                return jnp.dot(w, jnp.sin(jnp.sum(x, axis=1)) + jnp.exp(-jnp.sum(x ** 2, axis=1)))

            gf = jax.jit(jax.grad(f, argnums=(0, 1, 2)))
            jf = jax.jit(f)
            for rep in range(2 if tier == 'quick' else 10):
                ws = rng.dirichlet(np.ones(3))
                ms, mean, scale = ref.mixture_nd_moments(ws, rng.normal(size=(3, d)), [ref.spd(rng, d, .2, 1.) for _ in ws], d, n, 'scaled')
                mon.case(d=d, n=n, ldl=ldl, ms=ms, mean=mean, scale=scale)
                dm = np.r_[0., rng.normal(size=z - 1) * .02]
                de, ds = rng.normal(size=d) * .1, rng.normal(size=d) * .1
                fn = lambda t: float(jf(ms + t * dm, mean + t * de, scale + t * ds))
                fd, dis = _fd(fn, 0., 1.)
                if dis > 1e-6:
                    mon.skip('finite-difference')
                    continue
                ga, gb, gc = mon.api(gf, jnp.asarray(ms), jnp.asarray(mean), jnp.asarray(scale))
                an = float(jnp.dot(ga, dm) + jnp.dot(gb, de) + jnp.dot(gc, ds))
                mon.close('gradient-quadrature', an, fd, rtol=1e-5, atol=1e-6)


def ldl_grad(mon, rng, tier):
    """The stable factorisation has finite gradients also where the matrix is not positive definite."""
    import jax
    import jax.numpy as jnp
    from mfs.utils import ldl_chol
    for n in (2, 3, 5):
        gf = jax.jit(jax.grad(lambda a: jnp.sum(jnp.sin(ldl_chol(a, eps=1e-6)))))
        for rep in range(4 if tier == 'quick' else 30):
            q, _ = np.linalg.qr(rng.normal(size=(n, n)))
            e = rng.uniform(.2, 2., n)
            e[int(rng.integers(n))] *= -1 if rep % 2 else 1
            a = (q * e) @ q.T
            mon.case(a=a)
            gr = np.asarray(mon.api(gf, jnp.asarray((a + a.T) / 2)))
            mon.true('gradient-ldl', np.all(np.isfinite(gr)), 'gradient of the stable factorisation is not finite', a=a, grad=gr)
