"""Histories of library calls.  A *call* is (name, variant): what it computes is fixed by (seed, name, variant) alone,
whatever else the process has done before, does at the same time, or did with the arrays it got back.

    python -m rv.hist <spec.json> <out.pkl>      one history in a fresh process

The catalogue is deliberately dense in nearly equal calls (same order and another dimension, same model and another parameter,
same shape and other values, ...): a stale cache, a shared workspace or a leaking global makes one of them depend on another.
"""
import copy
import importlib
import json
import os
import pickle
import sys
import threading

import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if __name__ == '__main__':
    sys.path.insert(0, HERE)

from rv import gen, ref, zoo  # noqa: E402
from rv.core import REPO, rng_for  # noqa: E402


# ---- catalogue: name -> list of (variant, fn(rng, box)); box collects the NumPy inputs for the not-modified monitor ------
def _grid(**kw):
    import itertools
    ks = list(kw)
    return [dict(zip(ks, v)) for v in itertools.product(*kw.values())]


class Box:
    """Registers NumPy inputs; checks afterwards that the call left them alone."""

    def __init__(self):
        self.items = []

    def as_is(self, a):
        self.items.append((a, copy.deepcopy(a)))
        return a

    def __call__(self, a):
        a = np.array(a)
        self.items.append((a, a.copy()))
        return a

    def modified(self):
        return [k for k, (a, b) in enumerate(self.items) if not (a == b if isinstance(a, (list, tuple, dict)) else a.shape == b.shape and np.array_equal(a, b))]


def _drift(k):
    import jax.numpy as jnp
    return [lambda x: jnp.tanh(x), lambda x: -.5 * x, lambda x: x - .3 * x ** 3][k]


def _disp(k):
    import jax.numpy as jnp
    return [lambda x: .5 + 0. * x, lambda x: .6 + .2 * jnp.cos(x)][k]


def _nd_drift(k, d):
    import jax.numpy as jnp
    return [lambda x: jnp.tanh(x[::-1]), lambda x: -.5 * x + .1 * x[0] * x][k]


def _nd_disp(k, d):
    import jax.numpy as jnp
    return [lambda x: .5 * jnp.eye(d), lambda x: jnp.tril(.2 * jnp.ones((d, d))) + .3 * jnp.diag(jnp.cos(x))][k]


def _cat_combinatorial():
    from mfs.multi_dims import multi_indices as mi, moments as mn, quadratures as qn
    from mfs.one_dim import moments as m1, quadtures as q1
    from mfs.classical_filters_smoothers.quadratures import SigmaPoints
    from mfs import utils
    c = {}
    c['generate'] = [(v, lambda r, b, v=v: mi.generate_graded_lexico_multi_indices(v['d'], v['u'], v['l']))
                     for v in _grid(d=[1, 2, 3, 4], u=[0, 1, 2, 3, 4, 5], l=[0, 1, 2, 3, 4, 5]) if v['l'] <= v['u']]
    c['gram-hankel'] = [(v, lambda r, b, v=v: mi.gram_and_hankel_indices_graded_lexico(v['N'], v['d'])) for v in _grid(N=[1, 2, 3], d=[1, 2, 3])]
    c['sizeof'] = [(v, lambda r, b, v=v: mi.sizeof_multi_indices(v['d'], v['u'], v['l'])) for v in _grid(d=[1, 2, 3, 4], u=[2, 3, 5], l=[0, 1, 2])]
    c['indexof'] = [(v, lambda r, b, v=v: [mi.graded_lexico_indexof_multi_index(b(r.integers(0, 4, v['d'])), 0), mi.find_indices(b(r.integers(0, 3, (4, v['d']))))])
                    for v in _grid(d=[1, 2, 3, 4], k=[0, 1])]
    c['cart-indices'] = [(v, lambda r, b, v=v: qn.nd_cartesian_prod_indices(v['d'], v['n'])) for v in _grid(d=[1, 2, 3], n=[1, 2, 3])]
    c['cart'] = [(v, lambda r, b, v=v: [qn.nd_cartesian_prod(b(r.normal(size=(v['d'], v['n'])))), qn.nd_cartesian_prod_2(b(r.normal(size=(v['d'], v['n']))))])
                 for v in _grid(d=[1, 2, 3], n=[2, 3])]
    c['gauss-hermite'] = [(v, lambda r, b, v=v: tuple(x for x in SigmaPoints.gauss_hermite(v['d'], v['order']) if not isinstance(x, (int, type(None))))) for v in _grid(d=[1, 2, 3], order=[1, 2, 3, 4])]
    c['cubature'] = [(v, lambda r, b, v=v: tuple(x for x in SigmaPoints.cubature(v['d']) if not isinstance(x, (int, type(None))))) for v in _grid(d=[1, 2, 3, 4])]
    c['hankel-indices'] = [(v, lambda r, b, v=v: q1.hankel_indices(v['n'])) for v in _grid(n=[1, 2, 3, 5])]
    c['kan-central'] = [(v, lambda r, b, v=v: mn.central_moments_mvn_kan(b(ref.spd(r, v['d'])), [2, 2, 0, 1][:v['d']])) for v in _grid(d=[1, 2, 3], k=[0, 1, 2])]
    c['kan-raw'] = [(v, lambda r, b, v=v: mn.raw_moments_mvn_kan(b(r.normal(size=v['d'])), b(ref.spd(r, v['d'])), [2, 1, 2, 1][:v['d']])) for v in _grid(d=[1, 2, 3], k=[0, 1, 2])]
    c['uniform'] = [(v, lambda r, b, v=v: [mn.moments_nd_uniform(b.as_is([(.5, 1. + v['k']), (0., 2.), (-1., 0.)][:v['d']]), b.as_is([2, 1, 3][:v['d']])),
                                          mn.moments_nd_uniform(b.as_is([[.5, 1. + v['k']], [0., 2.], [-1., 0.]][:v['d']]), b([2, v['u'], 3][:v['d']]), b.as_is([.2, .1, 0.][:v['d']]))])
                    for v in _grid(d=[1, 2, 3], u=[2, 3], k=[0, 1])]
    c['extract'] = [(v, lambda r, b, v=v: [mn.extract_mean(b(r.normal(size=mi.sizeof_multi_indices(v['d'], 3))), v['d']), mn.extract_cov(b(r.normal(size=mi.sizeof_multi_indices(v['d'], 3))), v['d']),
                                           mn.extract_moments(b(r.normal(size=mi.sizeof_multi_indices(v['d'], 3))), (1,) * v['d'] if v['d'] < 4 else (1, 1, 1, 0)),
                                           mn.marginalise_moments(b(r.normal(size=mi.sizeof_multi_indices(v['d'], 3))), v['d'], 2, v['d'] - 1)])
                    for v in _grid(d=[1, 2, 3], k=[0, 1])]
    c['lists'] = [(v, lambda r, b, v=v: [mi.graded_lexico_indexof_multi_index(b.as_is([2, 0, 1, 1][:v['d']]), 0), mn.extract_moments(b(r.normal(size=mi.sizeof_multi_indices(v['d'], 4))), b.as_is([0, 2, 1, 1][:v['d']])),
                                         mn.central_moments_mvn_kan(b(ref.spd(r, v['d'])), b.as_is([3, 1, 0, 2][:v['d']])), mn.raw_moments_mvn_kan(b(r.normal(size=v['d'])), b(ref.spd(r, v['d'])), b.as_is([3, 1, 0, 2][:v['d']]))])
                  for v in _grid(d=[1, 2, 3, 4], k=[0, 1])]
    c['bell'] = [(v, lambda r, b, v=v: [utils.partial_bell(v['n'], 2, b(r.normal(size=v['n']))), utils.complete_bell(v['n'], b(r.normal(size=v['n'])))]) for v in _grid(n=[2, 3, 4, 5], k=[0, 1])]
    c['hermite'] = [(v, lambda r, b, v=v: utils.hermite_probabilist(v['n'], b(r.normal(size=3)))) for v in _grid(n=[0, 1, 2, 3, 6], k=[0, 1])]
    c['special'] = [(v, lambda r, b, v=v: [utils.gamma(b(r.uniform(.5, 6, 3))), utils.factorial(b(r.integers(0, 9, 3))), utils.binom(b(r.integers(5, 9, 3)), b(r.integers(0, 5, 3)))]) for v in _grid(k=[0, 1, 2])]
    return c


def _cat_numeric():
    import jax
    import jax.numpy as jnp
    from mfs.one_dim import moments as m1, quadtures as q1, pdf_approximations as pa
    from mfs.multi_dims import quadratures as qn, multi_indices as mi
    from mfs.classical_filters_smoothers import resampling as rs
    from mfs.classical_filters_smoothers.quadratures import SigmaPoints, gaussian_expectation
    from mfs import utils
    c = {}

    def quad(r, b, v):
        ms, mean, scale = gen.represent(gen.measure_1d(r, 'mixture'), 2 * v['N'], v['mode'])
        return q1.moment_quadrature(b(ms), mean, scale, ldl=v['stable'], sort_nodes=v['sort'])

    c['quadrature'] = [(v, lambda r, b, v=v: quad(r, b, v)) for v in _grid(N=[1, 2, 3, 5], mode=['raw', 'scaled'], stable=[False, True], sort=[False, True])]

    def quadn(r, b, v):
        d, n = v['d'], v['N']
        ms, mean, scale = ref.gaussian_nd_moments(r.normal(size=d) * .4, ref.spd(r, d, .3, .8), d, n, v['mode'])
        return qn.moment_quadrature_nd(b(ms), b(mi.gram_and_hankel_indices_graded_lexico(n, d)), b(mean), b(scale), ldl=v['stable'])

    c['quadrature-nd'] = [(v, lambda r, b, v=v: quadn(r, b, v)) for v in _grid(d=[1, 2], N=[2, 3], mode=['central', 'scaled'], stable=[False, True])]

    def conv(r, b, v):
        n = v['n']
        raw = gen.represent(gen.measure_1d(r, 'mixture'), n, 'raw')[0]
        cen, mean, _ = gen.represent(gen.measure_1d(r, 'mixture'), n, 'central')
        sca, mean2, scale = gen.represent(gen.measure_1d(r, 'mixture'), n, 'scaled')
        j = jnp.asarray
        return [m1.raw_to_central(j(raw)), m1.central_to_raw(j(cen), mean), m1.raw_to_scaled(j(raw)), m1.raw_to_scaled(j(raw), 1.7),
                m1.scaled_to_central(b(sca), scale), m1.sms_to_cumulants(b(sca), mean2, scale)]

    c['convert'] = [(v, lambda r, b, v=v: conv(r, b, v)) for v in _grid(n=[4, 6], k=[0, 1, 2])]
    c['charfn'] = [(v, lambda r, b, v=v: m1.characteristic_fn(float(r.normal()), b(gen.represent(gen.measure_1d(r, 'mixture'), v['n'], 'scaled')[0]), .3, 1.2)) for v in _grid(n=[4, 6], k=[0, 1])]

    def resample(r, b, v):
        w = r.dirichlet(np.ones(v['n']))
        key = b(np.asarray(jax.random.PRNGKey(int(r.integers(2 ** 31)))))
        return [rs.systematic(b(w), key), rs.stratified(b(w), key), rs.multinomial(b(w), key), rs.continuous_resampling(b(r.normal(size=v['n'])), b(w), 7, key)]

    c['resample'] = [(v, lambda r, b, v=v: resample(r, b, v)) for v in _grid(n=[4, 9], k=[0, 1])]

    def linalg(r, b, v):
        d = v['d']
        A = ref.spd(r, d, .5, 2.)
        return [utils.ldl(b(A)), utils.ldl_chol(b(A)), utils.ldl_chol(b(A - 1.1 * np.eye(d))), utils.lanczos(b(A), b(r.normal(size=d)), min(d, 2)), utils.lanczos_ritz(b(A), b(r.normal(size=d)), min(d, 2)),
                utils.discretise_lti_sde(b(-A), b(r.normal(size=(d, 1))), .1 + .1 * v['k'])]

    c['linalg'] = [(v, lambda r, b, v=v: linalg(r, b, v)) for v in _grid(d=[2, 3], k=[0, 1])]

    def gsum(r, b, v):
        k = v['k']
        g = utils.GaussianSum1D.new(b(r.normal(size=k)), b(r.uniform(.1, 1, k)), b(r.dirichlet(np.ones(k))), N=v['N'])
        d = v['d']
        h = utils.GaussianSumND.new(b(r.normal(size=(k, d))), b(np.stack([ref.spd(r, d) for _ in range(k)])), b(r.dirichlet(np.ones(k))), mi.generate_graded_lexico_multi_indices(d, v['N']))
        key = jax.random.PRNGKey(int(r.integers(2 ** 31)))
        return [tuple(g), tuple(h), g.pdf(b(r.normal(size=3))), h.pdf(b(r.normal(size=d))), h.logpdf(b(r.normal(size=d))), g.sampler(key, 4), h.sampler(key, 4)]

    c['gsum'] = [(v, lambda r, b, v=v: gsum(r, b, v)) for v in _grid(k=[1, 2, 3], d=[1, 2], N=[2, 3])]

    def series(r, b, v):
        meas = gen.measure_1d(r, 'mixture')
        raw = gen.represent(meas, v['n'], 'raw')[0]
        sca, mean, scale = gen.represent(meas, v['n'], 'scaled')
        x = b(r.normal(size=3))
        return [pa.gram_charlier(b(np.array([.1, .9, .2, .1, .05][:v['n'] - 1])))(x), pa.legendre_poly_expansion(b(raw), -3. - v['k'], 4.)(x),
                pa.truncated_cumulant_generating_function(.3, b(r.normal(size=v['n'])), .1, 1.2), pa.inverse_fourier(.2, b(np.exp(-np.linspace(-3, 3, 21) ** 2) + 0j), b(np.linspace(-3, 3, 21)))]

    c['series'] = [(v, lambda r, b, v=v: series(r, b, v)) for v in _grid(n=[4, 6], k=[0, 1])]

    def expect(r, b, v):
        sg = SigmaPoints.gauss_hermite(v['d'], 3) if v['gh'] else SigmaPoints.cubature(v['d'])
        return gaussian_expectation(b(r.normal(size=(4, v['d']))), b(np.stack([np.linalg.cholesky(ref.spd(r, v['d'])) for _ in range(4)])), jnp.sin, v['d'], 3) if v['gh'] \
            else sg.gen_sigma_points(b(r.normal(size=v['d'])), b(np.linalg.cholesky(ref.spd(r, v['d']))))

    c['gaussian-expectation'] = [(v, lambda r, b, v=v: expect(r, b, v)) for v in _grid(d=[1, 2], gh=[False, True])]
    c['vmap-list'] = [(v, lambda r, b, v=v: utils.vmap_list_of_funcs([lambda x: v['k'] * x, lambda x: x ** 2 + v['k'], jnp.sin][:v['m']])(b(r.normal(size=2)))) for v in _grid(k=[1, 2], m=[2, 3])]
    c['taylor'] = [(v, lambda r, b, v=v: q1.taylor_quadrature(lambda x: jnp.sin((1 + v['k']) * x), b(np.array([1., 0., .3, 0.])), .2 * v['k'], 3)) for v in _grid(k=[0, 1])]
    return c


def _cat_conditional():
    import jax
    import jax.numpy as jnp
    from mfs.one_dim import moments as m1
    from mfs.multi_dims import moments as mn, multi_indices as mi
    c = {}
    pw = np.arange(4)

    def one(r, b, v):
        dr, ds = _drift(v['f']), _disp(v['g'])
        dt = .05 * (1 + v['k'])
        x, mean, scale = b(r.normal(size=3)), float(r.normal()), float(r.uniform(.5, 1.5))
        h = {'tme': lambda: m1.sde_cond_moments_tme(dr, ds, dt, 1 + v['k']), 'normal': lambda: m1.sde_cond_moments_tme_normal(dr, ds, dt, 1 + v['k'], 2 + v['k']),
             'euler': lambda: m1.sde_cond_moments_euler(dr, ds, dt, 2 + v['k'])}[v['b']]()
        return [h[0](x, pw), h[1](x, pw, mean), h[2](x, pw, mean, scale), h[3](x), h[4](x)]

    c['cond'] = [(v, lambda r, b, v=v: one(r, b, v)) for v in _grid(b=['tme', 'normal', 'euler'], f=[0, 1], g=[0, 1], k=[0, 1])]

    def nd(r, b, v):
        d, k = 2, v['k']
        dr, ds = _nd_drift(v['f'], d), _nd_disp(v['f'], d)
        dt = .05 * (1 + k)
        I = mi.generate_graded_lexico_multi_indices(d, 2 + k)
        x, mean, scale = b(r.normal(size=(3, d))), b(r.normal(size=d)), b(r.uniform(.5, 1.5, d))
        h = {'normal': lambda: mn.sde_cond_moments_tme_normal(dr, ds, dt, 1 + k, I), 'euler': lambda: mn.sde_cond_moments_euler_maruyama(dr, ds, dt, I)}[v['b']]()
        w = np.arange(5)
        return [h[0](x, w), h[1](x, w, mean), h[2](x, w, mean, scale), h[3](x), h[4](x)]

    c['cond-nd'] = [(v, lambda r, b, v=v: nd(r, b, v)) for v in _grid(b=['normal', 'euler'], f=[0, 1], k=[0, 1])]
    return c


def _cat_models():
    import jax
    import jax.numpy as jnp
    from mfs.one_dim import ss_models as s1
    from mfs.multi_dims import ss_models as sn, multi_indices as mi
    from mfs.utils import simulate_sde, posterior_cramer_rao
    c = {}

    def benes(r, b, v):
        m = s1.benes_bernoulli(v['N'])
        k = b(np.asarray(jax.random.PRNGKey(int(r.integers(2 ** 31)))))
        return [m[2], m[3].rms, m[3].scms, m[4](.3), m[7](1, b(r.normal(size=3))), m[8](.2, k)]

    def well(r, b, v):
        m = s1.well_poisson(v['p'], v['N'])
        k = b(np.asarray(jax.random.PRNGKey(int(r.integers(2 ** 31)))))
        return [m[2], m[3].cms, m[4](.3, 2.), m[7](1, .4, 1.2), m[8](.2, k)]

    def prey(r, b, v):
        m = sn.prey_predator(mi.generate_graded_lexico_multi_indices(2, v['u']))
        k = b(np.asarray(jax.random.PRNGKey(int(r.integers(2 ** 31)))))
        return [m[2], m[3].rms, m[4](b(r.uniform(.5, 2, 2))), m[8](k, 5)]

    def sat(r, b, v):
        m = sn.satellite_orbital_stability(v['a'], 1 + v['k'], 2)
        x = b(r.normal(size=2))
        return [m[0](x), m[1](x)]

    c['benes'] = [(v, lambda r, b, v=v: benes(r, b, v)) for v in _grid(N=[2, 3], k=[0, 1])]
    c['well'] = [(v, lambda r, b, v=v: well(r, b, v)) for v in _grid(p=[2., 3.], N=[2, 3])]
    c['prey'] = [(v, lambda r, b, v=v: prey(r, b, v)) for v in _grid(u=[2, 3], k=[0])]
    c['satellite'] = [(v, lambda r, b, v=v: sat(r, b, v)) for v in _grid(a=[1, 2], k=[0, 1])]

    def sim(r, b, v):
        k = jax.random.PRNGKey(int(r.integers(2 ** 31)))
        return simulate_sde(lambda x, dt: (x - dt * v['a'] * x, dt * jnp.eye(2)), b(r.normal(size=2)), .1, 4 + v['k'], k, integration_steps=2)

    c['simulate'] = [(v, lambda r, b, v=v: sim(r, b, v)) for v in _grid(a=[.5, 1.], k=[0, 1])]

    def pcr(r, b, v):
        a = v['a']
        return posterior_cramer_rao(b(r.normal(size=(4, 3, 2))), b(r.normal(size=(3, 3, 1))), b(np.eye(2)),
                                    lambda x, s: -.5 * jnp.sum((x - a * jnp.sin(s)) ** 2), lambda y, x: -.5 * a * jnp.sum((y - x[:1]) ** 2) - .1 * jnp.sum(x ** 2))

    c['cramer-rao'] = [(v, lambda r, b, v=v: pcr(r, b, v)) for v in _grid(a=[.5, 1.])]
    return c


def _cat_zoo(groups):
    c = {}

    def go(r, b, g, i, T):
        s = zoo.build(g, i)
        th, init, ys = s.draw(r, T)
        import jax
        th, init = (jax.tree_util.tree_map(lambda v: v if isinstance(v, (int, np.integer)) else b(v), t) for t in (th, init))
        return s.fn(th, init, b(ys))

    for g, i in zoo.keys(groups):
        c[zoo.name_of(g, i)] = [({'T': T, 'k': k}, lambda r, b, g=g, i=i, T=T: go(r, b, g, i, T)) for T, k in ((2, 0), (2, 1), (3, 0))]
    return c


def _half(cat, h):
    c = cat()
    return {n: c[n] for k, n in enumerate(sorted(c)) if k % 2 == h}


GROUPS = {'combinatorial': _cat_combinatorial, 'numeric-a': lambda: _half(_cat_numeric, 0), 'numeric-b': lambda: _half(_cat_numeric, 1), 'conditional': _cat_conditional, 'models': _cat_models,
          'filters-1d': lambda: _cat_zoo(['1d', 'brute']), 'filters-nd': lambda: _cat_zoo(['nd']), 'filters-gauss': lambda: _cat_zoo(['gauss', 'particle']),
          'smoothers': lambda: _cat_zoo(['smoother'])}


# ---- faults: calls that must fail (a callback raises, a shape is wrong); what they raise is not judged -------------------------
def faults():
    import jax
    import jax.numpy as jnp
    from mfs.one_dim import moments as m1, filtering as f1, quadtures as q1, ss_models as s1
    from mfs.multi_dims import multi_indices as mi, quadratures as qn
    from mfs.classical_filters_smoothers import gfs
    from mfs import utils

    def boom(*a):
        raise RuntimeError('injected')

    return [lambda: m1.sde_cond_moments_tme(boom, boom, .1, 2)[0](jnp.ones(2), np.arange(3)), lambda: f1.moment_filter_rms(boom, boom, jnp.ones(4), jnp.ones(3)),
            lambda: f1.moment_filter_cms(boom, boom, boom, jnp.ones(4), 0., jnp.ones(3)), lambda: gfs.kf(jnp.eye(2), jnp.eye(3), jnp.ones((1, 2)), jnp.eye(1), jnp.ones(2), jnp.eye(2), jnp.ones((3, 1))),
            lambda: gfs.ekf(boom, boom, jnp.ones(2), jnp.eye(2), .1, jnp.ones((3, 1))), lambda: utils.simulate_sde(boom, jnp.ones(2), .1, 3, jax.random.PRNGKey(0)),
            lambda: q1.moment_quadrature(jnp.ones((3, 3))), lambda: q1.moment_quadrature(jnp.asarray([1., 0., -1., 0.])), lambda: mi.generate_graded_lexico_multi_indices('x', 2),
            lambda: qn.nd_cartesian_prod(jnp.ones(())), lambda: utils.ldl_chol(jnp.full((3, 3), jnp.nan)), lambda: s1.well_poisson(None, 2)[8](0., None),
            lambda: utils.partial_bell(-3, 9, [1.])]


# ---- global state ---------------------------------------------------------------------------------------------------
def global_state():
    import random
    import warnings
    import jax
    st = np.random.get_state()
    flags = {k: getattr(jax.config, k) for k in ('jax_enable_x64', 'jax_debug_nans', 'jax_debug_infs', 'jax_disable_jit', 'jax_default_matmul_precision', 'jax_numpy_rank_promotion',
                                                 'jax_numpy_dtype_promotion', 'jax_check_tracer_leaks', 'jax_default_prng_impl', 'jax_platforms', 'jax_threefry_partitionable')
             if hasattr(jax.config, k)}
    return {'numpy-random': repr((st[0], st[1].tolist(), st[2:])), 'random': hash(random.getstate()), 'numpy-errors': repr(np.geterr()), 'print-options': repr(np.get_printoptions()),
            'jax-flags': repr(flags), 'recursion': sys.getrecursionlimit(), 'cwd': os.getcwd(), 'files': repr(sorted(os.listdir('.'))), 'environ': repr(sorted(os.environ.items())),
            'warnings': repr([(f[0], str(f[1]), f[2].__name__, str(f[3]), f[4]) for f in warnings.filters]), 'path': repr(sys.path), 'threads': threading.active_count()}


def flat(o):
    import jax
    return [np.array(v) for v in jax.tree_util.tree_leaves(o)]


def scribble(o):
    """Overwrite every writable array handed back: it belongs to the caller now."""
    n = 0
    if isinstance(o, np.ndarray):
        if o.flags.writeable and o.size:
            o[...] = 77 if o.dtype.kind in 'iufc' else o
            n += 1
    elif isinstance(o, list):
        for v in o:
            n += scribble(v)
        if o and isinstance(o[0], (int, float)):
            o[0] = 77
            n += 1
    elif isinstance(o, (tuple, dict)):
        for v in (o.values() if isinstance(o, dict) else o):
            n += scribble(v)
    return n


def main(spec, out):
    import warnings
    warnings.filterwarnings('ignore')
    import jax
    jax.config.update('jax_enable_x64', spec.get('x64', True))
    import scipy.stats, scipy.special, tme.base_jax, math, jax.scipy.stats, jax.experimental  # noqa: F401,E401
    jax.numpy.ones(2) + 1.
    g0 = global_state()
    for dirpath, _, files in sorted(os.walk(os.path.join(REPO, 'mfs'))):  # import everything now: threads then exercise the functions, not Python's import locks
        for f in sorted(files):
            if f.endswith('.py') and f != '__init__.py':
                mod = os.path.relpath(os.path.join(dirpath, f), REPO)[:-3].replace(os.sep, '.')
                try:
                    importlib.import_module(mod)
                except ImportError:
                    pass
    cat = GROUPS[spec['group']]()
    g1 = global_state()
    calls = [(n, k) for n in cat for k in range(len(cat[n]))]
    rng = rng_for(spec['seed'], 'order', spec['order'])
    results, lock = [], threading.Lock()  # events: (call, occurrence, history position, leaves | exception, modified inputs)
    bad = faults() if spec['mode'] == 'faults' else []
    counts = {'scribbled': 0, 'faults': 0, 'faults-raised': 0}

    def one(c, pos):
        n, k = c
        v, f = cat[n][k]
        b = Box()
        try:
            raw = f(rng_for(spec['seed'], n, k), b)
            val = flat(raw)
        except Exception as e:  # an observation, judged by the offline checker
            raw, val = None, f'{type(e).__name__}: {str(e)[:300]}'
        with lock:
            results.append((c, v, pos, val, b.modified()))
            if spec['mode'] == 'scribble':
                counts['scribbled'] += scribble(raw)

    order = [calls[i] for i in rng.permutation(len(calls))]
    if spec['mode'] == 'threads':
        k = spec.get('threads', 8)
        orders = [[calls[i] for i in rng_for(spec['seed'], 'thread', t, spec['order']).permutation(len(calls))] for t in range(k)]
        take = max(1, int(len(calls) * spec.get('share', 1.)))
        gate = threading.Barrier(k)

        def work(t):
            gate.wait()
            for pos, c in enumerate(orders[t][:take]):
                one(c, (t, pos))

        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)  # many more interleavings of the Python code
        ths = [threading.Thread(target=work, args=(t,)) for t in range(k)]
        [t.start() for t in ths]
        [t.join() for t in ths]
        sys.setswitchinterval(old)
    else:
        if spec['mode'] in ('scribble', 'repeat'):
            order = order + [order[i] for i in rng.permutation(len(order))]
        for pos, c in enumerate(order):
            if bad:
                counts['faults'] += 1
                try:
                    bad[int(rng.integers(len(bad)))]()
                except Exception:
                    counts['faults-raised'] += 1
            one(c, pos)
    g2 = global_state()
    changed = {'import': [k for k in g0 if g0[k] != g1[k]], 'calls': [k for k in g1 if g1[k] != g2[k]]}
    with open(out + '.part', 'wb') as f:
        pickle.dump({'results': results, 'changed': changed, 'counts': counts}, f)
    os.replace(out + '.part', out)


if __name__ == '__main__':
    sys.path.insert(0, os.environ.get('RV_REPO', '/repo'))
    main(json.load(open(sys.argv[1])), sys.argv[2])
