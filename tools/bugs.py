"""Definitions of the planted bugs (tools/plant.py turns them into seeded/<id>/)."""
Q1 = 'mfs/one_dim/quadtures.py'
F1 = 'mfs/one_dim/filtering.py'
M1 = 'mfs/one_dim/moments.py'
PD = 'mfs/one_dim/pdf_approximations.py'
S1 = 'mfs/one_dim/ss_models.py'
QN = 'mfs/multi_dims/quadratures.py'
FN = 'mfs/multi_dims/filtering.py'
MN = 'mfs/multi_dims/moments.py'
MI = 'mfs/multi_dims/multi_indices.py'
SN = 'mfs/multi_dims/ss_models.py'
U = 'mfs/utils.py'
GF = 'mfs/classical_filters_smoothers/gfs.py'
CQ = 'mfs/classical_filters_smoothers/quadratures.py'
RS = 'mfs/classical_filters_smoothers/resampling.py'
SM = 'mfs/classical_filters_smoothers/smc.py'
BF = 'mfs/classical_filters_smoothers/brute_force.py'
BUGS = []


def B(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


B('c03-scale-floor', 'C03', [(F1, "        scms = jnp.einsum('ij,i->j', state_cond_scaled_central_moments(nodes, orders, mean, scale), weights)\n",
                              "        scms = jnp.einsum('ij,i->j', state_cond_scaled_central_moments(nodes, orders, mean, jnp.maximum(scale, 1e-2)), weights)\n")],
  'transition noise with a standard deviation below 0.01', 'the scaled filter predicts with another scale than the one its quadrature uses', '''
from mfs.one_dim.filtering import moment_filter_scms, moment_filter_cms
from mfs.one_dim.moments import sde_cond_moments_euler
N, dt = 3, 1e-4
_, cm, sm, cmean, cmv = sde_cond_moments_euler(lambda x: -x, lambda x: .3 + 0. * x, dt, N)
s0 = 1e-2
z = np.array([1., 0., 1., 0., 3., 0.])
lik = lambda y, x: jax.scipy.stats.norm.pdf(y, x, 5e-3)
ys = jnp.array([.001, -.002, .004, .003])
a = moment_filter_scms(sm, cmv, lik, jnp.array(z), 0., s0, ys)
b = moment_filter_cms(cm, cmean, lik, jnp.array(z * s0 ** np.arange(6)), 0., ys)
assert np.allclose(a[1], b[1], rtol=1e-6, atol=1e-9), (a[1], b[1])
''')
B('c05-node-gradient', 'C05', [(Q1, "                                        left_side=False, lower=True, transpose_a=True)\n\n    eigen_vectors, eigen_vals = jax.lax.linalg.eigh(K, sort_eigenvalues=sort_nodes)\n\n    return eigen_vectors[0, :] ** 2, scale * eigen_vals + mean\n",
                                "                                        left_side=False, lower=True, transpose_a=True)\n\n    eigen_vectors, eigen_vals = jax.lax.linalg.eigh(K, sort_eigenvalues=sort_nodes)\n    # The eigenvectors have ill-conditioned derivatives when nodes are close.\n    eigen_vectors = jax.lax.stop_gradient(eigen_vectors)\n\n    return eigen_vectors[0, :] ** 2, scale * eigen_vals + mean\n")],
  'differentiating through the rule', 'the derivative of the weights is dropped', '''
from mfs.one_dim.quadtures import moment_quadrature
def f(m3):
    w, x = moment_quadrature(jnp.array([1., 0., 1., m3]))
    return jnp.dot(w, jnp.exp(x))
g = jax.grad(f)(.7)
h = 1e-5
fd = (f(.7 + h) - f(.7 - h)) / (2 * h)
assert abs(g - fd) < 1e-6, (g, fd)
''')
B('c07-inner-chain', 'C07', [(QN, "    weights = jnp.prod(jnp.einsum('ijk,ijk->ik', combs_eigvectors[:, :, :-1], combs_eigvectors[:, :, 1:]), axis=1) \\\n",
                              "    weights = jnp.prod(jnp.einsum('ij,ijk->ik', combs_eigvectors[:, :, 0], combs_eigvectors[:, :, 1:]), axis=1) \\\n")],
  'three or more dimensions', 'the chain of inner products uses the first eigenbasis instead of the neighbouring one', '''
from mfs.multi_dims.quadratures import moment_quadrature_nd
from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices as g, gram_and_hankel_indices_graded_lexico as h
from mfs.multi_dims.moments import raw_moments_mvn_kan
d, N = 3, 2
mi = g(d, 3, 0)
C = np.array([[1., .5, .3], [.5, 2., -.4], [.3, -.4, 1.5]])
ms = jnp.array([raw_moments_mvn_kan(np.array([.3, -.2, .5]), C, m) for m in mi])
w, x = moment_quadrature_nd(ms, h(N, d))
got = jnp.stack([jnp.sum(w * jnp.prod(x ** m, 1)) for m in mi])
assert np.allclose(got[:10], ms[:10], atol=1e-8), got - ms
''')
B('c09-lower-sum-one', 'C09', [(MI, "    if lower_sum != 0:\n        return pos -", "    if lower_sum > 1:\n        return pos -")],
  'a collection starting at order one', 'positions in a collection that excludes only the zero index are shifted by one', '''
from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices as g, graded_lexico_indexof_multi_index as ix
for d in (1, 2, 3):
    for lo in (0, 1, 2):
        for i, m in enumerate(g(d, 4, lo)):
            assert ix(m, lo) == i, (d, lo, m)
''')
B('c09-index-width', 'C09', [(MI, "    inds = np.zeros((d + 1, s, s), dtype='int64')", "    inds = np.zeros((d + 1, s, s), dtype='int16')")],
  'more than 32767 moments (for example N = 2 in 60 dimensions)', 'positions of high moments wrap around in the Gram and Hankel tables', '''
from mfs.multi_dims.multi_indices import gram_and_hankel_indices_graded_lexico as h, sizeof_multi_indices as sz
d, N = 58, 2
t = h(N, d)
assert t.min() >= 0 and t.max() == sz(d, 3, 0) - 1, (t.min(), t.max(), sz(d, 3, 0))
''')
B('c11-sampler-key', 'C11', [(U, "        cs = jax.random.choice(key, self.means.shape[0], (n,), p=self.weights)\n        key, _ = jax.random.split(key)\n        return self.means[cs] +", "        cs = jax.random.choice(key, self.means.shape[0], (n,), p=self.weights)\n        return self.means[cs] +")],
  'looking at the joint law of component and noise', 'the component and the Gaussian noise of a sample are drawn from the same random bits', '''
from mfs.utils import GaussianSum1D
g = GaussianSum1D.new(jnp.array([-.5, .5]), jnp.array([.5, .5]), jnp.array([.5, .5]), N=3)
x = np.asarray(g.sampler(jax.random.PRNGKey(3), 200000))
assert abs(x.var() - float(g.variance)) < .02, (x.var(), g.variance)
''')
B('c12-scale-floor', 'C12', [(M1, "        scale = jnp.sqrt(rms[2] - rms[1] ** 2)\n", "        scale = jnp.sqrt(jnp.maximum(rms[2] - rms[1] ** 2, 1e-4))\n")],
  'a variable with standard deviation below 0.01', 'scaled moments of concentrated variables are not scaled to unit variance', '''
from mfs.one_dim.moments import raw_to_scaled
s = 1e-3
r = raw_to_scaled(jnp.array([1., 0., s ** 2, 0., 3 * s ** 4, 0.]))
assert np.allclose(r, [1., 0., 1., 0., 3., 0.]), r
''')
B('c13-mean-order', 'C13', [(M1, "    \"\"\"Create conditional moments based on TME expansion and Normal approximation.\n    \"\"\"\n    num_moments = 2 * N\n", "    \"\"\"Create conditional moments based on TME expansion and Normal approximation.\n    \"\"\"\n    num_moments = 2 * N\n    tme_order = min(tme_order, 3)\n")],
  'expansion order above three', 'a requested higher-order expansion is silently truncated', '''
import tme.base_jax as tme
from mfs.one_dim.moments import sde_cond_moments_tme_normal
dr, ds = (lambda x: jnp.sin(x)), (lambda x: jnp.ones_like(x))
f = sde_cond_moments_tme_normal(dr, lambda _: 1., .4, 4, 2)
x = jnp.array([.7])
want = tme.mean_and_cov(x, .4, dr, lambda _: jnp.ones((1, 1)), order=4)
got = f[4](x)
assert np.allclose(got[0], want[0], atol=1e-10) and np.allclose(got[1], want[1].ravel(), atol=1e-10), (got, want)
''')
B('c14-diagonal-noise', 'C14', [(MN, "        b = dispersion(x)\n        return x + drift(x) * dt, jnp.diagonal(b @ b.T) * dt", "        b = dispersion(x)\n        return x + drift(x) * dt, jnp.diagonal(b) ** 2 * dt")],
  'a dispersion matrix that is not diagonal', 'the conditional variances ignore off-diagonal noise', '''
from mfs.multi_dims.moments import sde_cond_moments_euler_maruyama
B_ = jnp.array([[1., .5], [.3, .7]])
f = sde_cond_moments_euler_maruyama(lambda x: -x, lambda x: B_, .1, np.array([[0, 0], [0, 1], [1, 0]]))
assert np.allclose(f[4](jnp.ones((1, 2)))[1][0], np.diag(B_ @ B_.T) * .1)
''')
B('c15-correlated-noise', 'C15', [(GF, "    S = H @ vp @ H.T + Xi\n", "    S = H @ vp @ H.T + jnp.diag(jnp.diagonal(Xi))\n")],
  'a multivariate measurement with correlated noise', 'measurement noise correlations are dropped', '''
from mfs.classical_filters_smoothers import kf
H, Xi = jnp.eye(2), jnp.array([[1., .9], [.9, 1.]])
m, v, _ = kf(jnp.eye(2), .1 * jnp.eye(2), H, Xi, jnp.zeros(2), jnp.eye(2), jnp.array([[1., -1.]]))
P = 1.1 * np.eye(2)
K = P @ np.linalg.inv(P + Xi)
assert np.allclose(m[0], K @ np.array([1., -1.])), m
''')
B('c16-predictive-jitter', 'C16', [(GF, "    c, low = jax.scipy.linalg.cho_factor(vp)\n    G = jax.scipy.linalg.cho_solve((c, low), DT).T\n", "    c, low = jax.scipy.linalg.cho_factor(vp + 1e-9 * jnp.eye(vp.shape[0]))\n    G = jax.scipy.linalg.cho_solve((c, low), DT).T\n")],
  'states in small units (variances around 1e-8)', 'a fixed jitter on the predictive covariance shrinks the smoother gain', '''
from mfs.classical_filters_smoothers import kf, rts
def run(s):
    F, Q, H = jnp.array([[.9]]), jnp.array([[.2]]) * s ** 2, jnp.eye(1)
    ys = jnp.array([[.3], [1.2], [-.4], [.8]]) * s
    m, v, _ = kf(F, Q, H, jnp.eye(1) * .3 * s ** 2, jnp.zeros(1), jnp.eye(1) * s ** 2, ys)
    return np.asarray(rts(F, Q, m, v)[0]) / s
assert np.allclose(run(1.), run(1e-4), rtol=1e-6), (run(1.), run(1e-4))
''')
B('c17-smoother-noise', 'C17', [(GF, "        vp = jac_F @ vf @ jac_F.T + Sigma\n        ms, vs = _gaussian_smoother_shared(jac_F", "        vp = jac_F @ vf @ jac_F.T + state_cond_m_cov(ms, dt)[1]\n        ms, vs = _gaussian_smoother_shared(jac_F")],
  'a transition covariance that depends on the state', 'the extended smoother predicts with the noise at the smoothed instead of the filtered mean', '''
from mfs.classical_filters_smoothers import eks
mf, vf = jnp.array([[0.], [3.]]), jnp.array([[[1.]], [[.5]]])
ms, vs = eks(lambda x, h: (x, jnp.atleast_2d(1. + x[0] ** 2)), mf, vf, 1.)
assert abs(float(ms[0, 0]) - 1.5) < 1e-9 and abs(float(vs[0, 0, 0]) - .625) < 1e-9, (ms, vs)
''')
B('c20-unsorted-weights', 'C20', [(RS, "    xs, ws = samples[idx], weights[idx]\n", "    xs, ws = samples[idx], weights\n")],
  'continuous resampling of unsorted samples with unequal weights', 'the samples are sorted but their weights are not', '''
from mfs.classical_filters_smoothers.resampling import continuous_resampling
x = jnp.array([2., -1., 0., 1., -2.])
w = jnp.array([.9, .025, .025, .025, .025])
r = continuous_resampling(x, w, 1000, jax.random.PRNGKey(0))
assert float(jnp.mean(r)) > 1., jnp.mean(r)
''')
B('c23-shared-noise', 'C23', [(U, "    normal_increments = jax.random.normal(key=key, shape=(T, integration_steps, d))\n", "    normal_increments = jax.random.normal(key=key, shape=(T * integration_steps, 1)) * jnp.ones((1, d))\n    normal_increments = normal_increments.reshape(T, integration_steps, d)\n")],
  'a state of dimension two or more', 'all components of the state are driven by the same noise', '''
from mfs.utils import simulate_sde
x = np.asarray(simulate_sde(lambda x, h: (0. * x, h * jnp.eye(2)), jnp.zeros(2), 1., 5000, jax.random.PRNGKey(0)))
assert abs(np.corrcoef(x.T)[0, 1]) < .1
''')
B('c25-bell-order', 'C25', [(U, "        terms = [math.comb(n - 1, i - 1) * xs[i - 1] * partial_bell(n - i, k - 1, xs) for i in range(1, n - k + 1 + 1)]\n", "        terms = [math.comb(n - 1, i - 1) * xs[i - 1] * partial_bell(n - i, k - 1, xs) for i in range(1, min(n - k + 1, 9) + 1)]\n")],
  'orders of ten and above', 'the highest terms of Bell polynomials are dropped', '''
from mfs.utils import partial_bell
for n in (3, 9, 11):
    assert partial_bell(n, 1, list(range(1, n + 1))) == n, n
''')
B('c26-last-term', 'C26', [(PD, "             for j in range(order + 1)]\n", "             for j in range(order + order % 2)]\n")],
  'an even number of cumulants', 'the last term of the series is dropped', '''
from mfs.one_dim.pdf_approximations import gram_charlier
f = gram_charlier(jnp.array([0., 1., .1, .3]))
x = jnp.linspace(-12., 12., 4001)
m4 = float(jnp.trapz(x ** 4 * f(x), x))
assert abs(m4 - 3.3) < 1e-6, m4
''')
B('c26-cf-scale', 'C26', [(M1, "    weights, nodes = moment_quadrature(ms, mean, scale, sort_nodes=False)\n    return jnp.dot(jnp.exp(1.j * z * nodes), weights)", "    weights, nodes = moment_quadrature(ms, 0., scale, sort_nodes=False)\n    return jnp.exp(1.j * z * scale * mean) * jnp.dot(jnp.exp(1.j * z * nodes), weights)")],
  'scaled moments with non-zero mean and a scale other than one', 'the phase of the characteristic function is scaled', '''
from mfs.one_dim.moments import characteristic_fn
z = np.array([1., 0., 1., 0., 3., 0., 15., 0.])
got = characteristic_fn(.3, jnp.array(z), .7, 2.)
assert abs(got - np.exp(.3j * .7 - .5 * .36)) < 1e-4, got
''')
B('c28-hard-coded-steps', 'C28', [(SN, "        ddws = math.sqrt(ddt) * jax.random.normal(key=key_ws, shape=(T, integration_steps, 2))\n", "        ddws = math.sqrt(dt / 100) * jax.random.normal(key=key_ws, shape=(T, integration_steps, 2))\n")],
  'simulating with another number of integration steps than the default', 'the Wiener increments do not have the variance of the substep', '''
from mfs.multi_dims.ss_models import prey_predator
m = prey_predator(np.array([[0, 0], [0, 1], [1, 0]]))
v = []
for n in (100, 1):
    x0, xs, _ = m[8](jax.random.PRNGKey(2), integration_steps=n)
    p = np.concatenate([np.asarray(x0)[None], np.asarray(xs)])
    v.append(np.mean(np.diff(np.log(p[:, 0]) + 0.) ** 2) / m[0])
r = np.diff(np.log(p), axis=0)
dr = np.array([np.asarray(m[4](jnp.asarray(q))) / q for q in p[:-1]]) * m[0]
s = np.std(r - dr) / np.sqrt(m[0])
assert abs(s - .1) < .01, s
''')
B('c29-record-dtype', 'C29', [(GF, "    def scan_body(carry, elem):\n        mf, vf, n_ell = carry\n        y = elem\n\n        mp, vp = _linear_predict(F, Sigma, mf, vf)\n        mf, vf, n_ell_inc = _linear_update(mp, vp, H, H @ mp, Xi, y)\n        n_ell = n_ell + n_ell_inc\n        return (mf, vf, n_ell), (mf, vf, n_ell)\n\n    _, (mfs, vfs, n_ell) = jax.lax.scan(scan_body, (m0, v0, 0.), ys)",
                               "    def scan_body(carry, elem):\n        mf, vf, n_ell = carry\n        y = elem\n\n        mp, vp = _linear_predict(F, Sigma, mf, vf)\n        mf, vf, n_ell_inc = _linear_update(mp, vp, H, H @ mp, Xi, y)\n        n_ell = (n_ell + n_ell_inc).astype(ys.dtype)\n        return (mf, vf, n_ell), (mf, vf, n_ell)\n\n    _, (mfs, vfs, n_ell) = jax.lax.scan(scan_body, (m0, v0, jnp.zeros((), dtype=ys.dtype)), ys)")],
  'a record of integers', 'the likelihood is accumulated in the type of the measurements and truncated to integers', '''
from mfs.classical_filters_smoothers import kf
I = jnp.eye(1)
y = np.array([[1], [0], [2], [-1]])
a = kf(I, I, I, I, jnp.zeros(1), I, jnp.asarray(y))[2]
b = kf(I, I, I, I, jnp.zeros(1), I, jnp.asarray(y, float))[2]
assert np.allclose(a, b), (a, b)
''')
B('c30-cached-indices', 'C30', [(QN, "import itertools\n", "import functools\nimport itertools\n"), (QN, "def nd_cartesian_prod_indices(d: int, n: int)", "@functools.lru_cache(maxsize=None)\ndef nd_cartesian_prod_indices(d: int, n: int)")],
  'a caller that modifies the returned index table', 'the table is shared between calls, later quadratures use the modified one', '''
from mfs.multi_dims.quadratures import nd_cartesian_prod_indices as f
a = f(2, 3)
b = a.copy()
a += 1
assert np.array_equal(f(2, 3), b)
''')
B('c01-pruned-weights', 'C01', [(Q1, "                                        left_side=False, lower=True, transpose_a=True)\n\n    eigen_vectors, eigen_vals = jax.lax.linalg.eigh(K, sort_eigenvalues=sort_nodes)\n\n    return eigen_vectors[0, :] ** 2, scale * eigen_vals + mean\n",
                                  "                                        left_side=False, lower=True, transpose_a=True)\n\n    eigen_vectors, eigen_vals = jax.lax.linalg.eigh(K, sort_eigenvalues=sort_nodes)\n    weights = eigen_vectors[0, :] ** 2\n    # Weights at rounding level are noise.\n    return jnp.where(weights < 1e-10, 0., weights), scale * eigen_vals + mean\n")],
  'a law with a rare but far outlier', 'nodes of small weight are dropped, the higher moments are not reproduced', '''
from mfs.one_dim.quadtures import moment_quadrature
x, p = np.array([-1., 1., 100.]), np.array([.5, .5 - 1e-11, 1e-11])
ms = np.array([np.sum(p * x ** k) for k in range(6)])
w, n = moment_quadrature(jnp.asarray(ms))
got = float(jnp.sum(w * n ** 5))
assert abs(got - ms[5]) < .01, (got, ms[5])
''')
B('c02-floor-likelihood', 'C02', [(F1, "        rms = jnp.einsum('ij,i->j', unnormalised_posterior_moment_integrand(y, nodes, moment_powers), weights) / pdf_y\n        nell -= jnp.log(pdf_y)\n",
                                   "        rms = jnp.einsum('ij,i->j', unnormalised_posterior_moment_integrand(y, nodes, moment_powers), weights) / pdf_y\n        nell -= jnp.log(jnp.maximum(pdf_y, 1e-8))\n")],
  'a measurement of predictive density below 1e-8', 'the likelihood of unlikely measurements is replaced by a floor', '''
from mfs.one_dim.filtering import moment_filter_rms
def trans(x, n):
    m, v = .9 * x, .1
    r = [jnp.ones_like(m), m, m ** 2 + v, m ** 3 + 3 * m * v]
    return jnp.stack(r, 1)
r0 = jnp.array([1., 0., 1., 0.])
lik = lambda y, x: jax.scipy.stats.norm.pdf(y, x, 1.)
ys = jnp.array([.2, .6, .1])
small = lambda y, x: 1e-12 * lik(y, x)
a = moment_filter_rms(trans, lik, r0, ys)[1]
b = moment_filter_rms(trans, small, r0, ys)[1]
assert abs(float(b - a) - 3 * np.log(1e12)) < 1e-6, (a, b)
''')
B('c04-guarded-division', 'C04', [(FN, "                         unnormalised_posterior_moment_integrand(y, nodes, multi_indices, mean),\n                         weights) / pdf_y\n",
                                   "                         unnormalised_posterior_moment_integrand(y, nodes, multi_indices, mean),\n                         weights) / (pdf_y + 1e-14)\n")],
  'measurements of small likelihood', 'a guard added to the normalising constant leaves the posterior moments unnormalised', '''
from mfs.multi_dims.filtering import moment_filter_nd_cms
from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices as g, gram_and_hankel_indices_graded_lexico as h
from mfs.multi_dims.moments import sde_cond_moments_euler_maruyama, raw_moments_mvn_kan
N, d = 2, 2
mi = g(d, 3, 0)
fs = sde_cond_moments_euler_maruyama(lambda x: -x, lambda x: jnp.eye(2), .1, mi)
c0 = jnp.array([raw_moments_mvn_kan(np.zeros(2), np.eye(2), m) for m in mi])
for f in (1., 1e-12):
    lik = lambda y, x: f * jax.scipy.stats.norm.pdf(y, x[0], 1.)
    r = moment_filter_nd_cms((fs[1], 'index'), fs[3], lik, jnp.array([.3, -.2]), (jnp.asarray(mi), h(N, d)), c0, jnp.zeros(2))
    assert np.allclose(r[0][:, 0], 1., atol=1e-4), r[0][:, 0]
''')
B('c08-stable-update', 'C08', [(FN, "        weights, nodes = moment_quadrature_nd(rms, inds, ldl=stable)\n        pdf_y =", "        weights, nodes = moment_quadrature_nd(rms, inds)\n        pdf_y =")],
  'the stable option with predicted moments that are not positive definite', 'the update step of the raw filter ignores the stable option', '''
from mfs.multi_dims.filtering import moment_filter_nd_rms
from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices as g, gram_and_hankel_indices_graded_lexico as h
N, d = 2, 2
mi = g(d, 3, 0)
bad = jnp.array([1., .1, .2, -.1, .05, .8, .1, .1, .1, .1])
good = jnp.array([1., 0., 0., 1., 0., 1., 0., 0., 0., 0.])
lik = lambda y, x: jax.nn.sigmoid(x[0] + y)
r, n = moment_filter_nd_rms((lambda x, i: jnp.ones((x.shape[0], 1)) * bad, 'index'), lik, jnp.array([.3]), (jnp.asarray(mi), h(N, d)), good, stable=True)
assert np.all(np.isfinite(r)) and np.isfinite(n), (r, n)
''')
B('c18-smoother-dispersion', 'C18', [(GF, "        gamma = dispersion(m) @ dispersion(m).T\n", "        gamma = dispersion(mf) @ dispersion(mf).T\n")],
  'a dispersion that depends on the state', 'the smoother uses the noise at the filtering instead of the smoothing mean', '''
from mfs.classical_filters_smoothers import cd_eks
dr, ds = (lambda x: -x), (lambda x: jnp.atleast_2d(jnp.exp(x)))
mf, vf, ms, vs, dt = np.array([[0.], [1.]]), np.array([[[1.]], [[.5]]]), 1., .5, 1e-3
r = cd_eks(dr, ds, jnp.asarray(mf), jnp.asarray(vf), dt)
g = np.exp(2. * ms)
want = ms - dt * (-ms + g / 1. * (ms - 0.))
assert abs(float(r[0][0, 0]) - want) < 4e-4, (r[0], want)
''')
B('c19-pruned-weights', 'C19', [(CQ, "        w = s * np.prod(w_1d[table], axis=0)\n", "        w = s * np.prod(w_1d[table], axis=0)\n        w = np.where(w < 1e-10, 0., w)\n")],
  'high-order rules or many dimensions', 'nodes of small weight are dropped from the rule, which is no longer exact for its degree', '''
from mfs.classical_filters_smoothers.quadratures import SigmaPoints
n = 20
q = SigmaPoints.gauss_hermite(1, n)
want = np.prod(np.arange(1., 2 * n - 2, 2))
got = float(q.expectation(q.xi[:, 0] ** (2 * n - 2)))
assert abs(got / want - 1) < 1e-6, (got, want)
''')
B('c21-evidence-floor', 'C21', [(SM, "        nell -= jnp.log(jnp.mean(weights))\n", "        nell -= jnp.log(jnp.mean(weights) + 1e-12)\n")],
  'measurements of small likelihood', 'the likelihood estimate has a floor', '''
from mfs.classical_filters_smoothers import bootstrap_filter
from mfs.classical_filters_smoothers.resampling import stratified
def run(f):
    return float(bootstrap_filter(lambda x, k: .9 * x + .3 * jax.random.normal(k, x.shape), lambda y, x: f * jax.scipy.stats.norm.pdf(y, x, 1.), jnp.array([.1, .4, -.3]),
                                  lambda k, n: jax.random.normal(k, (n,)), jax.random.PRNGKey(1), 100, stratified)[1])
assert abs(run(1e-12) - run(1.) - 3 * np.log(1e12)) < 1e-6, (run(1.), run(1e-12))
''')
B('c21-recycled-keys', 'C21', [(SM, "    keys = jax.random.split(key, num=ys.shape[0])\n\n    (*_, nell_ys), solution_samples =", "    # A fixed number of keys keeps the key table small for long records.\n    num_keys = min(ys.shape[0], 1024)\n    keys = jax.random.split(key, num=num_keys)[jnp.arange(ys.shape[0]) % num_keys]\n\n    (*_, nell_ys), solution_samples =")],
  'a record of more than 1024 measurements', 'the random numbers of the filter repeat with period 1024', '''
from mfs.classical_filters_smoothers import bootstrap_filter
from mfs.classical_filters_smoothers.resampling import stratified
x, _ = bootstrap_filter(lambda x, k: jax.random.normal(k, x.shape), lambda y, x: jnp.ones_like(x), jnp.zeros(2000),
                        lambda k, n: jax.random.normal(k, (n,)), jax.random.PRNGKey(1), 50, stratified)
x = np.sort(np.asarray(x), 1)
assert len(np.unique(np.round(x[:, 0], 12))) == 2000, len(np.unique(x[:, 0]))
''')
B('c22-rectangle-rule', 'C22', [(BF, "        return jnp.trapz(jax.scipy.stats.norm.pdf(x, m, scale) * ps, xs)\n", "        return jnp.sum(jax.scipy.stats.norm.pdf(x, m, scale) * ps) * dx\n")],
  'an uneven grid', 'the prediction integral assumes an evenly spaced grid', '''
from mfs.classical_filters_smoothers.brute_force import brute_force_filter
xs = jnp.sinh(jnp.linspace(-3., 3., 600))
p0 = jax.scipy.stats.norm.pdf(xs, 0., 1.)
p = brute_force_filter(lambda x: -.1 * x, lambda x: 1. + 0. * x, lambda y, x: jnp.ones_like(x), p0, xs, jnp.zeros(1), .5, pred_method='chapman-euler')[0]
v = float(jnp.trapz(xs ** 2 * p, xs))
assert abs(v - (.95 ** 2 + .5)) < 5e-3, v
''')
B('c23-few-squarings', 'C23', [(U, "    F = jax.scipy.linalg.expm(A * dt)\n", "    F = jax.scipy.linalg.expm(A * dt, max_squarings=4)\n")],
  'an interval of many time constants', 'the transition matrix is not a number over long intervals', '''
from mfs.utils import discretise_lti_sde
w, dt = 2., 200.
F, C = discretise_lti_sde(jnp.array([[0., w], [-w, 0.]]), jnp.array([[0.], [1.]]), dt)
assert np.allclose(F, [[np.cos(w * dt), np.sin(w * dt)], [-np.sin(w * dt), np.cos(w * dt)]], atol=1e-8), F
''')
B('c24-guarded-norm', 'C24', [(U, "        v = w / beta\n", "        v = w / (beta + 1e-14)\n")],
  'a matrix of small entries', 'the basis of the Krylov space is not normalised', '''
from mfs.utils import lanczos
rng = np.random.default_rng(0)
a = rng.normal(size=(6, 6)); a = (a + a.T)
v, *_ = lanczos(jnp.asarray(1e-12 * a), jnp.eye(6)[0], 4)
assert np.allclose(v.T @ v, np.eye(4), atol=1e-5), v.T @ v
''')
B('c27-previous-state', 'C27', [(U, "htt_logpdf_likelihood(yt_mcs, xt_mcs)", "htt_logpdf_likelihood(yt_mcs, xs_mcs)")],
  'a likelihood whose curvature depends on the state', 'the measurement information is evaluated at the previous state', '''
from mfs.utils import posterior_cramer_rao
lt = lambda x, s: -.5 * jnp.sum((x - s) ** 2)
ll = lambda y, x: -jnp.sum(jnp.exp(x)) + jnp.sum(y * x)
x = np.array([0., .5, -1.]).reshape(3, 1, 1)
js = posterior_cramer_rao(jnp.asarray(x), jnp.ones((2, 1, 1)), jnp.eye(1), lt, ll)
j = 1.
for k in range(2):
    j = 1. + np.exp(x[k + 1, 0, 0]) - 1. / (j + 1.)
    assert abs(float(js[k, 0, 0]) - j) < 1e-8, (k, js[k], j)
''')
B('c30-memo-window', 'C30', [(MI, "    z = sizeof_multi_indices(d, upper_sum, lower_sum)\n    multi_indices = np.zeros((z, d), dtype='int64')\n", "    z = sizeof_multi_indices(d, upper_sum, lower_sum)\n    if (d, z) in _generated:\n        return _generated[d, z].copy()\n    multi_indices = np.zeros((z, d), dtype='int64')\n"),
                              (MI, "        multi_indices[i, :] = _next_graded_lexico_multi_index(multi_indices[i - 1, :])\n\n    return multi_indices\n", "        multi_indices[i, :] = _next_graded_lexico_multi_index(multi_indices[i - 1, :])\n\n    _generated[d, z] = multi_indices.copy()\n    return multi_indices\n"),
                              (MI, "def _next_graded_lexico_multi_index(", "_generated = {}\n\n\ndef _next_graded_lexico_multi_index(")],
  'two windows with equally many multi-indices in one process', 'the second one returns the multi-indices of the first', '''
from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices as g
a = g(2, 2, 0)  # six multi-indices
b = g(2, 5, 5)  # six as well
assert np.all(b.sum(1) == 5) and np.all(a.sum(1) <= 2), b
''')
B('c22-order-cap', 'C22', [(BF, "            _m, _cov = tme.mean_and_cov(x, ddt, drift, dispersion, order=order)\n", "            _m, _cov = tme.mean_and_cov(x, ddt, drift, dispersion, order=min(order, 3))\n")],
  'an expansion order above three', 'the requested order of the transition is silently truncated', '''
from mfs.classical_filters_smoothers.brute_force import brute_force_filter
xs = jnp.linspace(-8., 8., 1000)
p0 = jax.scipy.stats.norm.pdf(xs, 3., .5)
p = brute_force_filter(lambda x: -x, lambda x: .5, lambda y, x: jnp.ones_like(x), p0, xs, jnp.zeros(1), .8, pred_method='chapman-tme-4')[0]
m = float(jnp.trapz(xs * p, xs))
want = 3. * sum((-.8) ** k / np.prod(np.arange(1., k + 1)) for k in range(5))
assert abs(m - want) < 1e-4, (m, want)
''')
B('c31-normal-order', 'C31', [('dardel/benes_bernoulli/mf.py', "        dispersion,\n        dt,\n        tme_order,\n        N)\n", "        dispersion,\n        dt,\n        3,\n        N)\n")],
  'running the normal approximation with another expansion order than the default', 'the script ignores the requested order and stores results of order three', '''
import subprocess, tempfile, shutil
d = tempfile.mkdtemp()
try:
    os.makedirs(d + '/results/benes_bernoulli_mf')
    np.save(d + '/rng_keys.npy', np.asarray(jax.random.split(jax.random.PRNGKey(3), 1)))
    r = []
    for o in ('1', '3'):
        subprocess.run([sys.executable, os.getcwd() + '/dardel/benes_bernoulli/mf.py', '--N', '3', '--tme', o, '--normal', '--maxmc', '1'], cwd=d, check=True, stdout=subprocess.DEVNULL)
        r.append(np.load(d + '/results/benes_bernoulli_mf/central_normal_N_3_mc_0.npz')['means'])
    assert np.max(np.abs(r[0] - r[1])) > 1e-12, 'the order has no effect'
finally:
    shutil.rmtree(d)
''')
