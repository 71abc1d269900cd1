"""Behaviour-preserving rewrites of the code under test: every check has to stay quiet on them.

usage: refactor.py DIR     copies /repo to DIR and applies all of them there (then: RV_REPO=DIR ./check Cxx quick)
"""
import ast
import subprocess
import sys
import textwrap

R = []


def E(f, *pairs):
    R.append((f, pairs))


Q1, F1, M1, PA = 'mfs/one_dim/quadtures.py', 'mfs/one_dim/filtering.py', 'mfs/one_dim/moments.py', 'mfs/one_dim/pdf_approximations.py'
QN, FN, MN, MI = 'mfs/multi_dims/quadratures.py', 'mfs/multi_dims/filtering.py', 'mfs/multi_dims/moments.py', 'mfs/multi_dims/multi_indices.py'
C = 'mfs/classical_filters_smoothers/'
BF, GF, RS, SM, CQ, U = C + 'brute_force.py', C + 'gfs.py', C + 'resampling.py', C + 'smc.py', C + 'quadratures.py', 'mfs/utils.py'

# ---- one-dimensional quadrature: solve in another order, helper extracted
E(Q1, ("""    K = jax.lax.linalg.triangular_solve(R,
                                        jax.lax.linalg.triangular_solve(R, H,
                                                                        left_side=True, lower=True),
                                        left_side=False, lower=True, transpose_a=True)

    eigen_vectors, eigen_vals = jax.lax.linalg.eigh(K, sort_eigenvalues=sort_nodes)

    return eigen_vectors[0, :] ** 2, scale * eigen_vals + mean
""", """    K = jax.scipy.linalg.solve_triangular(R, jax.scipy.linalg.solve_triangular(R, H, lower=True).T, lower=True).T
    return _spectral_rule(K, mean, scale, sort_nodes)


def _spectral_rule(K, mean, scale, sort_nodes):
    eigen_vectors, eigen_vals = jax.lax.linalg.eigh(K, sort_eigenvalues=sort_nodes)
    first = eigen_vectors[0]
    return first * first, mean + eigen_vals * scale
"""))
# ---- one-dimensional filters: the likelihood once, posterior weights
E(F1, ("""        pdf_y = jnp.dot(jax.vmap(measurement_cond_pdf, in_axes=[None, 0])(y, nodes), weights)
        rms = jnp.einsum('ij,i->j', unnormalised_posterior_moment_integrand(y, nodes, moment_powers), weights) / pdf_y
        nell -= jnp.log(pdf_y)

        return (rms, nell), rms
""", """        likelihoods = jax.vmap(lambda x: measurement_cond_pdf(y, x))(nodes)
        pdf_y = jnp.sum(likelihoods * weights)
        posterior = likelihoods * weights / pdf_y
        rms = (nodes[:, None] ** moment_powers[None, :]).T @ posterior
        return rms, (rms, -jnp.log(pdf_y))
"""), ("""    (_, nell_ys), rmss = jax.lax.scan(scan_body, (rms0, 0.), ys)
    return rmss, nell_ys
""", """    _, (rmss, nells) = jax.lax.scan(scan_body, rms0, ys)
    return rmss, jnp.sum(nells)
"""), ("""        rms, nell = carry
        y = elem
""", """        rms, y = carry, elem
"""), ("""        cond_means = state_cond_mean(nodes)
        mean = jnp.dot(cond_means, weights)
""", """        mean = jnp.sum(weights * state_cond_mean(nodes))
"""), ("""        scale = jnp.sqrt(jnp.dot(unnormalised_posterior_moment_integrand(y, nodes, jnp.array([2]), mean, 1.)[:, 0],
                                 weights) / pdf_y)
""", """        second = unnormalised_posterior_moment_integrand(y, nodes, jnp.array([2]), mean, 1.)
        scale = jnp.sqrt(weights @ second[:, 0]) / jnp.sqrt(pdf_y)
"""))
# ---- one-dimensional moments
E(M1, ("""    return sum([float(math.comb(p, m)) * mean ** m * variance ** ((p - m) / 2) * raw_moment_of_standard_normal(p - m)
                for m in range(p + 1)])
""", """    total = 0.
    for m in range(p % 2, p + 1, 2):
        total = total + float(math.comb(p, m)) * raw_moment_of_standard_normal(p - m) * mean ** m * variance ** ((p - m) // 2)
    return total
"""), ("""    return raw_to_central(rms) / jnp.array([scale ** n for n in range(rms.shape[0])])
""", """    return raw_to_central(rms) / scale ** jnp.arange(rms.shape[0])
"""))
# ---- multi-dimensional quadrature
E(QN, ("""    if x.ndim == 2:
        return jnp.diagonal(x.T[inds], axis1=1, axis2=2)
    elif x.ndim == 3:
        return jnp.diagonal(jnp.transpose(x, [2, 0, 1])[inds], axis1=1, axis2=2)
""", """    if x.ndim == 2:
        return x[jnp.arange(x.shape[0]), inds]
    elif x.ndim == 3:
        return jnp.moveaxis(x[jnp.arange(x.shape[0]), :, inds], 2, 1)
"""), ("""    if mean is None:
        return weights, combs_eigvals
    elif scale is None:
        return weights, combs_eigvals + mean
    else:
        return weights, combs_eigvals * scale + mean
""", """    nodes = combs_eigvals
    if mean is not None:
        if scale is not None:
            nodes = nodes * scale
        nodes = nodes + mean
    return weights, nodes
"""))
# ---- multi-dimensional filters: one helper for the update
E(FN, ("""        pdf_y = jnp.einsum('i,i', jax.vmap(measurement_cond_pdf, in_axes=[None, 0])(y, nodes), weights)
        rms = jnp.einsum('ij,i->j', unnormalised_posterior_moment_integrand(y, nodes, multi_indices), weights) / pdf_y
        nell -= jnp.log(pdf_y)
""", """        posterior, pdf_y = _posterior_weights(measurement_cond_pdf, y, nodes, weights)
        rms = posterior @ jnp.prod(nodes[:, None, :] ** jnp.asarray(multi_indices)[None], axis=-1)
        nell = nell - jnp.log(pdf_y)
"""), ("""def moment_filter_nd_cms(""", """def _posterior_weights(measurement_cond_pdf, y, nodes, weights):
    likelihoods = jax.vmap(lambda x: measurement_cond_pdf(y, x))(nodes) * weights
    evidence = jnp.sum(likelihoods)
    return likelihoods / evidence, evidence


def moment_filter_nd_cms("""))
# ---- multi-indices: another way to enumerate
E(MI, ("""    z = sizeof_multi_indices(d, upper_sum, lower_sum)
    multi_indices = np.zeros((z, d), dtype='int64')
""", """    z = sizeof_multi_indices(d, upper_sum, lower_sum)
    if z < 2000:
        def level(total, length):
            if length == 1:
                return [(total,)]
            return [(k, *rest) for k in range(total + 1) for rest in level(total - k, length - 1)]
        return np.array([m for total in range(lower_sum, upper_sum + 1) for m in level(total, d)], dtype='int64').reshape(z, d)
    multi_indices = np.zeros((z, d), dtype='int64')
"""))
# ---- Kan moments by the same sum, vectorised differently
E(MN, ("""    combs = np.prod(scipy_comb(np.asarray(multi_index), vs), axis=1)
    quad_prods = (hs[:, None, :] @ cov @ hs[:, :, None] / 2).reshape((vs.shape[0],)) ** (s / 2)
""", """    combs = scipy_comb(np.asarray(multi_index), vs).prod(axis=1)
    quad_prods = (((hs @ cov) * hs).sum(axis=1) / 2) ** (s / 2)
"""))
# ---- Gaussian filters: Joseph form, solve instead of Cholesky solve
E(GF, ("""    return mp + K @ (y - pred_y), vp - K @ S @ K.T, n_ell
""", """    residual = y - pred_y
    L = jnp.eye(vp.shape[0]) - K @ H
    return mp + K @ residual, L @ vp @ L.T + K @ Xi @ K.T, n_ell
"""), ("""    c, low = jax.scipy.linalg.cho_factor(vp)
    G = jax.scipy.linalg.cho_solve((c, low), DT).T
    ms = mf + G @ (ms - mp)
    vs = vf + G @ (vs - vp) @ G.T
    return ms, vs
""", """    G = jnp.linalg.solve(vp, DT).T
    return mf + G @ (ms - mp), vf + G @ vs @ G.T - G @ vp @ G.T
"""), ("""    C = sgps.expectation(_vectorised_outer(chi, evals_m)) - jnp.outer(mp, sgps.expectation(evals_m))
""", """    C = sgps.expectation(_vectorised_outer(chi - mp, evals_m - pred))
"""))
# ---- brute force: the transition matrix once
E(BF, ("""            _ps = jax.vmap(integrate_transition, in_axes=[0, None])(xs, _ps)
            return _ps, None
""", """            _ps = transition @ (_ps * trapezoid)
            return _ps, None
"""), ("""    def pred_chapman(ps):
""", """    def pred_chapman(ps):
        gaps = jnp.diff(xs) / 2
        trapezoid = jnp.pad(gaps, (0, 1)) + jnp.pad(gaps, (1, 0))
        transition = jax.scipy.stats.norm.pdf(xs[:, None], m[None, :], scale)

"""), ("""        ps = measurement_cond_pdf(y, xs) * ps / jnp.trapz(measurement_cond_pdf(y, xs) * ps, xs)
""", """        ps = measurement_cond_pdf(y, xs) * ps
        ps = ps / jnp.trapz(ps, xs)
"""))
# ---- sequential Monte Carlo
E(SM, ("""        nell -= jnp.log(jnp.mean(weights))
        weights = weights / weights.sum()
""", """        total = jnp.sum(weights)
        nell = nell - jnp.log(total) + jnp.log(weights.shape[0])
        weights = weights / total
"""))
E(RS, ("""    if is_systematic:
        u = jax.random.uniform(key, ())
    else:
        u = jax.random.uniform(key, (n,))
""", """    u = jax.random.uniform(key, () if is_systematic else (n,))
"""))
# ---- utilities
E(U, ("""    AB = jax.scipy.linalg.expm(phi * dt) @ jnp.vstack([jnp.zeros_like(A), jnp.eye(d)])
    cov = AB[0:d, :] @ F.T
""", """    cov = jax.scipy.linalg.expm(phi * dt)[:d, d:] @ F.T
"""), ("""        beta = jnp.sqrt(jnp.sum(w ** 2))
        v = w / beta
""", """        beta = jnp.linalg.norm(w)
        v = w / beta
"""), ("""        j = d22 - d12.T @ jnp.linalg.solve(j + d11, d12)
""", """        gain = jnp.linalg.solve(j + d11, d12)
        j = d22 - jnp.einsum('ji,jk->ik', d12, gain)
"""))
E(CQ, ("""    k1_m, k1_v = m_cov_ode(m, v)
    k2_m, k2_v = m_cov_ode(m + dt * k1_m / 2, v + dt * k1_v / 2)
    k3_m, k3_v = m_cov_ode(m + dt * k2_m / 2, v + dt * k2_v / 2)
""", """    half = dt / 2
    k1_m, k1_v = m_cov_ode(m, v)
    k2_m, k2_v = m_cov_ode(m + half * k1_m, v + half * k1_v)
    k3_m, k3_v = m_cov_ode(m + half * k2_m, v + half * k2_v)
"""))
E('dardel/benes_bernoulli/mf.py', ("""    # Load the random key
    key = jnp.asarray(np.load('rng_keys.npy')[k])
    key_x0, key_xs, key_ys = jax.random.split(key, 3)
""", """    # Load the random key
    all_keys = np.load('rng_keys.npy')
    key_x0, key_xs, key_ys = jax.random.split(jnp.asarray(all_keys[k]), 3)
"""))


def norm(a):
    """A fragment in the formatting of ast.unparse."""
    ind = len(a) - len(a.lstrip())
    try:
        return textwrap.indent(ast.unparse(ast.parse(textwrap.dedent(a))), ' ' * ind)
    except SyntaxError:
        return a


def main():
    d = sys.argv[1]
    subprocess.run(['rm', '-rf', d], check=True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    for f, pairs in R:
        p = f'{d}/{f}'
        s = ast.unparse(ast.parse(open(p).read())) + '\n'
        for a, b in pairs:
            a, b = norm(a), b.rstrip('\n') if norm(a) != a else b
            if s.count(a) != 1:
                print('NOT APPLIED', f, s.count(a), a)
                continue
            s = s.replace(a, b)
        ast.parse(s)
        open(p, 'w').write(s)


main()
