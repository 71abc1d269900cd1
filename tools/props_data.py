"""Single source of properties.jsonl and MANIFEST.json (run tools/gen.py after editing)."""
Q1 = 'mfs/one_dim/quadtures.py'
F1 = 'mfs/one_dim/filtering.py'
M1 = 'mfs/one_dim/moments.py'
PD = 'mfs/one_dim/pdf_approximations.py'
S1 = 'mfs/one_dim/ss_models.py'
QN = 'mfs/multi_dims/quadratures.py'
FN = 'mfs/multi_dims/filtering.py'
MN = 'mfs/multi_dims/moments.py'
MI = 'mfs/multi_dims/multi_indices.py'
SN = 'mfs/multi_dims/ss_models.py'
U = 'mfs/utils.py'
GF = 'mfs/classical_filters_smoothers/gfs.py'
CQ = 'mfs/classical_filters_smoothers/quadratures.py'
RS = 'mfs/classical_filters_smoothers/resampling.py'
SM = 'mfs/classical_filters_smoothers/smc.py'
BF = 'mfs/classical_filters_smoothers/brute_force.py'


def P(id, title, statement, over, text, why, mech, observe, note=''):
    files = []
    for _, w in mech:
        f = w.split(':')[0]
        if f not in files:
            files.append(f)
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, mech=mech, observe=observe,
                files=files, note=note)


PROPS = [
    P('C01', 'The 1D moment quadrature is the Gauss rule of the supplied moments',
      'For every probability measure with at least N points of support, the rule built from its first 2N moments (raw, '
      'central or scaled, with the matching mean and scale, with either factorisation and with or without sorting) has '
      'N real nodes and non-negative weights summing to one, reproduces every supplied moment, and equals the '
      'classical Gauss quadrature of that measure.  Changing the units or the origin of the variable maps the nodes '
      'accordingly and leaves the weights unchanged, and the modified factorisation stays finite on moments that are not '
      'positive definite.',
      ['inputs', 'configurations'], 'all moment sequences, representations, orders N and options',
      'The tests use a few Gaussians and gamma laws at small N; the guarantee is over every measure, unit and option.',
      [('Hankel + Golub-Welsch rule', f'{Q1}:_gauss_quadrature_golub_welsch'), ('public entry point', f'{Q1}:moment_quadrature'),
       ('characteristic function by quadrature', f'{M1}:characteristic_fn'), ('modified Cholesky', f'{U}:ldl_chol')],
      ['moment_quadrature(ms, mean, scale, ...) -> weights, nodes', 'characteristic_fn']),
    P('C02', 'The 1D moment filters compute the Bayes recursion',
      'For every model given by conditional moments and a likelihood, every initial moment vector and every measurement '
      'record, the raw, central and scaled one-dimensional moment filters return at each time the moments (and mean and '
      'scale) of the posterior obtained by predicting with the N-point Gauss rule of the previous posterior and updating '
      'with the N-point Gauss rule of the prediction, and the negative log-likelihood of the whole record under that '
      'recursion.',
      ['inputs', 'histories', 'configurations'], 'all models, initial moments, measurement records, N, representations, stable option',
      'Tests check one linear model against the Kalman filter at loose tolerance and one smoke run.',
      [('raw', f'{F1}:moment_filter_rms'), ('central', f'{F1}:moment_filter_cms'), ('scaled', f'{F1}:moment_filter_scms'),
       ('quadrature', f'{Q1}:moment_quadrature')], ['return values of the three filters at every time']),
    P('C03', 'Raw, central, scaled and stable filters describe one and the same posterior',
      'For every model, initial law and measurement record, the raw, central and scaled one-dimensional moment filters, '
      'with or without the stable option, report moments of the same posterior and the same negative log-likelihoods.  '
      'Re-expressing the state in other affine units maps the results accordingly.',
      ['inputs', 'histories', 'configurations'], 'all models, records and affine changes of units; every pair of representation and option',
      'Tests never compare the representations with each other on general models, or change units.',
      [('three filters', f'{F1}:moment_filter_rms/cms/scms'), ('conversions', f'{M1}:raw_to_central')],
      ['filter outputs, pairwise']),
    P('C04', 'Every filter is a causal, restartable, normalised recursion',
      'For every filter in the package and every measurement record, the result at time k depends only on the '
      'measurements up to k, and stopping at any time and restarting from the reported state gives exactly the results of '
      'the uninterrupted run, the negative log-likelihoods adding up across the cut.  Reported posteriors are normalised: '
      'zeroth moment one, vanishing first central moment, unit scaled second moments, densities that integrate to one.',
      ['histories', 'inputs'], 'all records, cut positions and models, for every filter',
      'No test cuts, restarts or perturbs a record; it is a statement about every history.',
      [('scan over measurements', f'{F1}:scan_body'), ('nd', f'{FN}:scan_body_*'), ('Gaussian filters', f'{GF}:kf/ekf/cd_ekf/sgp_filter/cd_sgp_filter'),
       ('brute force', f'{BF}:brute_force_filter'), ('particle', f'{SM}:particle_filter')], ['filter outputs for edited / cut histories']),
    P('C05', 'jit and vmap are transparent and gradients are derivatives',
      'Every filter and smoother returns the same values when executed plainly, compiled, or batched over parameters, '
      'initial states and records.  Reverse- and forward-mode derivatives of their outputs, in particular of the negative '
      'log-likelihood with respect to model parameters, are finite and equal the derivatives of the computed function, as do '
      'those of the one-dimensional quadrature with either factorisation.',
      ['inputs', 'configurations', 'programs'], 'all models, parameters and transformation combinations',
      'Tests differentiate one likelihood only for finiteness; agreement of transformations is never asserted on general input.',
      [('pure JAX programs', f'{F1}:moment_filter_*'), ('nd', f'{FN}:moment_filter_nd_*'), ('gaussian', f'{GF}:kf'), ('ldl', f'{U}:ldl_chol'),
       ('particle', f'{SM}:bootstrap_filter'), ('brute force', f'{BF}:brute_force_filter')],
      ['values under jit / vmap, jax.grad / jvp']),
    P('C06', 'Independent filters agree on the true posterior as their budget grows',
      'On every model where the filters apply, the moment filters, the brute-force filter, the Gauss-Hermite and Kalman '
      'filters and the particle filters approximate the same true posterior moments and the same log-likelihood: on linear '
      'Gaussian models the one- and multi-dimensional moment filters converge to the Kalman filter as N grows, and on nonlinear '
      'non-Gaussian models to the grid solution, with the particle estimates inside their Monte Carlo error.',
      ['inputs', 'histories', 'configurations'], 'all models, records, N and particle numbers',
      'Tests compare two of the methods on a single model and record at loose tolerance.',
      [('moment filters', f'{F1}:moment_filter_*'), ('nd', f'{FN}:moment_filter_nd_*'), ('kf', f'{GF}:kf'),
       ('grid', f'{BF}:brute_force_filter'), ('particles', f'{SM}:bootstrap_filter')], ['posterior means, variances, likelihoods of all methods on one record']),
    P('C07', 'The multidimensional quadrature reproduces every supplied moment',
      'For every law on R^d with positive definite moment matrix, the quadrature built from its moments up to degree 2N-1 '
      '(raw, central or scaled with the matching mean and scale, either factorisation, sorted or not) reproduces each supplied '
      'moment, sums to one, and integrates any function as the product of the spectral resolutions of the '
      'coordinate multiplication operators; for d = 1 it is the Gauss rule, for independent coordinates it integrates separable '
      'functions as the product of their Gauss rules.  The Cartesian-product helpers enumerate the product grid in order, and the '
      'modified factorisation stays finite on indefinite moment matrices.',
      ['inputs', 'configurations'], 'all laws, dimensions, orders, representations and options',
      'Tests cover a few low-degree Gaussian cases.',
      [('operator eigen-decomposition', f'{QN}:moment_quadrature_nd'), ('product grids', f'{QN}:nd_cartesian_prod'),
       ('index matrices', f'{MI}:gram_and_hankel_indices_graded_lexico')], ['moment_quadrature_nd -> weights, nodes']),
    P('C08', 'The multidimensional moment filters compute the Bayes recursion',
      'For every d-dimensional model, initial law and record, the raw, central and scaled filters, with the index or the '
      'multi-index signature and with or without the stable option, return at each time the moments, mean and scale of the '
      'posterior and the negative log-likelihood of the record that the quadrature prediction-update recursion defines.  They agree '
      'with each other across representations, with the one-dimensional filters at d = 1, and under relabelling of the '
      'coordinates; inconsistent input sizes are rejected.',
      ['inputs', 'histories', 'configurations'], 'all models, laws, records, d, N, representations, signatures',
      'Tests run d = 2 with one model and compare to the Kalman filter loosely.',
      [('raw', f'{FN}:moment_filter_nd_rms'), ('central', f'{FN}:moment_filter_nd_cms'), ('scaled', f'{FN}:moment_filter_nd_scms'), ('quadrature', f'{QN}:moment_quadrature_nd')],
      ['return values of the nd filters at every time']),
    P('C09', 'Multi-index bookkeeping is a bijection in graded lexicographic order',
      'For every dimension and degree window, the generated multi-indices are exactly the tuples with total degree in the window, '
      'each once, in graded lexicographic order; the counting function returns their number, the ranking function returns the position of '
      'each, and the Gram and Hankel index matrices point at the moments of the sum of the row, column and shift multi-indices.',
      ['inputs'], 'all dimensions, degree windows and multi-indices',
      'Tests enumerate a few small windows.',
      [('enumeration', f'{MI}:generate_graded_lexico_multi_indices'), ('rank', f'{MI}:graded_lexico_indexof_multi_index'),
       ('count', f'{MI}:sizeof_multi_indices'), ('matrices', f'{MI}:gram_and_hankel_indices_graded_lexico')], ['returned arrays and integers']),
    P('C10', 'Closed-form moments of Gaussian and uniform laws are exact',
      'For every mean, (co)variance, order and multi-index, including degenerate ones, the closed-form raw and central moments of '
      'one- and multi-dimensional normal laws and of uniform laws on boxes equal the exact moments to rounding, for NumPy and JAX '
      'inputs, compiled or not, and their gradients equal the derivatives of the moments.',
      ['inputs'], 'all parameters, orders and multi-indices',
      'Tests check low orders at a few parameters.',
      [('1d', f'{M1}:raw_moment_of_normal'), ('Kan', f'{MN}:raw_moments_mvn_kan'), ('MGF', f'{MN}:raw_moments_mvn_mgf'), ('uniform', f'{MN}:moments_nd_uniform')],
      ['returned moments']),
    P('C11', 'A Gaussian sum has one law: moments, density and sampler agree',
      'For every mixture of Gaussians in one or several dimensions, the reported moments of every representation, mean, variance or covariance, '
      'scale, density and log-density are those of the mixture, and the samples drawn from it follow that mixture, independently across samples and keys.',
      ['inputs', 'histories'], 'all weights, means, covariances, N, keys',
      'Tests look at two-component mixtures and at the first moments only.',
      [('1d', f'{U}:GaussianSum1D'), ('nd', f'{U}:GaussianSumND')], ['fields, pdf, logpdf, sampler']),
    P('C12', 'Converting and extracting moments preserves the law they describe',
      'Converting between raw, central, scaled moments and cumulants returns the moments of the same law in the new representation, to '
      'rounding, for every moment vector, and round trips return the input; compiled and batched execution agree.  Extracting a mean, covariance, moment or '
      'marginal from joint moments, with any leading batch axes, returns that quantity of the joint law.',
      ['inputs'], 'all moment vectors, lengths, dimensions and batch shapes',
      'Tests convert a few Gaussian vectors.',
      [('conversions', f'{M1}:raw_to_central/central_to_raw/raw_to_scaled/scaled_to_central'), ('cumulants', f'{M1}:sms_to_cumulants'),
       ('extraction', f'{MN}:extract_mean/extract_cov/extract_moments/marginalise_moments')], ['returned arrays']),
    P('C13', '1D conditional moments are those of the chosen transition approximation',
      'For every one-dimensional SDE, state, time step, expansion order, centring mean and scale, the conditional raw, central and scaled moments of '
      'every order, the conditional mean and the conditional variance equal those of the chosen approximation (Euler-Maruyama normal, Taylor moment '
      'expansion, or its normal closure), are finite at every state, and are mutually consistent across the representations.',
      ['inputs', 'configurations'], 'all SDEs, states, orders, steps, centres and scales',
      'Tests check a linear SDE and few orders.',
      [('TME', f'{M1}:sde_cond_moments_tme'), ('normal TME', f'{M1}:sde_cond_moments_tme_normal'), ('Euler', f'{M1}:sde_cond_moments_euler')], ['the five returned callables']),
    P('C14', 'Multidimensional conditional moments are those of the chosen approximation',
      'For every d-dimensional SDE, with any number of driving noises, every state, multi-index, time step, expansion order, centring mean and scale vector, the '
      'conditional raw, central and scaled moments, mean and covariance equal those of the chosen approximation (Euler-Maruyama, Taylor moment expansion or its '
      'normal closure), are finite at every state, and coincide with the one-dimensional ones when d = 1.',
      ['inputs', 'configurations'], 'all SDEs, states, multi-indices, steps, orders, centres, scales',
      'Tests check one linear model at d = 2.',
      [('Euler', f'{MN}:sde_cond_moments_euler_maruyama'), ('TME', f'{MN}:sde_cond_moments_tme'), ('normal TME', f'{MN}:sde_cond_moments_tme_normal')], ['the five returned callables']),
    P('C15', 'The Kalman filter is exact Gaussian conditioning',
      'For every linear Gaussian model with measurements of any dimension, including singular process noise and initial covariance, the filtered means and covariances and the '
      'cumulative negative log-likelihoods equal those of conditioning the joint Gaussian of states and measurements, at every time; covariances are symmetric positive '
      'semi-definite and the results are equivariant under changes of state and measurement units.',
      ['inputs', 'histories'], 'all linear Gaussian models and records',
      'Tests use scalar measurements and one model.',
      [('filter', f'{GF}:kf'), ('update', f'{GF}:_linear_update'), ('log density', f'{GF}:_log_mvn_pdf')], ['kf outputs']),
    P('C16', 'Discrete-time smoothers return path marginals given the whole record',
      'On every affine Gaussian model, the Rauch-Tung-Striebel, extended and sigma-point smoothers, run on the output of their filters, return at every time the marginal '
      'mean and covariance of the state given the whole record; the last smoothed state is the last filtered one and smoothed covariances never exceed the filtered ones.',
      ['inputs', 'histories'], 'all affine Gaussian models and records',
      'Tests compare smoothers with each other on one model.',
      [('rts', f'{GF}:rts'), ('eks', f'{GF}:eks'), ('sigma points', f'{GF}:sgp_smoother'), ('shared gain', f'{GF}:_gaussian_smoother_shared')], ['smoother outputs']),
    P('C17', 'Extended and sigma-point filters follow their defining Gaussian recursions',
      'For every nonlinear model with state-dependent noises, the extended and sigma-point filters and smoothers return at each time the means, covariances and cumulative '
      'negative log-likelihoods of their textbook recursions (first-order linearisation at the current mean; Gaussian moment matching with the given rule), for state and '
      'measurement dimensions of any size; the constant-covariance and Jacobian-mode options change nothing where they apply, and on affine models all are exact.',
      ['inputs', 'histories', 'configurations'], 'all models, records, rules, options',
      'Tests use linear models or compare one run at loose tolerance.',
      [('ekf/eks', f'{GF}:ekf'), ('sigma-point', f'{GF}:sgp_filter'), ('smoother', f'{GF}:sgp_smoother'), ('updates', f'{GF}:_ekf_update/_sgp_update')], ['filter and smoother outputs']),
    P('C18', 'Continuous-discrete filters and smoothers integrate the Gaussian moment ODEs',
      'For every SDE, measurement model, record and time step, the continuous-discrete extended and sigma-point filters propagate mean and covariance between measurements by the '
      'fourth-order integration of their moment equations, update and accumulate the likelihood as the discrete ones do, and their smoothers integrate the corresponding backward equations '
      'from the last filtered state; on linear SDEs both converge to the exact posterior as the step vanishes.',
      ['inputs', 'histories', 'configurations'], 'all SDEs, records, steps, rules, options',
      'Tests use one linear SDE at loose tolerance.',
      [('cd_ekf/cd_eks', f'{GF}:cd_ekf'), ('cd sigma-point', f'{GF}:cd_sgp_filter'), ('integrators', f'{CQ}:rk4_m_cov')], ['filter and smoother outputs']),
    P('C19', 'Integration rules integrate exactly what their order promises',
      'In every dimension and order, the cubature and Gauss-Hermite rules have weights summing to one and integrate every polynomial up to their degree of exactness against every Gaussian, '
      'through each of the expectation helpers; the Taylor quadrature of order p is exact on polynomials of degree p; the Runge-Kutta integrators '
      'are fourth order, forward and backward, exact on the truncated exponential series of linear systems.',
      ['inputs', 'configurations'], 'all dimensions, orders, Gaussians and integrands',
      'Tests check one dimension and order.',
      [('rules', f'{CQ}:SigmaPoints'), ('helper', f'{CQ}:gaussian_expectation'), ('Taylor', f'{Q1}:taylor_quadrature'), ('Runge-Kutta', f'{CQ}:rk4_m_cov')], ['nodes, weights, expectations, steps']),
    P('C20', 'Resampling selects by weight, stratum by stratum, without bias',
      'For every weight vector and key, systematic, stratified and multinomial resampling return valid indices, never one of zero weight, with the offspring law of the scheme: expected offspring '
      'proportional to the weights, one draw per stratum (systematic: one common shift), and multinomial variance.  Continuous resampling returns sorted draws from the piecewise-linear distribution '
      'function of the weighted samples, whatever the order of the samples, in double and single precision.',
      ['inputs', 'schedules'], 'all weight vectors, sizes, keys and precisions',
      'Tests check the mean of one weight vector.',
      [('systematic/stratified', f'{RS}:_systematic_or_stratified'), ('multinomial', f'{RS}:multinomial'), ('continuous', f'{RS}:continuous_resampling')], ['returned indices and samples']),
    P('C21', 'Particle filters weight, resample and randomise correctly',
      'For every model, proposal, resampler, record and key, each step moves the current particles with the transition or proposal, weights them by the likelihood at the moved particles (times '
      'the importance ratio), normalises, resamples once with those weights and accumulates the negative log of the average weight; every random operation uses its own key.  The output is a '
      'deterministic function of the key, and the estimates converge to the exact posterior and evidence as the number of particles grows.',
      ['inputs', 'histories', 'schedules'], 'all models, resamplers, particle numbers, records and keys',
      'Tests look at the particle mean on one model.',
      [('bootstrap', f'{SM}:bootstrap_filter'), ('general', f'{SM}:particle_filter')], ['instrumented callbacks: every key, sample array, weight, selection']),
    P('C22', 'The brute-force filter returns the Bayes posterior density on the grid',
      'For every one-dimensional SDE, likelihood, initial density, grid and record, the brute-force filter returns at each time the non-negative, normalised posterior density obtained by '
      'integrating the chosen transition over the requested number of substeps and multiplying by the likelihood, independent of the scale of the likelihood.  With the Kolmogorov solver it '
      'converges to the exact posterior as grid and step are refined, and unknown methods are rejected.',
      ['inputs', 'histories', 'configurations'], 'all SDEs, likelihoods, grids, methods, substeps, records',
      'Tests compare to the Kalman filter on one model.',
      [('filter', f'{BF}:brute_force_filter'), ('Chapman-Kolmogorov', f'{BF}:pred_chapman'), ('Kolmogorov', f'{BF}:pred_kolmogorov')], ['returned densities']),
    P('C23', 'SDE simulation and LTI discretisation have the law of the equation',
      'For every linear time-invariant SDE and step the discretisation returns the exact transition matrix and noise covariance.  For every transition approximation, the simulator visits each requested time, takes the '
      'requested number of equal substeps, drives every substep by fresh standard normal noise with the conditional mean and covariance of the current state, and returns the states at the requested times; '
      'different keys give independent trajectories and the same key the same one.',
      ['inputs', 'histories', 'schedules'], 'all SDEs, steps, substeps, keys',
      'Tests check stationary moments of one process and one discretisation.',
      [('discretisation', f'{U}:discretise_lti_sde'), ('simulation', f'{U}:simulate_sde')], ['returned matrices; instrumented transition callback; trajectories']),
    P('C24', 'Matrix factorisations satisfy their defining identities',
      'For every symmetric matrix, Lanczos returns an orthonormal Krylov basis with the tridiagonal projection and residual, the Ritz pairs reproduce the spectral moments of the start vector, and the LDL factors multiply '
      'back to the matrix with a unit lower-triangular factor.  The modified Cholesky factor equals the Cholesky factor on positive definite input, is a finite nonsingular completion otherwise, and has finite, correct gradients; plain, compiled and '
      'batched execution agree.',
      ['inputs'], 'all symmetric matrices, sizes, start vectors, iteration counts',
      'Tests check one random matrix each.',
      [('Lanczos', f'{U}:lanczos'), ('Ritz', f'{U}:lanczos_ritz'), ('LDL', f'{U}:ldl'), ('modified Cholesky', f'{U}:ldl_chol')], ['returned factors']),
    P('C25', 'Combinatorial and special functions agree with their definitions',
      'Gamma, factorial and binomial functions of non-negative arguments, partial and complete Bell polynomials, probabilists\' Hermite polynomials and vectorised lists of functions return the values of their '
      'mathematical definitions at every order and argument, for any supported input type, compiled or not, and their derivatives are correct.',
      ['inputs'], 'all orders and arguments',
      'Tests check a few orders and values.',
      [('special functions', f'{U}:gamma/factorial/binom'), ('Bell', f'{U}:partial_bell/complete_bell'), ('Hermite', f'{U}:hermite_probabilist'), ('lists', f'{U}:vmap_list_of_funcs')], ['returned values']),
    P('C26', 'Density approximations match the moments they are built from',
      'For every moment sequence, the Gram-Charlier and Legendre densities are the defining series and reproduce the supplied moments, on any interval and in any units, the truncated cumulant generating '
      'function has the supplied cumulants, and the saddle-point density solves the saddle equation and is exact for Gaussians.  Characteristic functions computed from moments or from a gridded density, and their inverse '
      'Fourier transform, are those of the law.',
      ['inputs'], 'all laws, orders, intervals, arguments',
      'Tests compare plots-level accuracy for a gamma or normal law.',
      [('Gram-Charlier', f'{PD}:gram_charlier'), ('Legendre', f'{PD}:legendre_poly_expansion'), ('saddle point', f'{PD}:saddle_point'), ('CGF', f'{PD}:truncated_cumulant_generating_function'),
       ('Fourier', f'{PD}:inverse_fourier'), ('characteristic function', f'{M1}:characteristic_from_pdf')], ['returned densities and values']),
    P('C27', 'The posterior Cramer-Rao recursion is the Bayesian information recursion',
      'For every model, batch of trajectories and initial information, the returned matrices are symmetric and follow the recursive posterior information formula with Hessian expectations averaged over the batch, '
      'so that on linear Gaussian models they equal the inverse Kalman covariances at every time; the order of the batch does not matter.',
      ['inputs', 'histories'], 'all models, trajectories, dimensions, lengths',
      'Tests check a scalar linear model.',
      [('recursion', f'{U}:posterior_cramer_rao')], ['returned information matrices']),
    P('C28', 'Shipped state-space models simulate the model they declare',
      'For each shipped state-space model, the simulated states follow the declared drift and dispersion from the declared initial law, the simulated measurements follow the declared '
      'likelihood given the simulated states, likelihoods are normalised distributions of the emission, and time grids match the step; each key gives its own reproducible, independent trajectory.',
      ['inputs', 'histories', 'schedules'], 'all keys, parameters, initial states, substeps',
      'Tests only use the models as input.',
      [('Benes-Bernoulli', f'{S1}:benes_bernoulli'), ('double well-Poisson', f'{S1}:well_poisson'), ('prey-predator', f'{SN}:prey_predator'), ('satellite', f'{SN}:satellite_orbital_stability')],
      ['returned callables and simulated trajectories']),
    P('C29', 'Precision and input containers change results by rounding only',
      'Every filter, smoother and numerical routine evaluated in single precision returns single-precision values equal to the double-precision result up to rounding; and NumPy arrays, JAX arrays, '
      'non-contiguous views, and integer or boolean measurement records are interchangeable as inputs of the filters and smoothers, and so are Python scalars and zero-dimensional arrays as scalar arguments.',
      ['inputs'], 'all problems, precisions, input containers and dtypes',
      'Tests enable double precision globally and use one container type each.',
      [('filters', f'{F1}:moment_filter_*'), ('nd filters', f'{FN}:moment_filter_nd_*'), ('Gaussian filters', f'{GF}:*'), ('routines', f'{U}:*')],
      ['returned arrays and dtypes of separate single- and double-precision executions']),
    P('C30', 'What a call returns depends on its arguments only',
      'Every public function is a function of its arguments: the same call returns the same result whatever was called before it, repeated, from concurrent threads, after other calls have failed half-way, and '
      'after the caller has overwritten arrays it was handed back.  Calls and imports do not modify their input arrays or the global state of the process (precision, random state, error handling, files).',
      ['histories', 'schedules', 'inputs'], 'all histories and interleavings of calls',
      'Tests call each function a few times in one fixed order.',
      [('index tables', f'{MI}:*'), ('products', f'{QN}:nd_cartesian_prod_indices'), ('rules', f'{CQ}:SigmaPoints'), ('builders', f'{M1}:sde_cond_moments_*'), ('filters', f'{F1}:moment_filter_*'),
       ('models', f'{S1}:*')],
      ['event log of (call, result, inputs before and after, global state) of histories in fresh processes']),
    P('C31', 'The experiment scripts store what they claim to have computed',
      'Each experiment script, run from the command line with any random keys and options, writes exactly the result files and fields its name and options announce, and the numbers in them are those of the '
      'requested model, filter, transition approximation and option on the record simulated from the requested key.  The packing and error scripts compute the stated means, characteristic functions and errors of every run, '
      'including diverged ones; parameter estimates minimise the stated negative log-likelihood; profiled times exclude compilation; Monte Carlo keys are distinct.',
      ['inputs', 'configurations'], 'all random keys, orders, modes, transition approximations, grids and ranges of runs',
      'No test runs any of the scripts.',
      [('Benes-Bernoulli experiments', 'dardel/benes_bernoulli/mf.py:*'), ('packing', 'dardel/benes_bernoulli/post_processing_mf.py:*'), ('errors', 'dardel/benes_bernoulli/compute_errs.py:*'),
       ('convergence', 'dardel/convergence/convergence_mf.py:*'), ('estimation', 'dardel/parameter_estimation/mf.py:*'), ('prey-predator', 'dardel/prey_predator/mf.py:*'), ('timing', 'dardel/time_profile/mf.py:*'),
       ('keys', 'dardel/generate_rng_key.py:*')],
      ['files written by the scripts, exit codes']),
]
