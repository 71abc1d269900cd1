"""C31: the experiment scripts store what they claim to have computed."""
import math
import os
import shutil
import subprocess
import sys
import tempfile
import time

import numpy as np

from rv import core, gen, ref

RULE = ('Every script of dardel/ is run as a user runs it (command line, current directory with rng_keys.npy and results/), with random keys, orders, modes and grids, in a '
        'scratch directory.  An offline checker reads the files it left: exactly the expected files and fields, and every number recomputed from the key and the '
        'options (NumPy Kalman filter and error formulas; library filters, which the other properties judge, on independently simulated records).  The packing and error scripts are '
        'also fed synthetic result files with random contents, including diverged (NaN) runs.  Optimisation results must minimise the recomputed objective.  '
        'Non-trivial: every script run.')
ASSUMPTIONS = ['the numbers stored by a script are a function of the random key and of the command line', 'the shell wrappers for Slurm and the plotting scripts are not run']
MUST_RUN = ['exit', 'files', 'fields', 'mf', 'brute', 'ghf', 'pf', 'pack-brute', 'pack-pf', 'pack-mf', 'errs', 'convergence-mf', 'convergence-pf', 'convergence-pack', 'estimate', 'estimate-fields',
            'prey-mf', 'prey-gauss', 'prey-pf', 'cramer-rao', 'times', 'keys']
D = os.path.join(core.REPO, 'dardel')


def tasks(tier):
    n = 1 if tier == 'quick' else 3
    out = []
    for k in range(n):
        out += [(f'cramer-rao-{k}', cramer, dict(k=k))] if k < 1 else []
        out += [(f'estimate-{m}-{k}', estimate, dict(m=m, k=k)) for m in ('mf', 'mf-tme', 'gauss', 'gauss-tme', 'pf', 'pf-cr')]
        out += [(f'times-{m}-{k}', times, dict(m=m, k=k)) for m in ('mf', 'ghf', 'pf')]
        out += [(f'benes-mf-{m}{"-normal" if nrm else ""}-{k}', benes_mf, dict(mode=m, normal=nrm, k=k)) for m in ('raw', 'central', 'scaled') for nrm in (False, True)]
        out += [(f'benes-{f.__name__}-{k}', f, dict(k=k)) for f in (brute, ghf, pf)]
        out += [(f'prey-{m}-{k}', prey, dict(m=m, k=k)) for m in ('mf-central', 'mf-raw', 'mf-tme', 'mf-tme-full', 'gauss', 'gauss-tme', 'pf', 'pf-tme')]
        out += [(f'convergence-{k}', conv_mf, dict(k=k)), (f'convergence-pf-{k}', conv_pf, dict(k=k))]
        out += [(f'pack-{k}', packs, dict(k=k)), (f'errs-{k}', errs, dict(k=k))]
    return out + [('keys', keys, {})]


DIRS = ['benes_bernoulli_mf', 'benes_bernoulli_pf', 'benes_bernoulli_ghf', 'benes_bernoulli_brute_force', 'benes_bernoulli_errs', 'convergence', 'parameter_estimation_mf', 'parameter_estimation_pf',
        'parameter_estimation_pf_cr', 'parameter_estimation_ghf_ekf', 'prey_predator_mf', 'prey_predator_pf', 'prey_predator_ghf_ekf', 'prey_predator_cramer_rao', 'times']


class Campaign:
    """A scratch copy of the directory layout the scripts expect."""

    def __init__(self, mon, rng, nkeys=5):
        import jax
        self.mon = mon
        self.tmp = tempfile.mkdtemp(prefix='rv-c31-')
        self.cwd = os.path.join(self.tmp, 'dardel')
        for d in DIRS:
            os.makedirs(os.path.join(self.cwd, 'results', d))
        self.seed = int(rng.integers(2 ** 31))
        self.keys = np.asarray(jax.random.split(jax.random.PRNGKey(self.seed), nkeys))
        np.save(os.path.join(self.cwd, 'rng_keys.npy'), self.keys)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def files(self):
        return {os.path.relpath(os.path.join(r, f), self.cwd) for r, _, fs in os.walk(self.cwd) for f in fs}

    def run(self, script, outs, *args):
        """Run dardel/<script>; `outs`: the files it has to create (or rewrite), no others; returns their contents."""
        before = {f: os.stat(os.path.join(self.cwd, f)).st_mtime_ns for f in self.files()}
        for o in outs:
            before.pop(os.path.join('results', o), None)
        self.mon.saw(script)
        self.mon.case(script=script, args=args, seed=self.seed)
        env = dict(os.environ, PYTHONPATH=core.REPO, PYTHONWARNINGS='ignore')
        t0 = time.time()
        p = subprocess.run([sys.executable, os.path.join(D, script), *args], cwd=self.cwd, env=env, capture_output=True, text=True, timeout=600)
        self.wall = time.time() - t0
        if not self.mon.true('exit', p.returncode == 0, f'{script} {" ".join(args)} failed: {p.stderr[-600:]}'):
            raise core.ApiError(f'{script} failed: {p.stderr[-600:]}')
        after = self.files()
        want = set(before) | {os.path.join('results', o) for o in outs}
        self.mon.true('files', after == want, f'{script} {args}: files {sorted(after ^ want)} (missing or unexpected)')
        self.mon.true('files', all(os.stat(os.path.join(self.cwd, f)).st_mtime_ns == t for f, t in before.items() if f in after), f'{script} rewrote other files')
        return [self.load(o) for o in outs]

    def load(self, o):
        with np.load(os.path.join(self.cwd, 'results', o)) as z:
            return {k: z[k] for k in z.files}

    def dump(self, o, **kw):
        np.savez(os.path.join(self.cwd, 'results', o), **kw)

    def fields(self, got, *names):
        self.mon.true('fields', set(names) <= set(got), f'fields {sorted(got)} instead of {sorted(names)}')


def benes_record(key, N=2):
    import jax
    import jax.numpy as jnp
    from mfs.one_dim.ss_models import benes_bernoulli
    m = benes_bernoulli(N)
    k0, k1, k2 = jax.random.split(jnp.asarray(key), 3)
    x0 = m[3].sampler(k0, 1)[0]
    xs = m[8](x0, k1)
    ys = jax.random.bernoulli(k2, m[6](xs), (m[1],))
    return m, x0, xs, ys, k2


def benes_mf(mon, rng, tier, mode, normal, k):
    import jax
    import jax.numpy as jnp
    from mfs.one_dim import filtering as f1, moments as m1
    with Campaign(mon, rng) as c:
        N, order, n = int(rng.integers(2, 5 if normal else 4)), (int(rng.integers(2, 4)) if mode == 'raw' else 1) if normal else 2, 2
        t = '_normal' if normal else ''
        pre = f'benes_bernoulli_mf/{mode}{t}_N_{N}_mc_'
        got = c.run('benes_bernoulli/mf.py', [f'{pre}{i}.npz' for i in range(n)], f'--N={N}', f'--mode={mode}', f'--tme={order}', f'--maxmc={n}', *(['--normal'] if normal else []))
        m = benes_record(c.keys[0], N)[0]
        dt, T, ts, ic, dr, ds, lg, pmf, _ = m
        b = m1.sde_cond_moments_tme_normal(dr, ds, dt, order, N) if normal else m1.sde_cond_moments_tme(dr, ds, dt, order)
        fn = jax.jit({'raw': lambda y: f1.moment_filter_rms(b[0], pmf, ic.rms, y), 'central': lambda y: f1.moment_filter_cms(b[1], b[3], pmf, ic.cms, ic.mean, y),
                      'scaled': lambda y: f1.moment_filter_scms(b[2], b[4], pmf, ic.scms, ic.mean, jnp.sqrt(ic.variance), y)}[mode])
        names = {'raw': ['rmss', 'nell'], 'central': ['cmss', 'means', 'nell'], 'scaled': ['scmss', 'means', 'scales', 'nell']}[mode]
        for i in range(n):
            c.fields(got[i], *names)
            for nm, w in zip(names, fn(benes_record(c.keys[i], N)[3])):
                mon.close('mf', got[i][nm], w, 1e-6, 1e-9, msg=f'run {i}: {nm} ')
            # the stored moments are those of a posterior of the Benes model: the mean stays within the range of the state
        b_, mm = int(rng.choice([1, 3])), int(rng.integers(5, 30))
        pk = c.run('benes_bernoulli/post_processing_mf.py', [f'benes_bernoulli_mf/b_{b_}_m_{mm}_{mode}{t}_{N}.npz'], f'--N={N}', f'--mode={mode}', f'--b={b_}', f'--m={mm}', f'--maxmc={n}', *(['--normal'] if normal else []))[0]
        check_pack_mf(mon, c, pk, got, mode, b_, mm, N)


def cf_of(ms, mean, scale, zs, N):
    w, x = ref.np_gauss(np.asarray(ms, float), N)[:2]
    x = mean + scale * np.asarray(x)
    return np.exp(1j * zs[:, None] * x[None, :]) @ np.asarray(w)


def check_pack_mf(mon, c, pk, runs, mode, b, m, N):
    c.fields(pk, 'mf_filtering_means', 'mf_filtering_cfs')
    zs = np.linspace(-b, b, m)
    mon.true('pack-mf', pk['mf_filtering_means'].shape == (len(runs), 100) and pk['mf_filtering_cfs'].shape == (len(runs), 100, m), 'shapes')
    for i, r in enumerate(runs):
        if mode == 'raw':
            ms, mean, sc = r['rmss'], r['rmss'][:, 1], None
        elif mode == 'central':
            ms, mean, sc = r['cmss'], r['means'], None
        else:
            ms, mean, sc = r['scmss'], r['means'], r['scales']
        mon.close('pack-mf', pk['mf_filtering_means'][i], mean, 1e-12, 1e-13, msg=f'run {i}: means ')
        for t in (0, 37, 99):
            if not np.all(np.isfinite(ms[t])):
                continue
            try:
                want = cf_of(ms[t], 0. if mode == 'raw' else mean[t], 1. if sc is None else sc[t], zs, N)
            except np.linalg.LinAlgError:
                mon.skip('pack-mf')
                continue
            mon.close('pack-mf', pk['mf_filtering_cfs'][i, t], want, 0., 1e-5, msg=f'run {i} time {t}: characteristic function ')


def brute(mon, rng, tier, k):
    import jax
    import jax.numpy as jnp
    from mfs.one_dim import filtering as f1, moments as m1
    from mfs.classical_filters_smoothers.brute_force import brute_force_filter
    with Campaign(mon, rng) as c:
        ng, rule, ni, meth = int(rng.integers(120, 200)), int(rng.integers(5, 8)), int(rng.integers(1, 4)), ['chapman-euler', 'chapman-tme-2'][int(rng.integers(2))]
        m = benes_record(c.keys[0], 7)[0]
        dt, T, ts, ic, dr, ds, lg, pmf, _ = m
        b = m1.sde_cond_moments_tme_normal(dr, ds, dt, 3, 7)
        mf = jax.jit(lambda y: f1.moment_filter_cms(b[1], b[3], pmf, ic.cms, ic.mean, y))
        runs = []
        for i in (2, 0):
            r = c.run('benes_bernoulli/brute_force.py', [f'benes_bernoulli_brute_force/mc_{i}.npz'], f'--ngrids={ng}', f'--rule={rule}', f'--nintegrations={ni}', f'--method={meth}', f'--k={i}')[0]
            c.fields(r, 'spatial_grids', 'true_pdfs', 'x0', 'xs', 'ys')
            _, x0, xs, ys, _ = benes_record(c.keys[i], 7)
            mon.close('brute', r['x0'], x0, 1e-9, 1e-11)
            mon.close('brute', r['xs'], xs, 1e-9, 1e-11)
            mon.close('brute', r['ys'].astype(float), np.asarray(ys, float), 0., 1e-12)
            cm, mean, _ = mf(ys)
            cm, mean = np.asarray(cm), np.asarray(mean)
            sd = np.sqrt(cm[:, 2])
            grid = np.linspace(np.min(mean - rule * sd), np.max(mean + rule * sd), ng)
            mon.close('brute', r['spatial_grids'], grid, 1e-6, 1e-9, msg='grid ')
            want = jax.jit(lambda y: brute_force_filter(dr, ds, pmf, ic.pdf(jnp.asarray(grid)), jnp.asarray(grid), y, dt, integration_steps=ni, pred_method=meth))(ys)
            mon.close('brute', r['true_pdfs'], want, 1e-5, 1e-8, msg='densities ')
            # and they are the exact Benes posteriors up to the grid: mean against the moment filter
            pm = np.trapz(grid * r['true_pdfs'], grid, axis=1) / np.trapz(r['true_pdfs'], grid, axis=1)
            mon.close('brute', pm, mean, 0., .25, msg='mean of the density against the moment filter ')


def ghf(mon, rng, tier, k):
    import jax.numpy as jnp
    import tme.base_jax as tme
    from mfs.classical_filters_smoothers.gfs import sgp_filter
    from mfs.classical_filters_smoothers.quadratures import SigmaPoints
    with Campaign(mon, rng) as c:
        order, gh, n = int(rng.choice([1, 1, 2])), int(rng.integers(3, 12)), 2
        g = c.run('benes_bernoulli/ghf.py', [f'benes_bernoulli_ghf/gh_{gh}_tme_{order}.npz'], f'--tme={order}', f'--gh={gh}', f'--maxmc={n}')[0]
        c.fields(g, 'ghf_mfs', 'ghf_vfs')
        for i in range(n):
            m, _, _, ys, _ = benes_record(c.keys[i])
            dt, T, ts, ic, dr, ds, lg, pmf, _ = m
            r = sgp_filter(lambda x, h: tme.mean_and_cov(jnp.atleast_1d(x), h, dr, ds, order=order), lambda x: (jnp.atleast_1d(lg(x)), jnp.atleast_2d(lg(x) * (1 - lg(x)))),
                           SigmaPoints.gauss_hermite(1, gh), jnp.atleast_1d(ic.mean), jnp.atleast_2d(ic.variance), dt, jnp.asarray(ys)[:, None], const_measurement_cov=False)
            mon.close('ghf', g['ghf_mfs'][i], np.asarray(r[0])[:, 0], 1e-7, 1e-9)
            mon.close('ghf', g['ghf_vfs'][i], np.asarray(r[1])[:, 0, 0], 1e-7, 1e-9)


def pf(mon, rng, tier, k):
    import jax
    import jax.numpy as jnp
    import tme.base_jax as tme
    from mfs.classical_filters_smoothers.smc import bootstrap_filter
    from mfs.classical_filters_smoothers.resampling import stratified
    with Campaign(mon, rng) as c:
        n, b, mm = int(rng.integers(30, 90)), int(rng.choice([1, 3])), int(rng.integers(5, 30))
        for i, order in ((3, 1), (1, int(rng.integers(2, 4)))):
            g = c.run('benes_bernoulli/pf.py', [f'benes_bernoulli_pf/b_{b}_m_{mm}_mc_{i}.npz'], f'--tme={order}', f'--b={b}', f'--m={mm}', f'--nparticles={n}', f'--k={i}')[0]
            c.fields(g, 'pf_filtering_means', 'pf_filtering_cfs')
            m, _, _, ys, kk = benes_record(c.keys[i])
            dt, T, ts, ic, dr, ds, lg, pmf, _ = m

            def samp(x, key):
                ms, cs = jax.vmap(lambda u: tme.mean_and_cov(jnp.atleast_1d(u), dt, dr, ds, order=order))(x)
                return ms[:, 0] + jnp.sqrt(cs[:, 0, 0]) * jax.random.normal(key, (n,))

            s = np.asarray(jax.jit(lambda y, key: bootstrap_filter(samp, pmf, y, ic.sampler, key, n, stratified)[0])(ys, jax.random.split(kk)[0]))
            zs = np.linspace(-b, b, mm)
            mon.close('pf', g['pf_filtering_means'], s.mean(1), 1e-6, 1e-8)
            mon.close('pf', g['pf_filtering_cfs'], np.exp(1j * zs[None, :, None] * s[:, None, :]).mean(-1), 0., 1e-7)


def packs(mon, rng, tier, k):
    """Packing scripts on synthetic files."""
    with Campaign(mon, rng) as c:
        n, b, m, T = 3, int(rng.choice([1, 3])), int(rng.integers(5, 30)), 100
        zs = np.linspace(-b, b, m)
        # particle filters
        runs = [dict(pf_filtering_means=rng.normal(size=T), pf_filtering_cfs=rng.normal(size=(T, m)) + 1j * rng.normal(size=(T, m))) for _ in range(n)]
        for i, r in enumerate(runs):
            c.dump(f'benes_bernoulli_pf/b_{b}_m_{m}_mc_{i}.npz', **r)
        g = c.run('benes_bernoulli/post_processing_pf.py', [f'benes_bernoulli_pf/b_{b}_m_{m}.npz'], f'--b={b}', f'--m={m}', f'--maxmc={n}')[0]
        for f in ('pf_filtering_means', 'pf_filtering_cfs'):
            mon.close('pack-pf', g[f], np.stack([r[f] for r in runs]), 0., 1e-14, msg=f)
        # brute force: each run has its own grid
        runs = []
        for i in range(n):
            grid = np.linspace(*np.sort(rng.normal(size=2) * 3) + [-2, 2], 80 + 0 * i)
            mu, sd = rng.normal(size=T) * .4 + grid.mean(), rng.uniform(.3, .8, T)
            p = np.exp(-(grid[None] - mu[:, None]) ** 2 / 2 / sd[:, None] ** 2) / sd[:, None] / math.sqrt(2 * math.pi)
            r = dict(spatial_grids=grid, true_pdfs=p, x0=rng.normal(), xs=rng.normal(size=T), ys=rng.integers(0, 2, T))
            runs.append(r)
            c.dump(f'benes_bernoulli_brute_force/mc_{i}.npz', **r)
        g = c.run('benes_bernoulli/post_processing_brute_force.py', [f'benes_bernoulli_brute_force/b_{b}_m_{m}.npz'], f'--b={b}', f'--m={m}', f'--maxmc={n}')[0]
        c.fields(g, 'true_trajs', 'true_filtering_means', 'true_filtering_cfs')
        for i, r in enumerate(runs):
            x, p = r['spatial_grids'], r['true_pdfs']
            mon.close('pack-brute', g['true_trajs'][i], r['xs'], 0., 1e-14)
            mon.close('pack-brute', g['true_filtering_means'][i], np.trapz(x * p, x, axis=1), 1e-10, 1e-12)
            mon.close('pack-brute', g['true_filtering_cfs'][i], np.trapz(np.exp(1j * zs[None, :, None] * x) * p[:, None, :], x, axis=-1), 1e-9, 1e-11)
        # convergence of the particle filter
        npart, T2 = int(rng.integers(10, 99)), int(rng.choice([100, 60]))
        runs = [{f: rng.uniform(size=T2) for f in ('errs_means', 'errs_variances', 'errs_kls')} for _ in range(n)]
        runs[1]['errs_kls'][3] = np.nan
        for i, r in enumerate(runs):
            c.dump(f'convergence/pf_{npart}_mc_{i}.npz', **r)
        g = c.run('convergence/convergence_pf_post_processing.py', [f'convergence/pf_{npart}.npz'], f'--nparticles={npart}', f'--maxmc={n}', f'--T={T2}')[0]
        for f in runs[0]:
            mon.true('convergence-pack', np.array_equal(g[f], np.stack([r[f] for r in runs]), equal_nan=True), f)
        # moment filters, synthetic posteriors
        for mode in ('raw', 'central', 'scaled'):
            N, t, runs = 3, '_normal' if rng.integers(2) else '', []
            for i in range(2):
                reps = [gen.represent(gen.measure_1d(rng, 'mixture'), 2 * N, mode) for _ in range(6)]
                pick = rng.integers(0, 6, T)
                ms, mean, sc = (np.array([reps[j][q] for j in pick], float) for q in range(3))
                r = {'raw': dict(rmss=ms), 'central': dict(cmss=ms, means=mean), 'scaled': dict(scmss=ms, means=mean, scales=sc)}[mode]
                r['nell'] = rng.normal()
                runs.append(r)
                c.dump(f'benes_bernoulli_mf/{mode}{t}_N_{N}_mc_{i}.npz', **r)
            g = c.run('benes_bernoulli/post_processing_mf.py', [f'benes_bernoulli_mf/b_{b}_m_{m}_{mode}{t}_{N}.npz'], f'--N={N}', f'--mode={mode}', f'--b={b}', f'--m={m}', '--maxmc=2', *(['--normal'] if t else []))[0]
            check_pack_mf(mon, c, g, runs, mode, b, m, N)


def errs(mon, rng, tier, k):
    """compute_errs on synthetic results."""
    T = 100
    for mode in ('raw', 'central', 'scaled'):
        with Campaign(mon, rng) as c:
            n, b, m, N = 2, int(rng.choice([1, 3])), int(rng.integers(5, 30)), int(rng.integers(2, 4))
            t = '_normal' if rng.integers(2) else ''
            zs = np.linspace(-b, b, m)
            cx = lambda: rng.normal(size=(n, T, m)) + 1j * rng.normal(size=(n, T, m))
            tr, tm, tc = rng.normal(size=(n, T)), rng.normal(size=(n, T)), cx()
            pm, pc = rng.normal(size=(n, T)), cx()
            gm, gv = rng.normal(size=(n, T)), rng.uniform(.1, 1., (n, T))
            # runs that broke down half-way: their errors are not numbers, and must not pass for zeros
            gm[0, 60:], pm[1, 90:], pc[1, 90:] = np.nan, np.nan, np.nan
            c.dump(f'benes_bernoulli_brute_force/b_{b}_m_{m}.npz', true_trajs=tr, true_filtering_means=tm, true_filtering_cfs=tc)
            c.dump('benes_bernoulli_ghf/gh_11_tme_3.npz', ghf_mfs=gm, ghf_vfs=gv)
            c.dump(f'benes_bernoulli_pf/b_{b}_m_{m}.npz', pf_filtering_means=pm, pf_filtering_cfs=pc)
            mm, mc = np.zeros((n, T)), np.zeros((n, T, m), complex)
            for i in range(n):
                reps = [gen.represent(gen.measure_1d(rng, 'mixture'), 2 * N, mode) for _ in range(6)]
                pick = rng.integers(0, 6, T)
                ms, mean, sc = (np.array([reps[j][q] for j in pick], float) for q in range(3))
                cfs = [cf_of(r[0], r[1] if mode != 'raw' else 0., r[2] if mode == 'scaled' else 1., zs, N) for r in reps]
                mc[i] = np.array([cfs[j] for j in pick])
                if i == 1:
                    ms[70:, 1:], mean[70:], sc[70:], mc[i, 70:] = np.nan, np.nan, np.nan, np.nan
                mm[i] = ms[:, 1] if mode == 'raw' else mean
                c.dump(f'benes_bernoulli_mf/{mode}{t}_N_{N}_mc_{i}.npz', nell=0., **{'raw': dict(rmss=ms), 'central': dict(cmss=ms, means=mean), 'scaled': dict(scmss=ms, means=mean, scales=sc)}[mode])
            g = c.run('benes_bernoulli/compute_errs.py', [f'benes_bernoulli_errs/errs_b_{b}_m_{m}_{mode}{t}_N_{N}.npz'], f'--N={N}', f'--mode={mode}', f'--b={b}', f'--m={m}', f'--maxmc={n}', *(['--normal'] if t else []))[0]
            gc = np.exp(1j * zs * gm[..., None] - .5 * zs ** 2 * gv[..., None])
            want = {'true_trajs_vs_true_means_abs': abs(tr - tm)}
            for nm, me, cf in (('mf', mm, mc), ('ghf', gm, gc), ('pf', pm, pc)):
                want[f'true_trajs_vs_{nm}_means_abs'] = abs(tr - me)
                want[f'true_means_vs_{nm}_means_abs'] = abs(tm - me)
                d = abs(tc - cf)
                h = zs[1] - zs[0]
                want[f'true_cfs_vs_{nm}_l1'] = h * (d.sum(-1) - (d[..., 0] + d[..., -1]) / 2)
                want[f'true_cfs_vs_{nm}_l2'] = np.sqrt(h * ((d ** 2).sum(-1) - (d[..., 0] ** 2 + d[..., -1] ** 2) / 2))
                want[f'true_cfs_vs_{nm}_sup'] = d.max(-1)
            c.fields(g, *want)
            for f, w in want.items():
                if not mon.true('errs', np.array_equal(np.isnan(g[f]), np.isnan(w)), f'{f}: the diverged steps are not those of the inputs'):
                    continue
                mon.close('errs', np.nan_to_num(g[f]), np.nan_to_num(w), 1e-6, 1e-8, msg=f'{f} ')


def conv_record(key):
    import jax
    import jax.numpy as jnp
    ts = .1 * np.arange(1, 101)
    k1, k2 = jax.random.split(jnp.asarray(key))
    C = np.exp(-abs(ts[:, None] - ts[None])) * .25
    return np.linalg.cholesky(C) @ np.asarray(jax.random.normal(k1, (100,))) + np.asarray(jax.random.normal(k2, (100,))), k2


def conv_kf(ys):
    F = math.exp(-.1)
    m, v, ms, vs = 0., .25, [], []
    for y in ys:
        m, v = F * m, F * F * v + .25 * (1 - F * F)
        g = v / (v + 1.)
        m, v = m + g * (y - m), v * (1 - g)
        ms.append(m)
        vs.append(v)
    return np.array(ms), np.array(vs)


def conv_errs(mon, tag, g, i, m, v, tm, tv, tol=1e-9):
    mon.close(tag, g['errs_means'] if i is None else g['errs_means'][i], abs(m - tm), 1e-6, tol, msg='errors of the means ')
    mon.close(tag, g['errs_variances'] if i is None else g['errs_variances'][i], abs(v - tv), 1e-6, tol, msg='errors of the variances ')
    kl = .5 * (v / tv - 1 + (m - tm) ** 2 / tv - np.log(v / tv))
    mon.close(tag, g['errs_kls'] if i is None else g['errs_kls'][i], kl, 1e-5, tol, msg='divergences ')


def conv_mf(mon, rng, tier, k):
    """The moment filter recomputed in NumPy: Gauss rule, transition, likelihood (an independent implementation)."""
    F = math.exp(-.1)
    S = .25 * (1 - F * F)
    with Campaign(mon, rng) as c:
        for mode in ('raw', 'central'):
            N, n = int(rng.integers(2, 6)), 2
            g = c.run('convergence/convergence_mf.py', [f'convergence/mf_{mode}_N_{N}.npz'], f'--N={N}', f'--mode={mode}', f'--maxmc={n}')[0]
            c.fields(g, 'errs_means', 'errs_variances', 'errs_kls')
            mon.true('convergence-mf', all(g[f].shape == (n, 100) for f in g), 'shapes')
            for i in range(n):
                ys = conv_record(c.keys[i])[0]
                tm, tv = conv_kf(ys)
                ms, mean = np.array([float(v) for v in ref.gauss_moments(0., .25, 2 * N)]), 0.
                om, ov = [], []
                for y in ys:
                    w, x = ref.np_gauss(ms, N)[:2]
                    x = mean + np.asarray(x)
                    pm = float(np.sum(w * F * x))
                    pr = sum(w[j] * np.array([float(u) for u in ref.gauss_moments(F * x[j] - pm, S, 2 * N)]) for j in range(N))
                    w, x = ref.np_gauss(pr, N)[:2]
                    x = pm + np.asarray(x)
                    w = w * np.exp(-(y - x) ** 2 / 2)
                    w = w / w.sum()
                    mean = float(np.sum(w * x))
                    ms = np.array([np.sum(w * (x - mean) ** p) for p in range(2 * N)])
                    om.append(mean)
                    ov.append(ms[2])
                om, ov = np.array(om), np.array(ov)
                conv_errs(mon, 'convergence-mf', g, i, om, ov, tm, tv, 2e-7)


def conv_pf(mon, rng, tier, k):
    import jax
    import jax.numpy as jnp
    from mfs.classical_filters_smoothers.smc import particle_filter
    from mfs.classical_filters_smoothers.resampling import stratified
    F = math.exp(-.1)
    S = .25 * (1 - F * F)
    K = S / (S + 1)
    with Campaign(mon, rng) as c:
        n = int(rng.integers(40, 90))
        for i in (1, 0):
            g = c.run('convergence/convergence_pf.py', [f'convergence/pf_{n}_mc_{i}.npz'], f'--nparticles={n}', f'--k={i}', '--maxmc=2')[0]
            c.fields(g, 'errs_means', 'errs_variances', 'errs_kls')
            ys, k2 = conv_record(c.keys[i])
            tm, tv = conv_kf(ys)
            pdf = lambda x, m, v: jnp.exp(-(x - m) ** 2 / 2 / v) / jnp.sqrt(2 * jnp.pi * v)
            s = particle_filter(lambda a, y, key: F * a + K * (y - F * a) + math.sqrt(S - K * S) * jax.random.normal(key, (n, 1))[:, 0], lambda x, a, y: pdf(x, F * a + K * (y - F * a), S - K * S),
                                lambda x, a: pdf(x, F * a, S), lambda y, x: pdf(y, x, 1.), jnp.asarray(ys), lambda key, m: .5 * jax.random.normal(key, (m, 1))[:, 0], jax.random.split(k2)[0], n, stratified)
            s = np.asarray(s)
            conv_errs(mon, 'convergence-pf', g, None, s.mean(1), s.var(1), tm, tv)
        big = 4000  # statistics: errors of a correct filter shrink with the number of particles
        g = c.run('convergence/convergence_pf.py', [f'convergence/pf_{big}_mc_2.npz'], f'--nparticles={big}', '--k=2')[0]
        mon.true('convergence-pf', np.sqrt(np.mean(g['errs_means'] ** 2)) < .06 and np.sqrt(np.mean(g['errs_variances'] ** 2)) < .06, f'errors with {big} particles: {np.sqrt(np.mean(g["errs_means"] ** 2))}')
        g2 = c.run('convergence/convergence_pf_post_processing.py', [f'convergence/pf_{n}.npz'], f'--nparticles={n}', '--maxmc=2')[0]
        mon.true('convergence-pack', np.array_equal(g2['errs_means'][1], c.load(f'convergence/pf_{n}_mc_1.npz')['errs_means']), 'packed results')


def estimate(mon, rng, tier, m, k):
    import jax
    import jax.numpy as jnp
    import tme.base_jax as tme
    from mfs.one_dim import filtering as f1, moments as m1
    from mfs.one_dim.ss_models import well_poisson
    from mfs.classical_filters_smoothers.gfs import sgp_filter, ekf
    from mfs.classical_filters_smoothers.quadratures import SigmaPoints
    from mfs.classical_filters_smoothers.smc import bootstrap_filter
    from mfs.classical_filters_smoothers.resampling import stratified
    with Campaign(mon, rng) as c:
        p1, p2 = round(float(rng.uniform(2., 4.)), 2), round(float(rng.uniform(2., 4.)), 2)
        i1, i2 = round(float(rng.uniform(.1, 1.)), 2), round(float(rng.uniform(.1, 1.)), 2)
        i, N, gh, npart = int(rng.integers(5)), int(rng.integers(2, 4)), int(rng.integers(3, 8)), int(rng.integers(40, 80))
        euler = not m.endswith('tme')
        com = [f'--p1={p1}', f'--p2={p2}', f'--p1_init={i1}', f'--p2_init={i2}', f'--k={i}'] + (['--euler'] if euler else [])
        e = '_euler' if euler else ''
        M = well_poisson(p1, N if m.startswith('mf') else 2)
        dt, T, ts, ic, drift, disp, em, pmf, sim = M
        k0, k1, k2 = jax.random.split(jnp.asarray(c.keys[i]), 3)
        xs = sim(ic.sampler(k0, 1)[0], k1)
        ys = jax.random.poisson(k2, em(xs, p2), (T,))

        def trans(f):
            if euler:
                return lambda x, h: (jnp.atleast_1d(x + f(x) * h), jnp.atleast_2d(disp(x) ** 2 * h))
            return lambda x, h: tme.mean_and_cov(jnp.atleast_1d(x), h, f, disp, order=2)

        def obj_mf(p):
            f = lambda x: drift(x, p[0])
            b = m1.sde_cond_moments_euler(f, disp, dt, N) if euler else m1.sde_cond_moments_tme_normal(f, disp, dt, 2, N)
            return f1.moment_filter_cms(b[1], b[3], lambda y, x: pmf(y, x, p[1]), ic.cms, ic.mean, ys)[2]

        def obj_gauss(p, which):
            me = lambda x: (jnp.atleast_1d(em(x, p[1])), jnp.atleast_2d(em(x, p[1])))
            tr = trans(lambda x: drift(x, p[0]))
            a = (jnp.atleast_1d(ic.mean), jnp.atleast_2d(ic.variance), dt, ys[:, None])
            if which == 'ekf':
                return ekf(tr, me, *a)[2][-1]
            return sgp_filter(tr, me, SigmaPoints.gauss_hermite(1, gh), *a, const_measurement_cov=False)[2][-1]

        def obj_pf(p):
            tr = trans(lambda x: drift(x, p[0]))

            def samp(x, key):
                ms, cs = jax.vmap(lambda u: tr(u, dt))(x)
                return ms[:, 0] + jnp.sqrt(cs[:, 0, 0]) * jax.random.normal(key, (npart,))
            return bootstrap_filter(samp, lambda y, x: pmf(y, x, p[1]), ys, ic.sampler, jax.random.split(k2)[0], npart, None if m == 'pf-cr' else stratified, conti_resampling=m == 'pf-cr')[1]

        if m.startswith('mf'):
            r = c.run('parameter_estimation/mf.py', [f'parameter_estimation_mf/N_{N}{e}_mc_{i}.npz'], f'--N={N}', *com)
            todo = [(r[0], obj_mf, True)]
        elif m.startswith('gauss'):
            r = c.run('parameter_estimation/ghf_ekf.py', [f'parameter_estimation_ghf_ekf/gh_{gh}{e}_mc_{i}.npz', f'parameter_estimation_ghf_ekf/ekf{e}_mc_{i}.npz'], f'--gh={gh}', *com)
            todo = [(r[0], lambda p: obj_gauss(p, 'ghf'), True), (r[1], lambda p: obj_gauss(p, 'ekf'), True)]
        else:
            r = c.run('parameter_estimation/pf.py', [f'parameter_estimation_pf{"_cr" if m == "pf-cr" else ""}/euler_mc_{i}.npz'], f'--nparticles={npart}', *com, *(['--cr'] if m == 'pf-cr' else []))
            todo = [(r[0], obj_pf, m == 'pf-cr')]
        for g, obj, smooth in todo:
            c.fields(g, 'success', 'opt_params')
            p = np.asarray(g['opt_params'], float)
            mon.true('estimate-fields', p.shape == (2,) and np.all(np.isfinite(p)) and np.all(p > 0), f'opt_params = {p}')
            sp = lambda u: jnp.log(jnp.exp(u) + 1.)
            inv = lambda v: np.log(np.expm1(v))
            fun = jax.jit(jax.value_and_grad(lambda u: obj(sp(u))))
            f0 = float(fun(inv(np.array([i1, i2])))[0])
            f, gr = (np.asarray(v, float) for v in fun(inv(p)))
            mon.true('estimate', np.isfinite(f) and f <= f0 + 1e-6, f'objective {f} at the estimate {p}, {f0} at the initial guess', p=p)
            if smooth and bool(g['success']):
                # a stationary point of the recomputed objective; nearby points are not better
                H = np.array([(np.asarray(fun(inv(p) + h)[1]) - np.asarray(fun(inv(p) - h)[1])) / 2e-4 for h in 1e-4 * np.eye(2)])
                tolg = 2e-2 * max(1., abs(f)) ** .5
                mon.true('estimate', np.max(np.abs(gr)) < max(tolg, 2e-3 * np.max(np.abs(H))), f'gradient {gr} of the objective at the estimate {p} (f = {f})', p=p, hessian=H)
            elif not smooth:
                rs = [float(fun(inv(p * np.array(q)))[0]) for q in ((1.3, 1.), (.77, 1.), (1., 1.3), (1., .77))]
                mon.true('estimate', f <= min(rs) + 8., f'objective {f} at the estimate {p}; {rs} around it', p=p)


def prey_record(key, mi=((0, 0), (0, 1), (1, 0))):
    import jax
    import jax.numpy as jnp
    from mfs.multi_dims.ss_models import prey_predator
    M = prey_predator(mi)
    key = jnp.asarray(key)
    _, xs, ys = M[8](key)
    while np.any(np.isnan(xs)):
        key, _ = jax.random.split(key)
        _, xs, ys = M[8](key)
    return M, np.asarray(xs), ys, key


def prey(mon, rng, tier, m, k):
    import jax
    import jax.numpy as jnp
    import tme.base_jax as tme
    from mfs.multi_dims import moments as mn
    from mfs.multi_dims.filtering import moment_filter_nd_cms
    from mfs.multi_dims.multi_indices import generate_graded_lexico_multi_indices, gram_and_hankel_indices_graded_lexico
    from mfs.classical_filters_smoothers.gfs import sgp_filter, ekf
    from mfs.classical_filters_smoothers.quadratures import SigmaPoints
    from mfs.classical_filters_smoothers.smc import bootstrap_filter
    from mfs.classical_filters_smoothers.resampling import stratified
    with Campaign(mon, rng) as c:
        st, ed = (1, 2) if tier == 'thorough' or m == 'mf-central' else (2, 2)
        if m.startswith('mf'):
            N = 2
            mi = generate_graded_lexico_multi_indices(2, 2 * N - 1, 0)
            order = int(rng.choice([1, 3])) if m == 'mf-tme' else 2
            trans = {'mf-central': 'euler', 'mf-raw': 'euler', 'mf-tme': f'tme_normal_{order}', 'mf-tme-full': f'tme_{order}'}[m]
            mode = 'raw' if m == 'mf-raw' else 'central'
            got = c.run('prey_predator/mf.py', [f'prey_predator_mf/{mode}_{trans}_N_{N}_mc_{i}.npz' for i in range(st, ed + 1)], f'--N={N}', f'--mode={mode}', f'--trans={trans}', f'--st_mc={st}', f'--ed_mc={ed}')
            M = prey_record(c.keys[0], mi)[0]
            dt, T, ts, ic, dr, ds, em, pmf, sim = M
            b = mn.sde_cond_moments_euler_maruyama(dr, ds, dt, mi) if trans == 'euler' else mn.sde_cond_moments_tme_normal(dr, ds, dt, order, mi) if 'normal' in trans else mn.sde_cond_moments_tme(dr, ds, dt, order)
            fn = jax.jit(lambda y: moment_filter_nd_cms((b[1], 'multi-index' if m == 'mf-tme-full' else 'index'), b[3], pmf, y, (jnp.asarray(mi), gram_and_hankel_indices_graded_lexico(N, 2)), ic.cms, ic.mean)[1])
            for g, i in zip(got, range(st, ed + 1)):
                c.fields(g, 'errs')
                _, xs, ys, _ = prey_record(c.keys[i])
                want = abs(xs - np.asarray(fn(ys)))
                # up to where the filter of that order breaks down, if it does (the step may depend on rounding)
                e = next((t for t in range(len(want)) if not np.all(want[t] < 1e2)), len(want))
                if e < len(want):
                    mon.skip('prey-mf')
                    e = max(1, e - 50)
                mon.true('prey-mf', g['errs'].shape == want.shape, 'shape')
                mon.close('prey-mf', g['errs'][:e], want[:e], 1e-6, 1e-6 if mode == 'central' else 1e-4, msg=f'{mode} {trans} run {i} ')
            return
        M = prey_record(c.keys[0])[0]
        dt, T, ts, ic, dr, ds, em, pmf, sim = M
        order = int(rng.choice([1, 3]))
        trans = f'tme_{order}' if m.endswith('tme') else 'euler'
        tr = (lambda x, h: (x + h * dr(x), h * ds(x) @ ds(x).T)) if trans == 'euler' else (lambda x, h: tme.mean_and_cov(x, h, dr, ds, order=order))
        if m.startswith('gauss'):
            gh, n = int(rng.integers(2, 6)), 1
            got = c.run('prey_predator/ghf_ekf.py', [f'prey_predator_ghf_ekf/{trans}_mc_{i}.npz' for i in range(n)], f'--gh={gh}', f'--trans={trans}', f'--maxmc={n}')
            me = lambda x: (jnp.atleast_1d(em(x[0])), jnp.atleast_2d(em(x[0]) * (1 - em(x[0]))))
            f_e = jax.jit(lambda y: ekf(tr, me, ic.mean, ic.cov, dt, y[:, None])[0])
            f_g = jax.jit(lambda y: sgp_filter(tr, me, SigmaPoints.gauss_hermite(2, gh), ic.mean, ic.cov, dt, y[:, None], const_measurement_cov=False)[0])
            for i, g in enumerate(got):
                c.fields(g, 'errs_ghf', 'errs_ekf')
                _, xs, ys, _ = prey_record(c.keys[i])
                mon.close('prey-gauss', g['errs_ghf'], abs(xs - np.asarray(f_g(ys))), 1e-6, 1e-7, msg=f'Gauss--Hermite run {i} ')
                mon.close('prey-gauss', g['errs_ekf'], abs(xs - np.asarray(f_e(ys))), 1e-6, 1e-7, msg=f'EKF run {i} ')
            return
        n = int(rng.integers(40, 80))
        got = c.run('prey_predator/pf.py', [f'prey_predator_pf/{trans}_mc_{i}.npz' for i in range(st, ed + 1)], f'--nparticles={n}', f'--trans={trans}', f'--st_mc={st}', f'--ed_mc={ed}')

        def samp(x, key):
            ms, cs = jax.vmap(lambda u: tr(u, dt))(x)
            return ms + jnp.einsum('nij,nj->ni', jnp.linalg.cholesky(cs), jax.random.normal(key, (n, 2)))

        fn = jax.jit(lambda y, key: bootstrap_filter(samp, jax.vmap(pmf, in_axes=[None, 0]), y, ic.sampler, key, n, stratified)[0].mean(1))
        for g, i in zip(got, range(st, ed + 1)):
            c.fields(g, 'errs')
            _, xs, ys, key = prey_record(c.keys[i])
            mon.close('prey-pf', g['errs'], abs(xs - np.asarray(fn(ys, jax.random.split(key)[0]))), 1e-5, 1e-5, msg=f'run {i} ')


def cramer(mon, rng, tier, k):
    import jax
    import jax.numpy as jnp
    with Campaign(mon, rng, nkeys=3) as c:
        n = 2
        g = c.run('prey_predator/cramer_rao.py', ['prey_predator_cramer_rao/crlbs.npz'], f'--maxmc={n}')[0]
        c.fields(g, 'crlbs')
        B = g['crlbs']
        mon.true('cramer-rao', B.shape == (2000, 2, 2) and np.all(np.isfinite(B)), f'{B.shape}')
        from mfs.multi_dims.ss_models import prey_predator
        M = prey_predator(((0, 0), (0, 1), (1, 0)))
        dt, ic = M[0], M[3]
        x0, xs, ys = (np.asarray(v) for v in jax.vmap(M[8])(jnp.asarray(c.keys[:n])))
        # first steps of the information recursion with Hessians by JAX and the recursion in NumPy
        import tme.base_jax as tme

        def lt(xt, x):
            mu, C = tme.mean_and_cov(x, dt, M[4], M[5], order=2)
            e = xt - mu
            return -.5 * e @ jnp.linalg.solve(C, e) - .5 * jnp.linalg.slogdet(C)[1]

        def ll(y, x):
            p = M[6](x[0])
            return jnp.where(y > 0, jnp.log(p), jnp.log1p(-p))

        H = jax.jit(jax.vmap(jax.hessian(lt, argnums=(0, 1))))
        HL = jax.jit(jax.vmap(jax.hessian(ll, argnums=1)))
        J = -np.mean([np.asarray(jax.hessian(ic.logpdf)(jnp.asarray(v))) for v in x0], 0)
        path = np.concatenate([x0[:, None], xs], 1)
        for t in range(5):
            h = H(jnp.asarray(path[:, t + 1]), jnp.asarray(path[:, t]))
            D22, D21 = -np.asarray(h[0][0]).mean(0), -np.asarray(h[0][1]).mean(0)
            D12, D11 = -np.asarray(h[1][0]).mean(0), -np.asarray(h[1][1]).mean(0)
            L = -np.asarray(HL(jnp.asarray(ys[:, t], float), jnp.asarray(path[:, t + 1]))).mean(0)
            J = D22 + L - D21 @ np.linalg.solve(J + D11, D12)
            mon.close('cramer-rao', B[t], np.linalg.inv(J), 1e-5, 1e-9, msg=f'step {t} ')


def times(mon, rng, tier, m, k):
    with Campaign(mon, rng) as c:
        n = int(rng.integers(2, 4))
        if m == 'mf':
            N, mode, nrm = 2, ['raw', 'central', 'scaled'][int(rng.integers(3))], bool(rng.integers(2))
            g = c.run('time_profile/mf.py', [f'times/mf_{mode}{"_normal" if nrm else ""}_N_{N}.npz'], f'--N={N}', '--tme=2', f'--mode={mode}', f'--maxmc={n}', *(['--normal'] if nrm else []))[0]
        elif m == 'ghf':
            gh = int(rng.integers(3, 9))
            g = c.run('time_profile/ghf.py', [f'times/ghf_{gh}.npz'], '--tme=2', f'--gh={gh}', f'--maxmc={n}')[0]
        else:
            q = int(rng.integers(30, 90))
            g = c.run('time_profile/pf.py', [f'times/pf_{q}.npz'], '--tme=2', f'--nparticles={q}', f'--maxmc={n}')[0]
        c.fields(g, 'elapsed_times')
        t = g['elapsed_times']
        mon.true('times', t.shape == (n,) and np.all(t > 2e-5) and np.all(np.isfinite(t)) and t.sum() < c.wall, f'{t} in a run of {c.wall} s')
        # compilation (most of the run) is not part of a measured time; the threshold leaves room for a busy machine
        mon.true('times', np.min(t) < .2 * c.wall, f'times {t} of {c.wall} s: compilation is included')


def keys(mon, rng, tier):
    import jax
    with Campaign(mon, rng) as c:
        os.remove(os.path.join(c.cwd, 'rng_keys.npy'))
        mon.saw('generate_rng_key.py')
        mon.case(script='generate_rng_key.py')
        p = subprocess.run([sys.executable, os.path.join(D, 'generate_rng_key.py')], cwd=c.cwd, env=dict(os.environ, PYTHONPATH=core.REPO), capture_output=True, text=True, timeout=600)
        mon.true('exit', p.returncode == 0, p.stderr[-400:])
        ks = np.load(os.path.join(c.cwd, 'rng_keys.npy'))
        mon.true('keys', ks.dtype == np.uint32 and ks.ndim == 2 and ks.shape[1] == 2 and len(ks) >= 10000, f'{ks.dtype} {ks.shape}')
        u = ks[:, 0].astype(np.uint64) * 2 ** 32 + ks[:, 1]
        mon.true('keys', len(np.unique(u)) == len(u), 'Monte Carlo runs share random keys')
        z = ks.astype(float) / 2 ** 32
        mon.true('keys', np.all(np.abs(z.mean(0) - .5) < 6 / np.sqrt(12 * len(z))) and abs(np.corrcoef(z.T)[0, 1]) < 6 / np.sqrt(len(z)) and
                 np.all(np.abs([np.corrcoef(z[1:, i], z[:-1, i])[0, 1] for i in (0, 1)]) < 6 / np.sqrt(len(z))), 'keys are not random')
