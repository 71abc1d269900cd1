"""Runtime-monitoring core: event log, online oracles, verdicts, parallel task runner.

A check is a set of *tasks*.  Each task drives the real code of /repo through its public API with a seeded
workload while a `Monitor` records every API call as an event and evaluates oracles on what was observed.
The verdict is three-valued: violated (exit 1), held on what was observed (exit 0), or inconclusive
(exit 3: an oracle that has to run never ran, or the harness itself failed).
"""
import hashlib
import json
import os
import sys
import time
import traceback

import numpy as np

REPO = os.environ.get('RV_REPO', '/repo')
MAX_VIOL = 20


class ApiError(Exception):
    """The code under test raised on an input inside the property's domain."""


def _short(v, n=12):
    """A JSON-able, short rendering of a value."""
    try:
        if v is None or isinstance(v, (bool, int, str)):
            return v
        if isinstance(v, float):
            return v if np.isfinite(v) else repr(v)
        if isinstance(v, complex):
            return repr(v)
        if isinstance(v, dict):
            return {str(k): _short(x, n) for k, x in list(v.items())[:20]}
        if isinstance(v, (list, tuple)) and not all(np.isscalar(x) for x in v):
            return [_short(x, n) for x in v[:n]]
        if callable(v):
            return getattr(v, '__name__', 'callable')
        a = np.asarray(v)
        if a.size <= n:
            return json.loads(json.dumps(a.tolist(), default=repr)) if np.isrealobj(a) else repr(a.tolist())
        return {'shape': list(a.shape), 'dtype': str(a.dtype),
                'head': json.loads(json.dumps(a.ravel()[:n].tolist(), default=repr)) if np.isrealobj(a) else repr(
                    a.ravel()[:n].tolist())}
    except Exception:
        return repr(v)[:200]


class Monitor:
    """Collects events and oracle evaluations of one task."""

    def __init__(self, prop, task):
        self.prop, self.task = prop, task
        self.events = {}  # API entry point -> number of observed calls
        self.evals = {}  # oracle tag -> number of evaluations
        self.nontrivial = set()  # hashes of distinct non-trivial cases
        self.cases = 0
        self.skipped = {}  # oracle tag -> cases declared out of numerical reach (not a verdict)
        self.samples = []
        self.violations = []
        self.margin = {}  # oracle tag -> worst observed error / tolerance
        self.ctx = {}

    # -- events ------------------------------------------------------------------------------------------
    def api(self, fn, *args, **kwargs):
        """Call the code under test; record the event; an exception is an observation, not a harness error."""
        name = getattr(fn, '__name__', None) or repr(fn)
        self.events[name] = self.events.get(name, 0) + 1
        try:
            return fn(*args, **kwargs)
        except Exception as e:
            raise ApiError(f'{name} raised {type(e).__name__}: {str(e)[:400]}') from e

    def saw(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    # -- cases -------------------------------------------------------------------------------------------
    def case(self, nontrivial=True, **ctx):
        """Declare one generated case.  `ctx` identifies it and becomes the context of any violation."""
        self.cases += 1
        self.ctx = ctx
        if nontrivial:
            h = hashlib.sha1(json.dumps(_short(ctx), sort_keys=True, default=repr).encode()).hexdigest()[:16]
            self.nontrivial.add(h)
        if len(self.samples) < 2:
            self.samples.append({'task': self.task, **_short(ctx)})

    def skip(self, tag, n=1):
        self.skipped[tag] = self.skipped.get(tag, 0) + n

    # -- oracles -----------------------------------------------------------------------------------------
    def violate(self, tag, msg, **details):
        if len(self.violations) < MAX_VIOL:
            self.violations.append({'oracle': tag, 'message': msg, 'case': _short(self.ctx),
                                    'details': {k: _short(v, 40) for k, v in details.items()}})
        else:
            self.violations[-1]['more'] = self.violations[-1].get('more', 0) + 1

    def true(self, tag, cond, msg='', **details):
        self.evals[tag] = self.evals.get(tag, 0) + 1
        if not bool(cond):
            self.violate(tag, msg or 'condition is false', **details)
        return bool(cond)

    def close(self, tag, got, want, rtol=1e-8, atol=1e-10, scale=None, msg='', **details):
        """|got - want| <= atol + rtol * scale elementwise; scale defaults to max|want| of the array."""
        self.evals[tag] = self.evals.get(tag, 0) + 1
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            self.violate(tag, f'{msg} shape {g.shape} differs from the expected {w.shape}', got=g, want=w, **details)
            return False
        if g.size == 0:
            return True
        if not np.all(np.isfinite(g)):
            self.violate(tag, f'{msg} not finite', got=g, want=w, **details)
            return False
        s = np.max(np.abs(w)) if scale is None else np.asarray(scale)
        tol = atol + rtol * s
        err = np.abs(g - w)
        ratio = float(np.max(err / tol))
        if ratio > self.margin.get(tag, 0.):
            self.margin[tag] = ratio
        if not ratio <= 1.:
            self.violate(tag, f'{msg} differs from the oracle: max error/tolerance = {ratio:.3g}',
                         got=g, want=w, max_err=float(np.max(err)), tol=np.max(tol), **details)
            return False
        return True

    def report(self):
        return {'task': self.task, 'events': self.events, 'evals': self.evals, 'cases': self.cases,
                'nontrivial': sorted(self.nontrivial), 'skipped': self.skipped, 'samples': self.samples,
                'violations': self.violations, 'margin': self.margin}


def rng_for(seed, *names):
    h = hashlib.sha256(('/'.join(map(str, (seed,) + names))).encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], 'little'))


def touches_repo(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + '/'):
            return True
        tb = tb.tb_next
    return False


def _chain(e):
    while e is not None:
        yield e
        e = e.__cause__ or e.__context__


def run_task(prop, module, name, fn, kwargs, tier, seed):
    """Run one task in the current process, return a report dict."""
    m = Monitor(prop, name)
    t0 = time.time()
    err = None
    try:
        fn(m, rng_for(seed, prop, name), tier, **kwargs)
    except ApiError as e:
        m.evals['no-exception'] = m.evals.get('no-exception', 0) + 1
        m.violate('no-exception', str(e), traceback=''.join(traceback.format_exception(e))[-3000:])
    except Exception as e:
        if any(touches_repo(x.__traceback__) for x in _chain(e)):
            m.violate('no-exception', f'raised {type(e).__name__}: {str(e)[:400]}',
                      traceback=''.join(traceback.format_exception(e))[-3000:])
        elif m.events and isinstance(e, (TypeError, ValueError, IndexError, KeyError, AttributeError, ArithmeticError,
                                         np.linalg.LinAlgError)):
            # The harness choked on what the API returned: wrong arity, shape, type, or non-finite values.
            m.violate('malformed-output', f'observed output could not be processed: {type(e).__name__}: {str(e)[:300]}',
                      traceback=''.join(traceback.format_exception(e))[-3000:])
        else:
            err = ''.join(traceback.format_exception(e))[-4000:]
    r = m.report()
    r['wall'] = time.time() - t0
    r['harness_error'] = err
    return r
