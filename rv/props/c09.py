"""C09: multi-index bookkeeping: enumeration, ranking, counting, Gram/Hankel index matrices."""
import itertools
import math

import numpy as np

from rv import ref

RULE = ('Exhaustive over d = 1..6 and all (upper, lower) degree windows with at most a few thousand multi-indices, plus random '
        'large multi-indices (d up to 10, entries up to 60) against a combinatorial ranking computed independently.')
ASSUMPTIONS = []
MUST_RUN = ['enumeration', 'size', 'rank', 'rank-large', 'gram', 'hankel', 'size-empty', 'find-indices']


def tasks(tier):
    cap = 1500 if tier == 'quick' else 20000
    out = [(f'enumerate-d{d}', enum, dict(d=d, cap=cap)) for d in range(1, 7)]
    out += [('rank-large', large, {}), ('windows', windows, {})]
    out += [(f'gram-d{d}', gram, dict(d=d)) for d in range(1, 7)]
    out += [('gram-high', gram_high, {})]
    return out


def enum(mon, rng, tier, d, cap):
    from mfs.multi_dims.multi_indices import (generate_graded_lexico_multi_indices, sizeof_multi_indices,
                                              graded_lexico_indexof_multi_index, find_indices)
    upper = 0
    while math.comb(upper + d, d) <= cap and upper <= 60:
        full = ref.brute_multi_indices(d, upper) if math.comb(upper + d, d) * 1. <= cap and (upper + 1) ** d <= 3e5 else None
        if full is None:
            break
        lowers = range(upper + 1) if upper <= 8 else sorted({0, 1, upper // 2, upper - 1, upper})
        for lower in lowers:
            want = np.array([x for x in full if sum(x) >= lower])
            mon.case(d=d, upper=upper, lower=lower)
            got = np.asarray(mon.api(generate_graded_lexico_multi_indices, d, upper, lower))
            mon.true('enumeration', got.shape == want.shape and np.array_equal(got, want),
                     f'enumeration of {lower} <= |x| <= {upper}', got=got, want=want)
            mon.true('integer', np.issubdtype(got.dtype, np.integer), f'{got.dtype}')
            mon.true('size', mon.api(sizeof_multi_indices, d, upper, lower) == len(want), 'size')
            step = max(1, len(want) // 200)
            for k in range(0, len(want), step):
                x = want[k]
                mon.true('rank', mon.api(graded_lexico_indexof_multi_index, x, lower) == k, f'rank of {x} lower {lower}')
                if lower == 0:
                    mon.true('rank', graded_lexico_indexof_multi_index(list(map(int, x))) == k, f'rank of list {x}')
            if lower == 0:
                mon.true('find-indices', np.array_equal(mon.api(find_indices, want), np.arange(len(want))), 'find_indices')
        mon.true('size-empty', sizeof_multi_indices(d, upper, upper + 1) == 0 and sizeof_multi_indices(d, upper, upper + 3) == 0,
                 'an empty window has no multi-indices')
        upper += 1


def of_degree(d, s):
    """All x with |x| = s, lexicographically ascending."""
    if d == 1:
        return [(s,)]
    return [(v,) + r for v in range(s + 1) for r in of_degree(d - 1, s - v)]


def windows(mon, rng, tier):
    """Many dimensions, and degree windows far from the origin (entries beyond one byte)."""
    from mfs.multi_dims.multi_indices import (generate_graded_lexico_multi_indices, sizeof_multi_indices,
                                              graded_lexico_indexof_multi_index, find_indices)
    cases = [(d, u, lo) for d in (7, 8, 9, 10, 12) for u, lo in ((1, 0), (2, 0), (3, 0), (3, 2), (4, 4))]
    cases += [(1, 300, 120), (2, 129, 126), (2, 140, 130), (2, 258, 255), (2, 301, 300), (3, 40, 39), (3, 130, 130), (4, 16, 16), (5, 9, 9)]
    if tier != 'quick':
        cases += [(d, int(u), int(u) - int(rng.integers(0, 2))) for d, u in zip(rng.integers(2, 4, 20), rng.integers(20, 110, 20))]
    for d, u, lo in cases:
        want = np.array([x for s in range(lo, u + 1) for x in of_degree(d, s)])
        mon.case(d=d, upper=u, lower=lo)
        got = np.asarray(mon.api(generate_graded_lexico_multi_indices, d, u, lo))
        mon.true('enumeration', got.shape == want.shape and np.array_equal(got, want), f'enumeration d={d} of {lo} <= |x| <= {u}', got=got, want=want)
        mon.true('size', mon.api(sizeof_multi_indices, d, u, lo) == len(want), 'size')
        for k in range(0, len(want), max(1, len(want) // 50)):
            mon.true('rank', mon.api(graded_lexico_indexof_multi_index, want[k], lo) == k, f'rank of {want[k]} lower {lo}')
        if lo == 0:
            mon.true('find-indices', np.array_equal(mon.api(find_indices, want), np.arange(len(want))), 'find_indices')


def brute_rank(x):
    """Number of multi-indices strictly before x: lower degree, or same degree and lexicographically smaller."""
    d, s = len(x), sum(x)
    r = math.comb(s - 1 + d, d) if s > 0 else 0
    rest = s
    for i in range(d - 1):
        for v in range(x[i]):  # same prefix, smaller i-th entry: remaining sum spread over d-i-1 entries
            r += math.comb(rest - v + d - i - 2, d - i - 2)
        rest -= x[i]
    return r


def large(mon, rng, tier):
    from mfs.multi_dims.multi_indices import graded_lexico_indexof_multi_index, sizeof_multi_indices
    for rep in range(600 if tier == 'quick' else 10000):
        d = int(rng.integers(1, 11))
        hi = int(rng.choice([2, 6, 20, 60]))
        x = [int(v) for v in rng.integers(0, hi + 1, d)]
        if rep % 3 == 0:
            for j in rng.choice(d, size=d // 2, replace=False):
                x[j] = 0
        mon.case(x=x)
        want = brute_rank(x)
        mon.true('rank-large', mon.api(graded_lexico_indexof_multi_index, x) == want, f'rank of {x}', want=want)
        lo = int(rng.integers(0, sum(x) + 1))
        off = math.comb(lo - 1 + d, d) if lo > 0 else 0
        mon.true('rank-large', graded_lexico_indexof_multi_index(x, lo) == want - off, f'rank of {x} from degree {lo}')
        u = int(rng.integers(0, 40))
        lo = int(rng.integers(0, u + 1))
        mon.true('size', sizeof_multi_indices(d, u, lo) == math.comb(u + d, d) - (math.comb(lo - 1 + d, d) if lo > 0 else 0),
                 f'size d={d} {lo}..{u}')


def gram_high(mon, rng, tier):
    """High dimensions: positions beyond the range of narrow integers."""
    from mfs.multi_dims.multi_indices import gram_and_hankel_indices_graded_lexico
    for d, n in ((8, 3), (20, 2), (58, 2), (70, 2), (16, 3)) + (((12, 4), (9, 4)) if tier == 'thorough' else ()):
        basis = np.array([x for s in range(n) for x in of_degree(d, s)])
        got = np.asarray(mon.api(gram_and_hankel_indices_graded_lexico, n, d))
        mon.case(d=d, n=n)
        s = len(basis)
        if not mon.true('shape', got.shape == (d + 1, s, s), f'{got.shape}'):
            continue
        for rep in range(150 if tier == 'quick' else 1000):
            a, b, c = int(rng.integers(s)), int(rng.integers(s)), int(rng.integers(d + 1))
            if rep == 0:
                a = b = s - 1
                c = d
            x = basis[a] + basis[b]
            if c:
                x[c - 1] += 1
            mon.true('hankel' if c else 'gram', int(got[c, a, b]) == brute_rank([int(v) for v in x]), f'd={d} N={n} entry {(c, a, b)}')


def gram(mon, rng, tier, d):
    from mfs.multi_dims.multi_indices import gram_and_hankel_indices_graded_lexico
    nmax = {1: 140, 2: 12, 3: 6, 4: 4, 5: 3, 6: 3}[d] + (0 if tier == 'quick' else 1)
    for n in range(1, nmax + 1) if d > 1 else [*range(1, 13), 40, nmax]:
        mis = ref.brute_multi_indices(d, 2 * n - 1)
        pos = {m: j for j, m in enumerate(mis)}
        basis = ref.brute_multi_indices(d, n - 1)
        s = len(basis)
        got = np.asarray(mon.api(gram_and_hankel_indices_graded_lexico, n, d))
        mon.case(d=d, n=n)
        mon.true('shape', got.shape == (d + 1, s, s), f'{got.shape}')
        wg = np.array([[pos[tuple(np.add(a, b))] for b in basis] for a in basis])
        mon.true('gram', np.array_equal(got[0], wg), f'Gram indices d={d} N={n}')
        for i in range(d):
            e = np.eye(d, dtype=int)[i]
            wh = np.array([[pos[tuple(np.add(np.add(a, b), e))] for b in basis] for a in basis])
            mon.true('hankel', np.array_equal(got[1 + i], wh), f'multiplication indices d={d} N={n} coordinate {i}')
