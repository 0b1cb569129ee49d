"""Helpers shared by the check modules."""
import itertools, math, cmath
import numpy as np
from mc import ref, impl
from mc.core import CodeFailure

THR = 1e-10


def basis_collection(L, N, C=0):
    """the default collection: every basis state, labelled by its name"""
    return [ref.MS(None, 1.0, {v: 1.0 + 0j}, (0,) * C) for v in ref.all_values(L, N)]


def labelled(coll, L, left):
    """give every model state its own initial_state label"""
    for n, m in enumerate(coll):
        m.init = 's%d' % n
    return coll


def generic_vector(vals, seed=0):
    """dense, normalised vector with pairwise different amplitudes"""
    c = {}
    for n, v in enumerate(vals):
        c[v] = (1 + 0.37 * ((n * 7 + seed) % 11)) * cmath.exp(1j * (0.6 * n + 0.3 * seed + 0.1 * n * n))
    s = math.sqrt(sum(abs(a) ** 2 for a in c.values()))
    return {k: a / s for k, a in c.items()}


def ordered_pairs(N):
    return list(itertools.permutations(range(N), 2))


def compare_run(rep, L, N, C, left, ops, coll, key, full=False, thr=THR, tol=1e-4, ids=None, sample=None, prefixes=False):
    """evaluate ops on the implementation and on the model from the same collection and compare the results"""
    case = dict(L=L, N=N, C=C, channel_0_left=left, full_matrix=full, ops=ops,
                input=[impl.show(m) for m in coll[:3]] + (['...'] if len(coll) > 3 else []))
    model = ref.run_model(coll, ops, L, thr)
    rep.step(sum(1 for _ in ops) * max(1, len(coll)))
    with rep.guard(key, case):
        c = impl.circuit(L, N, C, left, thr, full, ops)
        real = impl.collection(c, coll, L, left, ids)
        out = impl.read(impl.evaluate(c, real), L, left)
        diff = impl.same_collection(model, out, tol)
        if diff:
            rep.violation(key, case, diff)
        rep.trace(sample and dict(case, output=[impl.show(m) for m in out[:2]]))
    return model


WIDE = 11       # more channels than one digit can number


def wide_collection(N, C):
    """single photons and pairs in a circuit with many channels, different classical values per state"""
    one = [tuple(int(i == k) for i in range(N)) for k in range(N)]
    two = [tuple(int(i in (a, b)) for i in range(N)) for a, b in ((0, N - 1), (1, N - 1), (2, N - 1), (1, 2), (N - 2, N - 1))]
    cl = lambda n: tuple(round(0.1 * k + 0.37 * n, 3) for k in range(C))
    res = [ref.MS('s%d' % n, 0.5, {v: 1.0 + 0j}, cl(n)) for n, v in enumerate(one + two)]
    return res + [ref.MS('sup', 0.5, generic_vector(one, 1), cl(20)), ref.MS('pairs', 0.25, generic_vector(two, 2), cl(21))]


def wide_pairs(N):
    """ordered pairs of channels with numbers of one and two digits"""
    ks = [0, 1, 2, N - 2, N - 1]
    return [(a, b) for a in ks for b in ks if a != b]
