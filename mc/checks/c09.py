"""C09: shift, c_shift, their direct variants and channel_coupling: modular photon arithmetic."""
import itertools
import fock_state_circuit as fsc
from mc import ref, impl
from mc.common import *

LEVEL = 'model_checking'
RULE = ('state = (circuit size, naming, node with its channel lists); every target list with shift values, every list of control-target pairs up to the length, '
        'every coupling strength of the menu, on every basis state and dense superpositions; programs of these nodes with optical and measurement nodes up to the depth')
ASSUMPTIONS = ['coupling strengths from a finite menu; for strengths between 0 and 1 only the documented transition amplitudes are claimed (the operation is not unitary)']

STRENGTHS = (0, 1, 0.5, 0.1)


def sizes(tier):
    q = [(2, 2), (3, 2), (2, 3), (3, 3), (4, 2), (2, 4), (11, 2)]
    return q if tier == 'quick' else q + [(4, 3), (5, 2), (3, 4), (2, 5)]


def coll(L, N, C=1):
    vals = ref.all_values(L, N)
    res = basis_collection(L, N, C)
    if len(res) > 30:
        res = res[::5] + res[-2:]
    res = labelled([m.copy(cum=0.5, hist=(((1,) * C, 0.5),)) for m in res], L, True)
    res.append(ref.MS('dense', 1.0, generic_vector(vals), (3,) * C))
    res.append(ref.MS('two', 1.0, {vals[-1]: 0.6 + 0j, vals[1]: 0.8j}, (2,) * C))
    return res


ALPHA = [('shift', (0,), (1,)), ('shift', (1, 0), (2, 1)), ('cshift', (0,), (1,)), ('cshift', (1, 0), (0, 1)), ('shiftd', (1,), (2,)), ('cshiftd', (0, 1), (1, 0)),
         ('coup', (0,), (1,), 1), ('coup', (1,), (0,), 0.5), ('mix', 0, 1), ('ps', 1, 0.7), ('meas', (0,), (0,)), ('fock', 'four')]


def shards(tier):
    items = []
    for L, N in sizes(tier):
        for left in (True, False):
            items.append(('shift', L, N, left, tier))
            pairs = ordered_pairs(N)
            for p in pairs:
                items.append(('pairs', L, N, left, p, tier))
    items += [('wide', left, p) for left in (True, False) for p in wide_pairs(WIDE)]
    for a in ALPHA:
        for b in ALPHA:
            items.append(('prog', 3 if tier == 'quick' else 4, True, (a, b)))
        items.append(('prog', 2 if tier == 'quick' else 3, False, (a,)))
    return items


def run(item, rep):
    t = item[0]
    if t == 'shift':
        _, L, N, left, tier = item
        m = coll(L, N)
        menu = [0, 1, 2, L - 1, L, L + 1]
        lists = []
        for n in range(1, min(N, 3) + 1):
            for ch in itertools.product(range(N), repeat=n):
                if n == 3 and (tier == 'quick' and len(set(ch)) < 2 or L > 4):
                    continue
                vals = itertools.product(sorted(set(menu)), repeat=n) if n == 1 or (n == 2 and L ** N <= 30) else [tuple((i + k) % L for i in range(1, n + 1)) for k in range(L if L < 5 else 2)]
                lists += [(ch, tuple(v)) for v in vals]
        if L ** N > 40:
            lists = [x for x in lists if len(x[0]) == 1] + [x for x in lists if len(x[0]) > 1][::(3 if tier == 'quick' else 1)]
        for ch, v in lists:
            for op in (('shift', ch, v), ('shiftd', ch, v)):
                rep.state((L, N, left, op))
                compare_run(rep, L, N, 1, left, [op], m, op[0], sample=True)
            if rep.nviol > 20:
                return
    elif t == 'wide':
        # direct variants only: the others build matrices of the whole basis
        _, left, (a, b) = item
        L, N = 2, WIDE
        ops = [('shiftd', (a, b), (1, 1)), ('cshiftd', (a, b), (b, a)), ('shiftd', (a,), (1,)), ('cshiftd', (a,), (b,)), ('cshiftd', (a, a, b), (b, 3, 4))]
        for op in ops:
            rep.state((item, op))
            compare_run(rep, L, N, 1, left, [op], wide_collection(N, 1), op[0], sample=True)
    elif t == 'pairs':
        _, L, N, left, first, tier = item
        m = coll(L, N)
        big = L ** N
        seqs = [(first,)]
        seqs += [(first, p) for p in ordered_pairs(N)]
        if big <= 16 or (tier != 'quick' and big <= 27):
            seqs += [(first, p, r) for p in ordered_pairs(N) for r in ordered_pairs(N)]
        for s in seqs:
            cs, ts = tuple(p[0] for p in s), tuple(p[1] for p in s)
            ops = [('cshift', cs, ts), ('cshiftd', cs, ts)]
            if len(s) < 3 or tier != 'quick':
                ops += [('coup', cs, ts, p) for p in STRENGTHS]
            for op in ops:
                rep.state((L, N, left, op))
                compare_run(rep, L, N, 1, left, [op], m, op[0], sample=True, tol=1e-3)
            if rep.nviol > 20:
                return
    else:
        _, depth, left, pre = item
        L, N, C = 3, 2, 1
        vals = ref.all_values(L, N)
        m = [ref.MS('a', 0.5, generic_vector(vals, 2), (0,)), ref.MS('b', 0.5, {vals[-1]: 0.6 + 0j, vals[1]: 0.8j}, (4,))]
        for rest in itertools.product(ALPHA, repeat=depth - len(pre)):
            prog = pre + rest
            if any(o[0] == 'meas' for o in prog) and any(o[0] == 'coup' and 0 < o[3] < 1 for o in prog):
                continue    # weights above one are not meaningful for a measurement
            if not any(o[0] in ('shift', 'cshift', 'shiftd', 'cshiftd', 'coup') for o in prog):
                continue
            rep.state((left, prog))
            compare_run(rep, L, N, C, left, prog, m, 'program', sample=True, tol=1e-3)
            if rep.nviol > 20:
                return
