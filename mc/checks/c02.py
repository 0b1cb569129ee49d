"""C02: every optical element, on every ordered choice of channels, for every basis state, in both naming conventions."""
import itertools, math
from mc import ref, impl
from mc.common import *

LEVEL = 'model_checking'
RULE = ('state = (circuit size, naming convention, matrix mode, element with parameters, channels, basis state); every basis state and one dense '
        'superposition is sent through the real element and compared with the independent creation-operator expansion')
ASSUMPTIONS = ['angles are taken from a fixed menu of generic values; amplitudes are compared within 1e-4 (single precision in the code)']

PI = math.pi


def elements(a, b, rich):
    """all two-channel and one-channel elements for the ordered pair (a,b)"""
    res = [('swap', a, b), ('mix', a, b), ('hwp45', a, b), ('hwp225', a, b), ('qwp45', a, b), ('qwp225', a, b),
           ('wp', a, b, 0.4, 1.1), ('hwp', a, b, 0.7), ('qwp', a, b, -0.35), ('mixg', a, b, 0.3),
           ('custom', a, b, ((0.6, 0.8j), (0.8, -0.6j))), ('ps', a, 0.9)]
    if rich:
        res += [('wp', a, b, t, p) for t in (0.0, PI / 8, -1.2, PI / 2) for p in (0.0, PI / 3, PI, -2.0)]
        res += [('hwp', a, b, t) for t in (0.0, PI / 4, 2.0)] + [('qwp', a, b, t) for t in (0.0, PI / 4, 2.0)]
        res += [('mixg', a, b, r) for r in (0.0, 0.5, 0.85, 1.0)]
        res += [('ps', a, p) for p in (PI, -PI / 2, 7.0)]
        res += [('custom', a, b, ((0, 1j), (-1, 0))), ('custom', a, b, ((0.6, -0.8), (0.8, 0.6)))]
        # reflection and transmission given by an angle, as the documentation advises: they add up to one within rounding only
        res += [('mixg', a, b, math.sin(t) ** 2, math.cos(t) ** 2) for t in (0.08, 0.14, 0.33, 1.0)]
    return res


def four(N, rich):
    res = []
    for q in itertools.permutations(range(N), 4):
        p1, p2 = (q[0], q[1]), (q[2], q[3])
        res += [('pbs', p1, p2), ('npbs50', p1, p2), ('npbs', p1, p2, 0.3), ('npbs', p1, p2, math.sin(0.14) ** 2, math.cos(0.14) ** 2)]
        if rich:
            res += [('npbs', p1, p2, 0.75)]
    return res


def shards(tier):
    items = []
    q = tier == 'quick'
    sizes = [(2, 2), (3, 2), (4, 2), (5, 2), (6, 2), (2, 3), (3, 3), (4, 3), (2, 4), (3, 4), (2, 5)] + ([] if q else [(7, 2), (8, 2), (2, 6), (5, 3), (4, 4), (3, 5)])
    for L, N in sizes:
        for left in (True, False):
            for full in (False, True):
                if full and L ** N > 100:
                    continue
                for a, b in ordered_pairs(N):
                    items.append((L, N, left, full, (a, b)))
    # two digits per channel in the names
    for left in (True, False):
        for a, b in ((0, 1), (1, 0)):
            items.append((11, 2, left, False, (a, b)))
    for left in (True, False):
        for full in (False, True):
            items.append((2, 4, left, full, 'four'))
            if not q:
                items.append((3, 4, left, full, 'four'))
                items.append((2, 5, left, full, 'four'))
    items += [(L, 4, left, full, 'four3') for L in (3,) for left in (True, False) for full in (False,)] if q else []
    # channel numbers with two digits
    for left in (True, False):
        items += [(2, N, left, False, ('wide', p)) for N in ((WIDE,) if q else (WIDE, 12)) for p in wide_pairs(N)]
    items.sort(key=lambda i: -i[0] ** i[1])
    return items


def run(item, rep):
    L, N, left, full, what = item
    if what[0] == 'wide':
        a, b = what[1]
        others = [k for k in (1, N - 1, 0, N - 2, 2) if k not in (a, b)]
        ops = elements(a, b, False) + [('pbs', (a, others[0]), (b, others[1])), ('npbs50', (a, others[0]), (others[1], b)), ('npbs', (others[0], a), (others[1], b), 0.3)]
        for op in ops:
            rep.state((item, op))
            compare_run(rep, L, N, 0, left, [op], wide_collection(N, 0), 'element-' + op[0], full, sample=True)
        return
    if what == 'four':
        ops = four(N, False)
    elif what == 'four3':
        ops = four(N, False)[::4]
    else:
        a, b = what
        ops = elements(a, b, rich=(L ** N <= 32))
        if L == 11:
            ops = elements(a, b, False)[:1] + [('mix', a, b), ('wp', a, b, 0.4, 1.1), ('ps', a, 0.9)]
    vals = ref.all_values(L, N)
    coll = labelled(basis_collection(L, N), L, left)
    coll = coll + [ref.MS('sup', 1.0, generic_vector(vals), ())]
    for op in ops:
        for v in vals:
            rep.state((item, op, v))
        model = compare_run(rep, L, N, 0, left, [op], coll, 'element-' + op[0], full, sample=True)
