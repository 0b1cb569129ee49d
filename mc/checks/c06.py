"""C06: measurement: Born rule, collapse, history, no lost outcomes."""
import itertools, math
import fock_state_circuit as fsc
from mc import ref, impl
from mc.common import *

LEVEL = 'model_checking'
RULE = ('state = (circuit size, naming, program with measurements, input collection); all channel lists and classical targets for single measurements, all programs '
        'of measurements, gates and classical nodes up to the depth, and measurements with many outcomes; collections are compared as multisets with the Born rule')
ASSUMPTIONS = ['the lists of optical and classical channels of a measurement are equally long (documented requirement)', 'probabilities and amplitudes are compared within 1e-4']

ALPHA = [('meas', (0,), (0,)), ('meas', (1,), (0,)), ('meas', (0,), (1,)), ('meas', (1, 0), (0, 1)), ('meas', (0, 1), (0, 1)), ('wp', 0, 1, 0.4, 1.1), ('mix', 1, 0),
         ('setc', (2, 5), (0, 1)), ('cfun', 'reverse', (0,), (0,)), ('shift', (0,), (1,))]


def colls(L, N, C):
    vals = ref.all_values(L, N)
    low = [v for v in vals if sum(v) < L]
    h = (((0,) * C, 0.25), (tuple(range(C)), 0.5))
    return [
        [ref.MS('dense', 1.0, generic_vector(vals), tuple(3 + i for i in range(C)))],
        [ref.MS('a', 0.5, generic_vector(low, 1), (0,) * C), ref.MS('b', 0.25, {vals[-1]: 1.0 + 0j}, (1,) * C, h),
         ref.MS('a', 0.125, {low[1]: 0.6 + 0j, low[-1]: 0.8j}, (7,) * C, h[:1])],
    ]


def shards(tier):
    items = []
    q = tier == 'quick'
    for L, N, C in ((2, 2, 2), (3, 2, 2), (3, 2, 3), (2, 3, 3), (3, 3, 3), (2, 4, 2), (4, 2, 1), (11, 2, 2)) + (() if q else ((2, 4, 4), (3, 4, 3), (4, 3, 3), (2, 5, 3), (5, 2, 4))):
        for left in (True, False):
            for n in range(1, min(N, C) + 1):
                items.append(('single', L, N, C, left, n))
    depth = 4 if q else 5
    for a in ALPHA:
        for b in ALPHA:
            if a[0] == 'meas' or b[0] == 'meas':
                items.append(('prog', depth, True, (a, b)))
            if not q:
                items.append(('prog', 4, False, (a, b)))
        if q:
            items.append(('prog', 3, False, (a,)))
    for L, N in ((6, 2), (4, 3), (27, 2), (28, 2), (3, 6), (9, 3)) + (() if q else ((12, 3), (4, 5), (40, 2))):
        for left in (True, False):
            items.append(('many', L, N, left))
    for left in (True, False):
        items += [('wide', left, p) for p in wide_pairs(WIDE)]
    return items


def run(item, rep):
    if item[0] == 'single':
        _, L, N, C, left, n = item
        for coll in colls(L, N, C):
            for oc in itertools.permutations(range(N), n):
                for cc in itertools.permutations(range(C), n):
                    op = ('meas', oc, cc)
                    rep.state((item, op, coll[0].init))
                    ids = ['x%d' % i for i in range(len(coll))]
                    model = compare_run(rep, L, N, C, left, [op], coll, 'single', ids=ids, sample=True)
                    tot = sum(m.cum for m in model)
                    assert abs(tot - sum(m.cum for m in coll)) < 1e-9
        if n == 1:
            # the same channel measured into two classical channels, the same measurement twice
            for o in range(N):
                if C > 1:
                    compare_run(rep, L, N, C, left, [('meas', (o, o), (0, 1))], colls(L, N, C)[0], 'single')
                compare_run(rep, L, N, C, left, [('meas', (o,), (0,)), ('meas', (o,), (C - 1,))], colls(L, N, C)[1], 'repeat')
                rep.state((item, 'double', o))
    elif item[0] == 'wide':
        _, left, p = item
        L, N, C = 2, WIDE, WIDE + 1
        for q in wide_pairs(C):
            for prog in ([('meas', p, q)], [('meas', p[:1], q[:1]), ('meas', p[1:], q[1:])], [('meas', p, q), ('setc', (9,), (q[1],)), ('meas', (0, N - 1, 5), (10, 2, 3))]):
                rep.state((item, q, tuple(prog)))
                compare_run(rep, L, N, C, left, prog, wide_collection(N, C), 'wide', sample=True)
    elif item[0] == 'prog':
        _, depth, left, pre = item
        L, N, C = 3, 2, 2
        for coll in colls(L, N, C):
            for rest in itertools.product(ALPHA, repeat=depth - len(pre)):
                prog = pre + rest
                if not any(o[0] == 'meas' for o in prog):
                    continue
                rep.state((left, prog, coll[0].init))
                compare_run(rep, L, N, C, left, prog, coll, 'program', sample=True, tol=2e-4)
                if rep.nviol > 30:
                    return
    else:
        _, L, N, left = item
        vals = ref.all_values(L, N)
        vec = generic_vector(vals)
        coll = [ref.MS('m', 0.5, vec, (0,) * N), ref.MS('n', 0.5, {vals[1]: 0.6 + 0j, vals[-1]: 0.8 + 0j}, (0,) * N)]
        allc = tuple(range(N))
        progs = [[('meas', allc, allc)], [('meas', (0,), (0,)), ('meas', allc[1:], allc[1:])], [('meas', allc, allc), ('setc', (1,), (0,)), ('meas', (0,), (N - 1,))],
                 [('meas', allc[::-1], allc), ('shift', (0,), (1,)), ('meas', allc, allc)]]
        for prog in progs:
            rep.state((item, tuple(prog)))
            # big collections: compare by a sorted key instead of pairwise
            case = dict(L=L, N=N, channel_0_left=left, ops=prog)
            model = ref.run_model(coll, prog, L, THR)
            rep.step(len(model) * len(prog))
            with rep.guard('many-outcomes', case):
                c = impl.circuit(L, N, N, left, THR, False, prog)
                out = impl.evaluate(c, impl.collection(c, coll, L, left))
                got = impl.read(out, L, left)
                rep.trace(dict(case, outcomes=len(got)))
                if len(got) != len(model) or len(out.state_identifiers_as_list()) != len(set(out.state_identifiers_as_list())) or len(out) != len(got):
                    rep.violation('many-outcomes', case, 'expected %d outcomes, got %d' % (len(model), len(got)))
                    continue
                key = lambda m: (m.init, tuple(sorted(m.c)), m.cl, tuple(h[0] for h in m.hist))
                a, b = sorted(model, key=key), sorted(got, key=key)
                for x, y in zip(a, b):
                    if not impl.same_state(x, y, 1e-5):
                        rep.violation('many-outcomes', case, 'expected %s got %s' % (impl.show(x), impl.show(y)))
                        break
