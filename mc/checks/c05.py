"""C05: names, photon numbers and indices of the basis under every history of look-ups; independence of the naming convention."""
import itertools, math
import numpy as np
import fock_state_circuit as fsc
from mc import ref, impl
from mc.common import *

LEVEL = 'model_checking'
RULE = ('state = (circuit size, naming, history of look-ups); after every history the complete basis, all look-ups, the default collection and the '
        'vector translation are compared with a list model; a second part evaluates every program in both naming conventions')
ASSUMPTIONS = ['look-up histories up to the depth bound over a menu of valid and invalid keys']


def model_at(vals, L, i):
    return vals[i]


def lookups(L, N, left):
    vals = ref.all_values(L, N)
    nm = lambda v: ref.name_of(v, L, left)
    d = len(str(L - 1))
    pick = [vals[-1], vals[1], vals[L]]
    res = [('name', nm(v)) for v in pick] + [('in', nm(v)) for v in pick[:2]]
    res += [('idx', nm(pick[0])), ('at', len(vals) // 2), ('keys',), ('items',), ('values',), ('iter1',), ('len',)]
    res += [('val', v) for v in pick] + [('vin', pick[1]), ('vidx', pick[0]), ('vat', 1), ('vkeys',), ('vitems',), ('viter1',)]
    bad = [nm(vals[-1]) + '0' * d, nm(vals[1])[d:], (str(L).zfill(d) if len(str(L)) == d else '9' * d) + '0' * d * (N - 1)]
    res += [('name?', b) for b in bad[:2]] + [('in?', b) for b in bad]
    res += [('vin?', vals[1] + (0,)), ('vin?', (L,) + (0,) * (N - 1)), ('vin?', (-1,) + (0,) * (N - 1)), ('vidx?', (L - 1,) * N)]
    res += [('mutate', nm(pick[0])), ('collection',), ('state',), ('evaluate',), ('setvec',)]
    return res


class Bad(Exception):
    pass


def expect(got, want, what):
    if got != want:
        raise impl.CodeFailure('%s: expected %r, got %r' % (what, want, got))


def do(c, op, L, N, left, vals):
    """perform one look-up on the real object and check its answer"""
    B, O = c.basis(), c._dict_of_optical_values
    nm = lambda v: ref.name_of(v, L, left)
    t = op[0]
    if t == 'name':
        expect(tuple(B[op[1]]), ref.values_of(op[1], L, left), op)
    elif t == 'name?':
        try:
            B[op[1]]
        except Exception:
            pass
    elif t == 'in':
        expect(op[1] in B, True, op)
    elif t == 'in?':
        expect(op[1] in B, False, op)
    elif t == 'idx':
        expect(B.index_of(op[1]), vals.index(ref.values_of(op[1], L, left)), op)
    elif t == 'at':
        expect(B.at_index(op[1]), nm(vals[op[1]]), op)
    elif t == 'keys':
        expect(list(B.keys()), [nm(v) for v in vals], op)
    elif t == 'items':
        expect([(k, tuple(v)) for k, v in B.items()], [(nm(v), v) for v in vals], op)
    elif t == 'values':
        expect([tuple(v) for v in B.values()], vals, op)
    elif t == 'iter1':
        expect(next(iter(B)), nm(vals[0]), op)
    elif t == 'len':
        expect(len(B), len(vals), op)
    elif t == 'val':
        expect(O[op[1]], nm(op[1]), op)
        expect(O[list(op[1])], nm(op[1]), op)
    elif t == 'vin':
        expect((op[1] in O, list(op[1]) in O), (True, True), op)
    elif t == 'vin?':
        expect(op[1] in O, False, op)
    elif t in ('vidx', 'vidx?'):
        expect(O.index_of(op[1]), vals.index(tuple(op[1])), op)
    elif t == 'vat':
        expect(tuple(O.at_index(op[1])), vals[op[1]], op)
    elif t == 'vkeys':
        expect([tuple(v) for v in O.keys()], vals, op)
    elif t == 'vitems':
        expect([(tuple(k), v) for k, v in O.items()], [(v, nm(v)) for v in vals], op)
    elif t == 'viter1':
        expect(tuple(next(iter(O))), vals[0], op)
    elif t == 'mutate':
        x = B[op[1]]
        x[0] = 77
        x.append(5)
    elif t == 'collection':
        x = fsc.CollectionOfStates(c)
        expect([s.initial_state for s in x], [nm(v) for v in vals], 'initial states of the default collection')
        expect([list(s.optical_components) for s in x], [[nm(v)] for v in vals], 'components of the default collection')
    elif t == 'state':
        s = fsc.State(fsc.CollectionOfStates(c, dict([])))
        s.optical_components = [(nm(vals[-1]), 0.6), (nm(vals[1]), 0.8j)]
        try:
            s.optical_components = [(nm(vals[0]) + '0', 1.0)]
        except Exception:
            pass
        else:
            raise impl.CodeFailure('invalid component name accepted')
    elif t == 'setvec':
        s = fsc.State(fsc.CollectionOfStates(c, dict([])))
        g = generic_vector(vals, 1)
        s.set_state_components_from_vector([g[v] for v in vals])
        for v in vals:
            a = s.optical_components.get(nm(v), {'amplitude': 0})['amplitude']
            if abs(a - g[v]) > 1e-6 and abs(g[v]) ** 2 > THR:
                raise impl.CodeFailure('component %s has amplitude %r, expected %r' % (nm(v), a, g[v]))
    elif t == 'evaluate':
        x = fsc.CollectionOfStates(c, dict([]))
        s = fsc.State(x)
        s.optical_components = [(nm(v), a) for v, a in list(generic_vector(vals).items())[::-1]]
        x.add_state(s, 'q')
        out = c.evaluate_circuit(x)
        m = ref.MS('x', 1.0, generic_vector(vals), ())
        want = ref.run_model([m], CIRC(N), L, THR)[0].c
        got = impl.read(out, L, left)[0].c
        if not impl.close_vec(want, got, 1e-4):
            raise impl.CodeFailure('evaluation after these look-ups gives a wrong state')
    else:
        raise Bad(op)


def CIRC(N):
    return [('mix', 0, N - 1), ('ps', 1, 0.5)]


def observe(c, L, N, left, vals, full):
    nm = lambda v: ref.name_of(v, L, left)
    ops = [('keys',), ('items',), ('values',), ('vkeys',), ('vitems',), ('len',)]
    if full:
        ops += [('collection',), ('evaluate',), ('setvec',)]
    for op in ops:
        do(c, op, L, N, left, vals)
    B, O = c.basis(), c._dict_of_optical_values
    some = vals if len(vals) <= 30 else vals[::17] + vals[-2:]
    for v in some:
        i = vals.index(v)
        do(c, ('name', nm(v)), L, N, left, vals)
        do(c, ('val', v), L, N, left, vals)
        do(c, ('idx', nm(v)), L, N, left, vals)
        do(c, ('at', i), L, N, left, vals)
    x = fsc.CollectionOfStates(c, dict([]))
    expect(list(x.generate_allowed_components_names_as_list_of_strings()), [nm(v) for v in vals], 'names generated by the collection')
    s = fsc.State(x)
    s.optical_components = [(nm(vals[-1]), 0.6), (nm(vals[1]), 0.8j)]
    vec, basis = s.translate_state_components_to_vector()
    want = np.zeros(len(vals), dtype=complex)
    want[-1], want[1] = 0.6, 0.8j
    if len(vec) != len(want) or np.abs(np.array(vec) - want).max() > 1e-9 or list(basis) != [nm(v) for v in vals]:
        raise impl.CodeFailure('vector of a state is wrong after these look-ups')


PROGS = [('wp', 0, 1, 0.4, 1.1), ('mix', 1, 0), ('shift', (1,), (1,)), ('cshift', (0,), (1,)), ('fock', 'four'), ('meas', (1,), (0,)), ('coup', (0,), (1,), 0.4),
         ('psc', 1, 0), ('wph', 1, 0, 0.4, 1.1), ('shiftd', (0,), (1,)), ('custom', 1, 0, ((0.6, -0.8), (0.8, 0.6)))]


def digits(L, N, left, rep):
    """names at the corners of the basis for every length: number of digits, position of the channels, index"""
    case = dict(L=L, N=N, channel_0_left=left)
    rep.state((L, N, left, 'digits'))
    corner = sorted({0, 1, L // 2, L - 2, L - 1} | {10 ** k + e for k in range(1, 6) for e in (-1, 0, 1) if 10 ** k + e < L})
    vals = [tuple(x if c == k else y for c in range(N)) for x in corner for y in (0, L - 1) for k in (0, N - 1)]
    with rep.guard('digits', case):
        c = impl.circuit(L, N, 0, left)
        B, O = c.basis(), c._dict_of_optical_values
        s = fsc.State(fsc.CollectionOfStates(c, dict([])))
        for v in vals:
            nm = ref.name_of(v, L, left)
            i = sum(x * L ** k for k, x in enumerate(v))
            rep.step()
            expect(O[v], nm, 'name of %r' % (v,))
            expect(tuple(B[nm]), v, 'values of %s' % nm)
            expect((nm in B, v in O), (True, True), 'membership')
            expect(nm + '0' in B, False, 'membership of a name that is too long')
            expect(nm[1:] in B, False, 'membership of a name that is too short')
            if L <= 1200:
                expect((B.index_of(nm), O.index_of(v)), (i, i), 'index')
                expect((B.at_index(i), tuple(O.at_index(i))), (nm, v), 'state at index')
            s.optical_components = [(nm, 1.0)]
            expect(list(s.optical_components), [nm], 'component of a state')
        expect(O[(L,) + (0,) * (N - 1)] if (L,) + (0,) * (N - 1) in O else None, None, 'photon number above the maximum')
        big = ''.join(str(x).zfill(len(str(L - 1))) for x in (L,) + (0,) * (N - 1))
        if len(big) == N * len(str(L - 1)):
            expect(big in B, False, 'membership of a name with a photon number above the maximum')
        # one photon in the last channel and everything else in channel 0
        x = fsc.CollectionOfStates(c, dict([]))
        y = fsc.State(x)
        y.optical_components = [(ref.name_of((L - 1,) + (0,) * (N - 2) + (1,), L, left), 1.0)]
        x.add_state(y)
        c.shift_direct([0], [2])
        c.c_shift_direct([N - 1], [0])
        out = impl.read(c.evaluate_circuit(x), L, left)
        expect([list(m.c) for m in out], [[((L - 1 + 3) % L,) + (0,) * (N - 2) + (1,)]], 'components after shift and c_shift')
        rep.trace(case)


def shards(tier):
    items = []
    conf = [(2, 2, 3), (3, 2, 2), (2, 3, 2), (4, 3, 1), (11, 2, 2)] if tier == 'quick' else [(2, 2, 3), (3, 2, 3), (2, 3, 3), (4, 3, 2), (5, 2, 2), (11, 2, 2), (12, 2, 2), (10, 2, 2), (101, 2, 1), (3, 5, 1)]
    for L, N, d in conf:
        for left in (True, False):
            n = len(lookups(L, N, left))
            for i in range(n):
                items.append(('hist', L, N, left, d, i))
    for L, N in ((2, 2), (3, 2), (4, 2), (2, 3), (3, 3), (5, 4), (11, 2), (10, 2), (13, 3), (101, 2), (2, 8)):
        for left in (True, False):
            items.append(('table', L, N, left))
    top = 1200 if tier == 'quick' else 10100
    for lo in range(2, top, 150 if tier == 'quick' else 1200):
        items.append(('digits', lo, min(top, lo + (150 if tier == 'quick' else 1200)), (2, 3)))
    for L, N in ((2, 40), (3, 25), (10, 12), (11, 12), (100, 9), (101, 9), (9999, 4), (10000, 4), (10001, 4), (10 ** 5, 2), (10 ** 5 + 1, 2)):
        items.append(('digits', L, L + 1, (N,)))
    for L, N in ((2, 2), (3, 2), (3, 3)) + (((11, 2), (4, 3)) if tier != 'quick' else ()):
        for op in PROGS:
            items.append(('conv', L, N, op, 2 if tier == 'quick' else 3 if L * N < 8 else 2))
    return items


def run(item, rep):
    if item[0] == 'hist':
        _, L, N, left, depth, first = item
        vals = ref.all_values(L, N)
        al = lookups(L, N, left)
        if L > 20:
            al = al[:8] + al[-4:]
            if first >= len(al):
                return
        for d in range(1, depth + 1):
            for rest in itertools.product(range(len(al)), repeat=d - 1):
                hist = [al[i] for i in (first,) + rest]
                case = dict(L=L, N=N, channel_0_left=left, lookups=hist)
                rep.state((L, N, left, (first,) + rest))
                rep.step(d)
                with rep.guard('lookup', case):
                    c = impl.circuit(L, N, 0, left, THR, False, CIRC(N))
                    for op in hist:
                        do(c, op, L, N, left, vals)
                    observe(c, L, N, left, vals, d <= 2 and len(vals) < 100)
                    rep.trace(case)
                if rep.nviol > 20:
                    return
    elif item[0] == 'table':
        _, L, N, left = item
        vals = ref.all_values(L, N)
        nm = lambda v: ref.name_of(v, L, left)
        case = dict(L=L, N=N, channel_0_left=left)
        for order in ('up', 'down', 'mixed'):
            rep.state((L, N, left, order))
            with rep.guard('table', case):
                c = impl.circuit(L, N, 0, left)
                B, O = c.basis(), c._dict_of_optical_values
                seq = range(len(vals)) if order == 'up' else range(len(vals) - 1, -1, -1) if order == 'down' else sorted(range(len(vals)), key=lambda i: (i * 7919) % len(vals))
                for i in seq:
                    v = vals[i]
                    rep.step()
                    expect(tuple(B[nm(v)]), v, 'basis()[%s]' % nm(v))
                    expect(nm(v) in B, True, 'in')
                    expect(B.index_of(nm(v)), i, 'index_of')
                    expect(B.at_index(i), nm(v), 'at_index')
                    expect(O[v], nm(v), 'name of values')
                expect(list(B.keys()), [nm(v) for v in vals], 'order of the basis')
                expect([tuple(k) for k in O.keys()], vals, 'order of the values')
                expect(len(set(B.keys())), L ** N, 'number of different names')
                if N > 1 and len(vals) < 700:
                    # reordering of channels: channel tensor_list[c] of the new state holds what channel c held before
                    for perm in itertools.permutations(range(N)) if N < 5 else [tuple(range(N))[::-1]]:
                        got = [O.reorder(v, list(perm)) for v in vals]
                        rep.step()
                        if sorted(got) != list(range(len(vals))):
                            raise impl.CodeFailure('reorder is not a permutation of the basis for %r' % (perm,))
                rep.trace(case)
    elif item[0] == 'digits':
        _, lo, hi, Ns = item
        for L in range(lo, hi):
            for N in Ns:
                for left in (True, False):
                    digits(L, N, left, rep)
    else:
        _, L, N, first, depth = item
        for rest in itertools.product(PROGS, repeat=depth - 1):
            ops = (first,) + rest
            case = dict(L=L, N=N, ops=ops)
            vals = ref.all_values(L, N)
            coll = [ref.MS('a', 0.5, generic_vector(vals), (0.7,)), ref.MS('b', 0.5, {vals[1]: 1.0 + 0j}, (0.2,))]
            outs = []
            rep.step(2 * len(ops))
            with rep.guard('convention', case):
                for left in (True, False):
                    rep.state((L, N, ops, left))
                    if any(o[0] == 'fock' for o in ops) and L ** N > 200:
                        continue
                    c = impl.circuit(L, N, 1, left, THR, False, ops)
                    outs.append(impl.read(impl.evaluate(c, impl.collection(c, coll, L, left)), L, left))
                    rep.trace()
                if len(outs) == 2:
                    diff = impl.same_collection(outs[0], outs[1], 2e-4)
                    if diff:
                        rep.violation('convention', case, 'channel 0 left (expected) and right differ: ' + diff)
