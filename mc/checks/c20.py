"""C20: states of a collection evolve independently; only components below the threshold are dropped."""
import itertools
import fock_state_circuit as fsc
from mc import ref, impl
from mc.common import *
from mc.checks import c07

LEVEL = 'model_checking'
RULE = ('state = (node or pair of nodes, pair or triple of input states in every order and with different identifiers, matrix mode); the result for the joint collection must be the union of the results for the states alone (multiset of states, or histograms '
        'for photon resolved collections); for every optical node and threshold the retained components are compared with the exact result')
ASSUMPTIONS = ['user functions of generic nodes treat states independently', 'states of one collection have the same kind (photon resolved or not)', 'components within 0.1% of the threshold may be kept or dropped',
               'the deprecated no-signalling-box node replaces the whole collection and is excluded']

L, N, C = c07.L, c07.N, c07.C
TH = 1e-6
SPECTRAL = {'delay', 'delayc', 'delayfull', 'delayfullc', 'pulse', 'delay-meas'}
EXCLUDE = {'nsbox', 'bridge-only', 'pr', 'cfun_inplace'}
KEEPS_ID = {'wp', 'ps', 'swap', 'opt2', 'custom', 'setc', 'psc', 'wpc'}


def menu(pr=False):
    if pr:
        return [ref.MS('a', 0.5, {(0,) * N: 1.0 + 0j}, (0, 1, 2, 0)), ref.MS('b', 0.25, {(1, 0, 0, 1): 1.0 + 0j}, (3, 0.5, 0, 1), (((1, 0, 0, 0), 0.5),)), ref.MS('c', 0.125, {(0, 2, 0, 0): 1j}, (0, 0, 0, 0)),
                ref.MS('d', 0.125, {(0, 2, 0, 2): 1j}, (1, 0, 0, 0))]
    return [ref.MS('a', 0.5, {(0, 0, 0, 0): 1.0 + 0j}, (0, 1, 2, 0)),
            ref.MS('b', 0.25, {(1, 0, 0, 0): 1.0 + 0j}, (1, 0.5, 0, 1), (((1, 0, 0, 0), 0.5),)),
            ref.MS('c', 0.5, {(1, 1, 0, 0): 0.6 + 0j, (0, 0, 0, 2): 0.8j}, (0.3, 2, 1, 0.2)),
            ref.MS('d', 0.125, {(0, 1, 0, 0): 0.8 + 0j, (0, 0, 1, 1): 0.6j}, (2, 0, 0.4, 1.5)),
            ref.MS('e', 0.25, {(2, 2, 0, 1): 0.6 + 0j, (0, 2, 1, 1): 0.8 + 0j}, (1, 1, 1, 1), (((1, 0, 0, 0), 0.5), ((2, 0, 0, 0), 0.25))),
            ref.MS('f', 1.0, {(0, 2, 0, 0): 0.6 + 0j, (1, 0, 1, 0): -0.48 + 0.64j}, (0, 0, 0, 0)),
            ref.MS('g', 0.0625, {(0, 0, 0, 1): 0.6 + 0j, (1, 1, 1, 0): 0.8 + 0j}, (0, 1, 0, 0))]


IDS = [['s', ' s', 's '], ['s-M0a', 's', 's-M0'], ['1', '0', '11'], ['zz', 'a b', '-']]


def names():
    return [n for n in c07.PROGS if n not in EXCLUDE]


def pairs_of_nodes():
    a = ['wp', 'opt2', 'fock', 'shift', 'cshiftd', 'psc', 'wpc', 'wph', 'ham', 'meas1', 'cfun', 'gen', 'swap']
    return list(itertools.product(a, repeat=2))


def shards(tier):
    items = [('node', n, full) for n in names() for full in (False, True) if not (full and n in SPECTRAL | {'pr-meas'})]
    items += [('nodes', i) for i in range(0, len(pairs_of_nodes()), 6)]
    items += [('thr', LL, NN, left, tier) for LL, NN in ((2, 2), (3, 2), (4, 2), (2, 3), (3, 3)) for left in (True, False)]
    if tier == 'thorough':
        items += [('triple', n, i) for n in names() for i in range(len(menu()))]
    return sorted(items, key=lambda i: i[1] not in SPECTRAL | {'pr-meas'} if isinstance(i[1], str) else True)


def build(progs, full, spectral):
    c = impl.circuit(L, N, C, True, TH, full)
    for n in progs:
        c07.PROGS[n](c)
    if spectral:
        c.measure_optical_to_classical([0, 1, 2, 3], [0, 1, 2, 3])
    return c


def shape_of(progs):
    if 'bridge-large' in progs:
        return 4, True
    if 'bridge-only' in progs:
        return 3, False
    return L, True


def evaluate(progs, full, spectral, coll, ids):
    c = build(progs, full, spectral)
    out = impl.evaluate(c, impl.collection(c, coll, L, True, ids))
    if spectral:
        h = {}
        for lab, lst in out.plot(histo_output_instead_of_plot=True).items():
            for e in lst:
                if e['probability'] > 1e-9:
                    h[lab, e['output_state']] = h.get((lab, e['output_state']), 0) + e['probability']
        return h, None
    ll, left = shape_of(progs)
    by = {k: impl.read_state(s, ll, left) for k, s in out.items()}
    lst = impl.read(out, ll, left)
    if len(by) != len(lst) or len(out) != len(lst):
        raise CodeFailure('items() and iteration disagree')
    return lst, by


_cache = {}


def alone(progs, full, spectral, m, i):
    k = (progs, full, i)
    if k not in _cache:
        _cache[k] = evaluate(progs, full, spectral, [m], ['s'])
    return _cache[k]


def joint(rep, key, progs, full, combo, men, ids):
    spectral = bool(set(progs) & SPECTRAL)
    coll = [men[i] for i in combo]
    case = dict(nodes=progs, full_matrix=full, states=[impl.show(m) for m in coll], identifiers=ids)
    rep.state((key, progs, full, combo, tuple(ids)))
    with rep.guard(key, case):
        single = [alone(progs, full, spectral, men[i], i) for i in combo]
        got, by = evaluate(progs, full, spectral, coll, ids)
        rep.step(len(combo))
        if spectral:
            want = {}
            for s, _ in single:
                for k, p in s.items():
                    want[k] = want.get(k, 0) + p
            bad = [(k, want.get(k, 0), got.get(k, 0)) for k in set(want) | set(got) if abs(want.get(k, 0) - got.get(k, 0)) > 1e-4]
            if bad:
                rep.violation(key, case, 'outcome, probability alone, probability together: %s' % bad[:4])
        else:
            d = impl.same_collection([m for s, _ in single for m in s if m.cum > 1e-9], [m for m in got if m.cum > 1e-9], 1e-4)
            if d:
                rep.violation(key, case, d)
            if all(p in KEEPS_ID for p in progs):
                for (s, _), i in zip(single, ids):
                    if i not in by or not impl.same_state(s[0], by[i], 1e-4):
                        rep.violation('identifier', case, 'identifier %s holds %s' % (i, impl.show(by[i]) if i in by else 'nothing'))
        rep.trace(case)


def run(item, rep):
    kind = item[0]
    if kind == 'thr':
        return thresholds(item, rep)
    if kind == 'node':
        progs, full = (item[1],), item[2]
        men = menu('pr' in item[1])
        slow = item[1] in SPECTRAL or 'pr' in item[1]
        if item[1] in c07.SLOW:
            men = men[:4]
        for n, combo in enumerate(itertools.permutations(range(len(men)), 2)):
            for ids in IDS if not slow else IDS[n % 4:n % 4 + 1]:
                joint(rep, 'pair', progs, full, combo, men, ids[:2])
        if not slow:
            for n, combo in enumerate(itertools.combinations(range(len(men)), 3)):
                joint(rep, 'triple', progs, full, combo[::-1] if n % 2 else combo, men, IDS[n % 4])
            joint(rep, 'all', progs, full, tuple(range(len(men))), men, ['i%d' % i for i in range(len(men))])
            # twice the same state under two identifiers
            for i in range(len(men)):
                joint(rep, 'same', progs, full, (i, i), men, IDS[i % 4][:2])
            # many states, identifiers with one to three digits, ascending, descending and mixed
            for n in (9, 10, 11, 12, 13, 101) if item[1] not in c07.SLOW else (11,):
                for style in range(4):
                    ids = [['%d' % k for k in range(n)], ['%d' % (n - 1 - k) for k in range(n)], ['x' + '_' * (k % 5) + '%d' % (k * 7 % n) for k in range(n)], ['%d_M0' % k if k % 2 else 'M%d' % k for k in range(n)]][style]
                    joint(rep, 'many', progs, full, tuple((k * (1 + style) + style) % len(men) for k in range(n)), men, ids)
        return
    if kind == 'nodes':
        men = menu()
        for progs in pairs_of_nodes()[item[1]:item[1] + 6]:
            for n, combo in enumerate(itertools.permutations(range(len(men)), 2)):
                joint(rep, 'two-nodes', progs, False, combo, men, IDS[n % 4][:2])
        return
    men = menu('pr' in item[1])
    if item[2] >= len(men):
        return
    for n, rest in enumerate(itertools.permutations([i for i in range(len(men)) if i != item[2]], 2)):
        joint(rep, 'triple', (item[1],), False, (item[2],) + rest, men, IDS[n % 4])


def thresholds(item, rep):
    LL, NN, left, tier = item[1:]
    vals = ref.all_values(LL, NN)
    low = [v for v in vals if sum(v) < LL]
    angles = [0.02, 0.1, 0.3, math.pi / 8, 0.7] if tier == 'quick' else [0.003, 0.01, 0.02, 0.05, 0.1, 0.2, 0.3, math.pi / 8, 0.7, 1.1, 1.5]
    inputs = [{v: 1.0 + 0j} for v in vals] + [generic_vector(low, 1)] + [{a: math.sqrt(0.97) + 0j, b: math.sqrt(0.03) * 1j} for a, b in itertools.combinations(vals[:6], 2)]
    for i, j in ordered_pairs(NN):
        for th in angles:
            for ops in ([('wp', i, j, th, math.pi)], [('wp', i, j, th, 1.0), ('ps', j, 0.4)], [('mixg', i, j, math.sin(th) ** 2)], [('wpc', i, j, 0, 1)]):
                for thr in (1e-10, 1e-4, 1e-3, 0.04):
                    coll = [ref.MS('s%d' % n, 0.5, v, (th, 1.0)) for n, v in enumerate(inputs)]
                    case = dict(L=LL, N=NN, channel_0_left=left, threshold=thr, ops=ops)
                    rep.state((LL, NN, left, repr(ops), thr))
                    with rep.guard('threshold', case):
                        c = impl.circuit(LL, NN, 2, left, thr, False, ops)
                        out = {m.init: m for m in impl.read(impl.evaluate(c, impl.collection(c, coll, LL, left)), LL, left)}
                        exact = ref.run_model(coll, ops, LL, 0.0)
                        rep.step(len(coll))
                        for m in exact:
                            if m.init not in out:
                                rep.violation('threshold', case, 'state %s was lost' % impl.show(m))
                                continue
                            g = out[m.init].c
                            for k, a in m.c.items():
                                p = abs(a) ** 2
                                if k in g:
                                    if abs(g[k] - a) > 1e-5 or p < thr * 0.999 - 1e-9:
                                        rep.violation('threshold', case, 'component %s: amplitude %r, expected %r (threshold %g)' % (k, g[k], a, thr))
                                elif p > thr * 1.001 + 1e-9:
                                    rep.violation('threshold', case, 'component %s with probability %g was dropped (threshold %g) from %s' % (k, p, thr, impl.show(coll[int(m.init[1:])])))
                            if any(k not in m.c and abs(a) > 1e-5 for k, a in g.items()):
                                rep.violation('threshold', case, 'unexpected component in %s' % impl.show(out[m.init]))
                        rep.trace(case)
