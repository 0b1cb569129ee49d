"""C16: Popescu-Rohrlich pairs: statistics of every measurement setting, non-signalling, agreement with entanglement at quantumness 1."""
import itertools
import fock_state_circuit as fsc
from mc import ref, impl
from mc.common import *

LEVEL = 'model_checking'
RULE = ('state = (pairs with channel assignment and quantumness, settings of both sides, input collection, convention, order of the nodes, measured channels); every combination of the grids is executed and the measured collection is '
        'compared with the documented correlation function; totals, marginals under a change of the remote setting and, at quantumness 1, an ordinary entangled pair sent through the same circuit are compared as well')
ASSUMPTIONS = ['photons of different pairs or of the two sides are not mixed (documented restriction)', 'probabilities within the recorded measurement history are not compared (conditional or overall is not documented)',
               'settings from a finite grid of wave plates, one or two plates per photon']

PI = math.pi
R2 = 1 / math.sqrt(2)


def side_matrix(plates):
    M = np.identity(2, dtype=complex)
    for th, ph in plates:
        M = M @ np.array(ref.wp(th, ph))
    return M


def stokes(v):
    h, w = v
    x = h.conjugate() * w
    return np.array([2 * x.imag, 2 * x.real, abs(h) ** 2 - abs(w) ** 2])


def correlation(a, b, q):
    """a, b: amplitudes of (h, v) of the created photons for the detectors of the two sides"""
    sa, sb = stokes(a), stokes(b.conjugate())
    c = float(sa @ sb) / math.sqrt(float(sa @ sa) * float(sb @ sb))
    if abs(c) < 1e-6:
        return 0.5
    return (math.copysign(abs(c) ** (1 / q), c) + 1) / 2


def pair_distribution(A, B, q):
    """probabilities of (detector of A, detector of B), 0 = h, 1 = v"""
    MA, MB = side_matrix(A), side_matrix(B)
    return {(i, j): 0.5 * correlation(MA[:, i], MB[:, j], q) for i in (0, 1) for j in (0, 1)}


def place(vals, pair, i, j):
    vals = list(vals)
    for ch, n in zip(pair, (1 - i, i, 1 - j, j)):
        vals[ch] = n
    return tuple(vals)


def oracle(coll, pairs, settings, spect, L, oc, cc, preset=None):
    """settings: per pair (plates A, plates B); spect: optical ops on the spectator channels"""
    res = []
    for m in coll:
        used = {c for p, q in pairs for c in p}
        base = {}
        for k, a in m.c.items():
            kk = tuple(0 if c in used else n for c, n in enumerate(k))
            base[kk] = base.get(kk, 0) + a
        base = ref.run_model([m.copy(c=base)], spect, L, 1e-12)[0].c if spect else base
        dist = [({k: abs(a) ** 2 for k, a in base.items()})]
        outs = {k: abs(a) ** 2 for k, a in base.items()}
        for (p, q), (A, B) in zip(pairs, settings):
            pd = pair_distribution(A, B, q)
            outs = {place(k, p, i, j): w * pd[i, j] for k, w in outs.items() for i in (0, 1) for j in (0, 1)}
        for k, w in outs.items():
            cl = list(preset) if preset is not None else list(m.cl)
            for ch, o in zip(cc, oc):
                cl[ch] = k[o]
            res.append(ref.MS(m.init, m.cum * w, {k: 1.0 + 0j}, tuple(cl), m.hist + ((tuple(cl), 0.0),)))
    return res


def strip(coll):
    """drop outcomes without probability and the probabilities inside the history"""
    return [m.copy(hist=tuple((h[0], 0.0) for h in m.hist)) for m in coll if m.cum > 1e-7]


def phaseless(coll):
    return [m.copy(c={k: abs(a) + 0j for k, a in m.c.items()}) for m in coll]


def merged(coll):
    """one state per (label, outcome): several input states may give the same one"""
    d = {}
    for m in coll:
        k = (m.init, tuple(m.c), m.cl, m.hist)
        if k in d:
            d[k].cum += m.cum
        else:
            d[k] = m.copy()
    return list(d.values())


def program(L, N, C, left, pairs, settings, spect=(), order=0, pre=(), setc=None, deprecated=False, ctrl=False):
    c = impl.circuit(L, N, C, left, THR)
    for op in pre:
        impl.add(c, op, L, N)
    boxes = [{'channels_Ah_Av_Bh_Bv': list(p), 'quantumness_indicator': q} for p, q in pairs]
    if pairs and deprecated:
        c.create_no_signalling_boxes(ns_boxes=boxes)
    elif pairs:
        c.popescu_rohrlich_correlation_gate(pr_correlation=boxes)
    local_nodes(c, pairs, settings, spect, order, L, N, ctrl)
    if setc is not None:
        c.set_classical_channels(list(setc), list(range(len(setc))))
    return c


def local_nodes(c, pairs, settings, spect, order, L, N, ctrl=False):
    todo = []
    for (p, q), (A, B) in zip(pairs, settings):
        todo.append([('wp', p[0], p[1], th, ph) for th, ph in A])
        todo.append([('wp', p[2], p[3], th, ph) for th, ph in B])
    todo.append(list(spect))
    if order % 2:
        todo = todo[::-1]
    if order >= 2:   # interleaved
        todo = [[x for x in col if x is not None] for col in itertools.zip_longest(*todo)]
    for ops in todo:
        for op in ops:
            if ctrl and op[0] == 'wp':
                c.set_classical_channels([op[3], op[4]], [0, 1])
                impl.add(c, ('wpc', op[1], op[2], 0, 1), L, N)
            else:
                impl.add(c, op, L, N)


def evaluate(c, coll, oc, cc, L, left):
    c.measure_optical_to_classical(list(oc), list(cc))
    return strip(impl.read(impl.evaluate(c, impl.collection(c, coll, L, left)), L, left))


THETA = [k * PI / 16 for k in (0, 1, 2, 3, 4, 6, 8, 11)]
PHI = [PI, PI / 2, 0.9]
ONE = {'quick': [[(t, p)] for t in THETA for p in PHI], 'thorough': [[(t, p)] for t in [k * PI / 24 for k in range(0, 24, 2)] + [0.1, PI / 16] for p in PHI + [-PI / 2, 4.0]]}
TWO = [[(0.3, PI), (0.5, PI / 2)], [(PI / 4, PI / 2), (PI / 8, PI)], [], [(0.0, PI), (0.0, PI / 2)], [(PI / 8, PI)], [(1.2, 0.7), (-0.4, 2.0)]]
QS = [1, 1.5, 2, 5, 1000]


def shards(tier):
    n = len(ONE[tier])
    items = [('grid', tier, a, q, left) for a in range(n) for q in QS for left in ((True,) if q != 1 else (True, False))]
    items += [('layout', tier, i) for i in range(24)]
    items += [('six', tier, i) for i in range(8)]
    items += [('two', tier, i, q1, q2) for i in range(len(TWO)) for q1, q2 in ((1, 1), (1, 5), (1000, 2), (3, 1000))]
    items = [('inputs', tier, i) for i in range(4)] + items
    items += [('chain', tier, i) for i in range(len(TWO))] + [('legacy', tier, i) for i in range(len(TWO))]
    items += [('entangling', tier, i) for i in range(5)] + [('small', tier, i) for i in range(len(SMALL))] + [('unravelled', tier, i) for i in range(len(PHOTONS))]
    return items


def compare(rep, key, case, want, got, coll):
    d = impl.same_collection(merged(strip(want)), merged(got), 2e-3)
    if d:
        rep.violation(key, case, d)
    tot = {}
    for m in coll:
        tot[m.init] = tot.get(m.init, 0) + m.cum
    for m in got:
        tot[m.init] = tot.get(m.init, 0) - m.cum
        if m.cum < -1e-9:
            rep.violation('negative', case, impl.show(m))
    if any(abs(x) > 2e-3 for x in tot.values()):
        rep.violation('total', case, 'the outcome probabilities miss the weight of the input by %s' % tot)


def ghost(coll, p, N):
    """ordinary entangled pair (hh + vv) put into the pair channels of every state"""
    res = []
    for m in coll:
        c = {}
        for k, a in m.c.items():
            for i in (0, 1):
                kk = place(k, p, i, i)
                c[kk] = c.get(kk, 0) + a / math.sqrt(2)
        res.append(m.copy(c=c))
    return res


def chain(rep, i, tier):
    """histories: the program is split over circuits that are run one after another, bridged or joined to a compound circuit; nodes and a second measurement follow the first"""
    L, N, C = 2, 5, 6
    for (pair, spec), j, q, left in itertools.product((((0, 1, 2, 3), 4), ((3, 0, 4, 2), 1)), range(len(TWO)), (1, 5), (True, False)):
        if tier == 'quick' and (i + j + q + left) % 2:
            continue
        A, B = TWO[i], TWO[j]
        coll = [ref.MS('a', 0.25, {tuple(1 if c == spec else 0 for c in range(N)): 1.0 + 0j}, (2,) * C), ref.MS('b', 0.5, {(0,) * N: 1.0 + 0j}, (3,) * C, (((1,) * C, 0.5),))]
        oc, cc = [0, 1, 2, 3, 4], [4, 2, 0, 1, 3]
        post = [('mix', pair[0], pair[2]), ('setc', (7,), (5,)), ('meas', (pair[0], pair[2]), (0, 1))]
        want = ref.run_model(oracle(coll, [(pair, q)], [(A, B)], [], L, oc, cc), post, L, THR)
        steps = [lambda c: c.popescu_rohrlich_correlation_gate(pr_correlation=[{'channels_Ah_Av_Bh_Bv': list(pair), 'quantumness_indicator': q}])]
        steps += [lambda c, o=('wp', pair[0], pair[1], th, ph): impl.add(c, o, L, N) for th, ph in A] + [lambda c, o=('wp', pair[2], pair[3], th, ph): impl.add(c, o, L, N) for th, ph in B]
        steps += [lambda c: c.measure_optical_to_classical(list(oc), list(cc))] + [lambda c, o=o: impl.add(c, o, L, N) for o in post]
        cuts = [()] + [(k,) for k in range(1, len(steps))] + [(k, k + 1) for k in range(1, len(steps) - 1)]
        for cut, mode in itertools.product(cuts, ('manual', 'bridge', 'compound')):
            if not cut and mode != 'manual':
                continue
            case = dict(pair=pair, q=q, A=A, B=B, channel_0_left=left, cut_before_steps=cut, joined_by=mode, program='gate, plates of A, plates of B, measurement, %s' % post)
            rep.state(('chain', pair, i, j, q, left, cut, mode))
            with rep.guard('chain', case):
                parts = []
                for a, b in zip((0,) + cut, cut + (len(steps),)):
                    c = impl.circuit(L, N, C, left, THR, name='part %d' % len(parts))
                    for f in steps[a:b]:
                        f(c)
                    parts.append(c)
                x = impl.collection(parts[0], coll, L, left)
                if mode == 'manual':
                    for c in parts:
                        x = c.evaluate_circuit(x)
                elif mode == 'bridge':
                    for c, d in zip(parts[:-1], parts[1:]):
                        c.bridge(next_fock_state_circuit=d)
                    x = parts[0].evaluate_circuit(x)
                else:
                    x = fsc.CompoundFockStateCircuit(list_of_circuits=parts).evaluate_circuit(x)
                got = strip(impl.read(x, L, left))
                d = impl.same_collection(merged(strip(phaseless(want))), merged(phaseless(got)), 2e-3)
                if d:
                    rep.violation('chain', case, d)
                rep.step(len(steps))
                rep.trace(case)


def legacy(rep, i, tier):
    """the functions kept for older programs: prepare, run, measure, correlate"""
    for (L, N, pairs), j, left in itertools.product(((2, 4, [((0, 1, 2, 3), 1)]), (3, 4, [((2, 0, 3, 1), 5)]), (2, 8, [((0, 1, 2, 3), 1), ((7, 5, 6, 4), 5)])), range(len(TWO)), (True, False)):
        if tier == 'quick' and N == 8 and j % 3:
            continue
        for weight, label in ((1.0, 'x'), (0.25, 'y')):
            settings = [(TWO[(i + k) % len(TWO)], TWO[(j + 2 * k) % len(TWO)]) for k in range(len(pairs))]
            case = dict(L=L, pairs=pairs, settings=settings, weight=weight, channel_0_left=left)
            rep.state(('legacy', L, N, i, j, left, weight))
            with rep.guard('legacy', case):
                c = impl.circuit(L, N, N, left, THR)
                local_nodes(c, pairs, settings, (), 0, L, N)
                template = impl.set_state(fsc.CollectionOfStates(c, dict([])), ref.MS(label, weight, {(0,) * N: 1.0 + 0j}, (0,) * N), L, left)
                boxes = [{'channels_Ah_Av_Bh_Bv': list(p), 'quantumness_indicator': q} for p, q in pairs]
                out = c.evaluate_circuit(fsc.create_collection_with_NS_boxes(template, boxes))
                outcomes = fsc.measure_collection_with_NS_boxes(out)
                want = {}
                for m in oracle([ref.MS(label, weight, {(0,) * N: 1.0 + 0j}, (0,) * N)], pairs, settings, [], L, range(N), range(N)):
                    want[m.cl] = want.get(m.cl, 0) + m.cum
                got = {}
                for o in outcomes:
                    k = ref.values_of(o['output_state'], L, left)
                    if k in got:
                        rep.violation('legacy', case, 'outcome %s twice' % (k,))
                    got[k] = o['probability']
                bad = [k for k in set(want) | set(got) if abs(want.get(k, 0) - got.get(k, 0)) > 2e-3]
                if bad:
                    rep.violation('legacy', case, 'outcome %s: probability %s, expected %s' % (bad[0], got.get(bad[0], 0), want.get(bad[0], 0)))
                combis = list(itertools.product(range(N), repeat=2))
                cor = fsc.correlations_from_measured_collection_with_NS_boxes(outcomes, combis, template)
                tot = sum(want.values())
                exp = [sum(w * (1 if k[a] == k[b] else -1) for k, w in want.items()) / tot for a, b in combis]
                if len(cor) != len(exp) or any(abs(x - y) > 4e-3 for x, y in zip(cor, exp)):
                    rep.violation('legacy', case, 'correlations %s expected %s' % (cor, exp))
                rep.step(2)
                rep.trace(case)


def unit(v):
    v = np.array(v, dtype=complex)
    return v / np.linalg.norm(v)


def residue(m):
    """weight outside the largest product term of a two-party tensor"""
    sv = np.linalg.svd(m, compute_uv=False)
    return float(math.sqrt(max(0.0, 1 - sv[0] ** 2 / float(np.sum(sv ** 2)))))


def unravel(col, n):
    """col: amplitudes over the configurations (pairs of (A, B)); (distance from a product, photon amplitudes)"""
    T = col.reshape((4,) * n)
    worst, photons = 0.0, []
    for b in range(n):
        M = np.moveaxis(T, b, 0).reshape(4, -1)
        if n > 1:
            worst = max(worst, residue(M))
        u = np.linalg.svd(M)[0][:, 0]
        P = u.reshape(2, 2)
        worst = max(worst, residue(P))
        a, _, b_ = np.linalg.svd(P)
        photons.append((a[:, 0], b_[0, :]))
    return worst, photons


def cz_matrix(L, N, chans, angle):
    vals = ref.all_values(L, N)
    return np.diag([cmath.exp(1j * angle) if all(v[c] for c in chans) else 1.0 + 0j for v in vals])


def entangling(rep, first, tier):
    """a controlled phase between photons: the outcomes either still determine the polarization of every photon (then the statistics follow from it) or the measurement has to be refused"""
    single = [[], [(PI / 8, PI)], [(0.3, PI)], [(PI / 16, PI / 2)], [(0.7, 1.1), (0.2, PI)]]
    layouts = [(1, 4, [(0, 1, 2, 3)]), (1, 4, [(2, 0, 3, 1)]), (2, 8, [(0, 1, 2, 3), (4, 5, 6, 7)]), (2, 8, [(7, 2, 4, 0), (1, 3, 6, 5)])]
    for (n, N, chans), second, angle, q, left in itertools.product(layouts, range(len(single)), (PI, 0.9, 0.0), (1, 5), (True, False)):
        if n == 2 and ((second + q) % 2 or left != (chans[0][0] == 0)) and tier == 'quick':
            continue
        photons = [x for p in chans for x in ((p[0], p[1]), (p[2], p[3]))]
        pre = [single[(first + k * second) % len(single)] for k in range(2 * n)]
        post = [single[(second + 2 * k + first * (k % 2)) % len(single)] for k in range(2 * n)]
        targets = [(photons[x][i], photons[y][j], (x, i, y, j)) for x, y in itertools.combinations(range(2 * n), 2) for i in (0, 1) for j in (0, 1) if tier == 'thorough' or (i, j) in ((1, 1), (0, 1))]
        for ca, cb, (x, i, y, j) in targets:
            case = dict(pairs=chans, q=q, plates_before=pre, plates_after=post, phase=angle, phase_if_photons_in=(ca, cb), channel_0_left=left)
            rep.state(('entangling', first, second, n, chans[0], angle, q, left, ca, cb))
            W = [side_matrix(p) for p in pre]
            V = [side_matrix(p) for p in post]
            A, B = W[0], V[0]
            for k in range(1, 2 * n):
                A, B = np.kron(A, W[k]), np.kron(B, V[k])
            D = np.ones((2,) * (2 * n), dtype=complex)
            sel = [slice(None)] * (2 * n)
            sel[x], sel[y] = i, j
            D[tuple(sel)] = cmath.exp(1j * angle)
            # rows: polarizations of the created photons, columns: detectors
            M = A @ np.diag(D.reshape(-1)) @ B
            want, dist = {}, 0.0
            for o, det in enumerate(itertools.product((0, 1), repeat=2 * n)):
                d, ph = unravel(M[:, o], n)
                dist = max(dist, d)
                vals = [0] * N
                for k, (ch, dd) in enumerate(zip(photons, det)):
                    vals[ch[dd]] = 1
                w = 0.5 ** n * float(np.sum(np.abs(M[:, o]) ** 2))
                for a, b in ph:
                    w *= correlation(a, b, q)
                want[tuple(vals)] = w
            with rep.guard('entangling', case):
                c = impl.circuit(2, N, N, left, THR)
                c.popescu_rohrlich_correlation_gate(pr_correlation=[{'channels_Ah_Av_Bh_Bv': list(p), 'quantumness_indicator': q} for p in chans])
                for ch, pl in zip(photons, pre):
                    for th, ph in pl:
                        impl.add(c, ('wp', ch[0], ch[1], th, ph), 2, N)
                c.custom_fock_state_node(cz_matrix(2, N, (ca, cb), angle))
                for ch, pl in zip(photons, post):
                    for th, ph in pl:
                        impl.add(c, ('wp', ch[0], ch[1], th, ph), 2, N)
                c.measure_optical_to_classical(list(range(N)), list(range(N)))
                inp = impl.collection(c, [ref.MS('x', 1.0, {(0,) * N: 1.0 + 0j}, (0,) * N)], 2, left)
                refused = None
                try:
                    got = c.evaluate_circuit(inp)
                except Exception as e:
                    refused = str(e)
                rep.step(1)
                rep.trace(case)
                if dist > 0.05:
                    if refused is None:
                        rep.violation('entangling', case, 'photons are entangled (weight %.3f outside a product) but probabilities are returned: sum %.4f' % (dist, sum(s.cumulative_probability for s in got)))
                elif dist < 1e-6:
                    if refused is not None:
                        rep.violation('refused', case, 'every outcome determines the polarization of each photon but the measurement is refused: ' + refused)
                        continue
                    have = {}
                    for m in impl.read(got, 2, left):
                        have[m.cl] = have.get(m.cl, 0) + m.cum
                    bad = [k for k in set(want) | set(have) if abs(want.get(k, 0) - have.get(k, 0)) > 2e-3]
                    if bad:
                        rep.violation('entangling', case, 'outcome %s: probability %s, expected %s' % (bad[0], have.get(bad[0], 0), want.get(bad[0], 0)))


SMALL = [0.0, 1e-5, 0.001, 0.006, 0.01, 0.03, 0.1, 0.3]
THRESHOLDS = [0, 1e-16, 1e-12, 1e-8, 1e-4]


def small(rep, first, tier):
    """settings that leave (almost) empty outcomes, for every threshold below which a circuit sets a probability to zero: local settings never entangle"""
    grid = SMALL if tier == 'thorough' else SMALL[::2] + [0.01]
    jobs = [(1, 4, [(0, 1, 2, 3)], [(SMALL[first], b)]) for b in SMALL]
    jobs += [(1, 5, [(4, 0, 3, 1)], [(SMALL[first], b)]) for b in SMALL]
    jobs += [(2, 8, [(0, 1, 2, 3), (4, 5, 6, 7)], [(SMALL[first], b), (x, y)]) for b, x, y in itertools.product(grid, repeat=3)]
    for n, (k, N, chans, angles) in enumerate(jobs):
        for t, thr in enumerate(THRESHOLDS):
            if k == 2 and tier == 'quick' and (n + t) % 5:
                continue
            for q, phase in ((1, PI), (5, 1.3)):
                if k == 2 and (n + t) % 2 != (q == 1):
                    continue
                left = (n + t) % 2 == 0
                settings = [([(a, phase)], [(b, phase)]) for a, b in angles]
                case = dict(pairs=chans, q=q, settings=settings, threshold=thr, channel_0_left=left)
                rep.state(('small', first, n, thr, q))
                with rep.guard('small', case):
                    c = impl.circuit(2, N, N, left, thr)
                    c.popescu_rohrlich_correlation_gate(pr_correlation=[{'channels_Ah_Av_Bh_Bv': list(p), 'quantumness_indicator': q} for p in chans])
                    local_nodes(c, [(p, q) for p in chans], settings, (), 0, 2, N)
                    c.measure_optical_to_classical(list(range(N)), list(range(N)))
                    vals = tuple(1 if ch == 2 and N == 5 else 0 for ch in range(N))
                    have = {}
                    for m in impl.read(c.evaluate_circuit(impl.collection(c, [ref.MS('x', 1.0, {vals: 1.0 + 0j}, (0,) * N)], 2, left)), 2, left):
                        have[m.cl] = have.get(m.cl, 0) + m.cum
                    want = {vals: 1.0}
                    for p, (A, B) in zip(chans, settings):
                        pd = pair_distribution(A, B, q)
                        want = {place(v, p, i, j): w * pd[i, j] for v, w in want.items() for i in (0, 1) for j in (0, 1)}
                    tol = 2e-3 if thr < 1e-6 else 0.05
                    bad = [v for v in set(want) | set(have) if abs(want.get(v, 0) - have.get(v, 0)) > tol]
                    if bad:
                        rep.violation('small', case, 'outcome %s: probability %s, expected %s' % (bad[0], have.get(bad[0], 0), want.get(bad[0], 0)))
                    rep.step(1)
                    rep.trace(case)


PHOTONS = [(1, 0), (0, 1), (0.6, 0.8), (0.6, 0.8j), (-0.8j, 0.6), (R2, R2 * cmath.exp(0.7j)), (0.1, 0.995), (1e-3, 1), (1, -1e-2j)]


def unravelled(rep, first, tier):
    """the class that finds the photons of a product state: amplitudes, Stokes vectors, probability, and the two tests for entanglement"""
    try:
        from fock_state_circuit.popescu_rohrlich_correlation_functionality.popescu_rohrlich_photon_pair_amplitude_functionality import PopescuRohrlichPhotonPairAmplitudes as Pairs
    except ImportError:
        return
    m = len(PHOTONS)
    some = PHOTONS if tier == 'thorough' else PHOTONS[2::3]
    jobs = [[PHOTONS[first], b] for b in PHOTONS] + [[PHOTONS[first], b, c, d] for b, c, d in itertools.product(some if tier == 'quick' else PHOTONS[1::2], some, PHOTONS[::3])]
    jobs += [[PHOTONS[first], PHOTONS[b], PHOTONS[(b + first) % m], PHOTONS[c], PHOTONS[(c + 3) % m], PHOTONS[(b * c) % m]] for b, c in itertools.product(range(m), repeat=2)]
    for n, photons in enumerate(jobs):
        k = len(photons) // 2
        ph = [unit(p) for p in photons]
        pairs = [np.kron(ph[2 * b], ph[2 * b + 1]) for b in range(k)]
        perp = [np.array([-x[1].conjugate(), x[0].conjugate()]) for x in ph]

        def total(vs):
            t = vs[0]
            for v in vs[1:]:
                t = np.kron(t, v)
            return t

        def table(t, skip):
            labels = [''.join(map(str, l)) for l in itertools.product(range(4), repeat=k)]
            return {l: a for l, a in zip(labels, t) if a != 0 or not skip}
        f = [1.0, 0.3j, 0.5 * cmath.exp(2j), -0.01][n % 4]
        for skip in (False, True):
            case = dict(photons=photons, factor=f, zero_entries_left_out=skip)
            rep.state(('class', first, n, skip))
            with rep.guard('class', case):
                x = Pairs(table(f * total(pairs), skip))
                if not x.is_dict_factorable() or not x.are_all_photon_pairs_factorable():
                    rep.violation('class', case, 'product state reported as entangled')
                if abs(x.overall_probability - abs(f) ** 2) > 1e-6:
                    rep.violation('class', case, 'probability %s' % x.overall_probability)
                if [tuple(p) for p in x.photon_indices_per_pair] != [(2 * b, 2 * b + 1) for b in range(k)] or len(x.photon_amplitudes) != 2 * k:
                    rep.violation('class', case, 'photons of the pairs: %s' % (x.photon_indices_per_pair,))
                for p, (v, got, st) in enumerate(zip(ph, x.photon_amplitudes, x.stokes_vectors)):
                    g = np.array(got, dtype=complex)
                    if abs(abs(np.vdot(v, g)) - 1) > 1e-6 or abs(np.linalg.norm(g) - 1) > 1e-6:
                        rep.violation('class', case, 'photon %d has amplitudes %s' % (p, got))
                    z = v[0] * v[1].conjugate()
                    if max(abs(a - b) for a, b in zip(st[0], (2 * z.imag, 2 * z.real, abs(v[0]) ** 2 - abs(v[1]) ** 2))) > 1e-5 or abs(st[1] - 1) > 1e-5:
                        rep.violation('class', case, 'photon %d has Stokes vector %s' % (p, st))
                for b, (v, got) in enumerate(zip(pairs, x.reproduced_vectors)):
                    if abs(abs(np.vdot(v, np.array(got) / np.linalg.norm(got))) - 1) > 1e-6:
                        rep.violation('class', case, 'pair %d has amplitudes %s' % (b, got))
                back = x.dict_from_reproduced_vectors()
                w, g = table(total(pairs), False), np.array([back.get(l, 0) for l in table(total(pairs), False)])
                if set(back) - set(w) or abs(abs(np.vdot(total(pairs), g)) / np.linalg.norm(g) - 1) > 1e-6:
                    rep.violation('class', case, 'the product of the pairs is not the original: %s' % back)
                # entangled variants: inside one pair, between two pairs
                for e, b in itertools.product((0.1, PI / 4), range(k)):
                    vs = list(pairs)
                    vs[b] = math.cos(e) * pairs[b] + math.sin(e) * np.kron(perp[2 * b], perp[2 * b + 1])
                    y = Pairs(table(f * total(vs), skip))
                    sub = dict(case, entangled_inside_pair=b, angle=e)
                    if not y.is_dict_factorable():
                        rep.violation('class', sub, 'product of pairs reported as entangled')
                    if y.are_all_photon_pairs_factorable():
                        rep.violation('class', sub, 'photons of a pair are entangled, not reported')
                    if not y.are_all_photon_pairs_factorable(threshold=3e6) or not y.is_dict_factorable(threshold=3e6) or y.are_all_photon_pairs_factorable(threshold=1e3):
                        rep.violation('class', sub, 'threshold not respected')
                    if k > 1:
                        o = (b + 1) % k
                        other = np.kron(perp[2 * o], ph[2 * o + 1])
                        here = np.kron(perp[2 * b], ph[2 * b + 1])
                        vs2 = list(pairs)
                        vs2[b], vs2[o] = here, other
                        y = Pairs(table(f * (math.cos(e) * total(pairs) + math.sin(e) * total(vs2)), skip))
                        if y.is_dict_factorable() or y.is_dict_factorable(threshold=1e3) or not y.is_dict_factorable(threshold=3e6):
                            rep.violation('class', dict(case, entangled_between=(b, o), angle=e), 'entanglement between pairs: is_dict_factorable() %s, with threshold 1e3 %s, with 3e6 %s' % (y.is_dict_factorable(), y.is_dict_factorable(threshold=1e3), y.is_dict_factorable(threshold=3e6)))
                    rep.step(1)
                rep.trace(case)


def run(item, rep):
    kind, tier = item[:2]
    if kind in ('chain', 'legacy', 'entangling', 'small', 'unravelled'):
        return globals()[kind](rep, item[2], tier)
    if kind == 'grid':
        a, q, left = item[2:]
        L, N, C = 2, 4, 4
        A = ONE[tier][a]
        pair = (0, 1, 2, 3)
        coll = [ref.MS('x', 1.0, {(0, 0, 0, 0): 1.0 + 0j}, (0, 0, 0, 0))]
        marg = {0: [], 1: []}
        for b, B in enumerate(ONE[tier]):
            case = dict(pair=pair, q=q, A=A, B=B, channel_0_left=left)
            rep.state(('grid', a, b, q, left))
            with rep.guard('grid', case):
                got = evaluate(program(L, N, C, left, [(pair, q)], [(A, B)], order=b % 2), coll, range(4), range(4), L, left)
                compare(rep, 'grid', case, oracle(coll, [(pair, q)], [(A, B)], [], L, range(4), range(4)), got, coll)
                # marginal of A: the setting of B must not matter
                marg[0].append(sum(m.cum for m in got if m.cl[0] == 1))
                if q == 1:
                    c = impl.circuit(L, N, C, left, THR)
                    local_nodes(c, [(pair, q)], [(A, B)], [], 0, L, N)
                    quantum = evaluate(c, ghost(coll, pair, N), range(4), range(4), L, left)
                    d = impl.same_collection(merged(phaseless(quantum)), merged(got), 2e-3)
                    if d:
                        rep.violation('quantumness-1', case, 'entangled pair in the same circuit: ' + d)
                # the same pair seen from the other side
                got2 = evaluate(program(L, N, C, left, [(pair, q)], [(B, A)]), coll, range(4), range(4), L, left)
                marg[1].append(sum(m.cum for m in got2 if m.cl[2] == 1))
                rep.step(2)
                rep.trace(case)
        for s in marg:
            if marg[s] and max(marg[s]) - min(marg[s]) > 2e-3:
                rep.violation('signalling', dict(pair=pair, q=q, local_setting=A, channel_0_left=left, side='AB'[s]), 'marginals over the remote settings: %s' % [round(x, 4) for x in marg[s]])
        return
    if kind == 'layout':
        pair = list(itertools.permutations(range(4)))[item[2]]
        L, N, C = 3, 4, 5
        coll = [ref.MS('x', 0.5, {(0, 1, 0, 2): 1.0 + 0j}, (7, 7, 7, 7, 7))]
        for (A, B), q, left, order in itertools.product(itertools.permutations(TWO, 2), (1, 5), (True, False), (0, 1, 2)):
            oc = [0, 1, 2, 3] if order != 1 else [3, 1, 0, 2]
            cc = [0, 1, 2, 3] if order != 2 else [4, 0, 2, 1]
            case = dict(pair=pair, q=q, A=A, B=B, channel_0_left=left, order=order, measured=oc, written=cc)
            rep.state(('layout', pair, repr((A, B)), q, left, order))
            with rep.guard('layout', case):
                # photons that were in the channels of the pair before are replaced
                got = evaluate(program(L, N, C, left, [(pair, q)], [(A, B)], order=order), coll, oc, cc, L, left)
                compare(rep, 'layout', case, oracle(coll, [(pair, q)], [(A, B)], [], L, oc, cc), got, coll)
                rep.step(1)
                rep.trace(case)
        return
    if kind == 'six':
        L, N, C, left = 2, 6, 7, item[2] % 2 == 0
        pair = [(0, 1, 2, 3), (5, 4, 1, 0), (2, 5, 0, 3), (4, 2, 3, 1)][item[2] // 2]
        s0, s1 = [c for c in range(6) if c not in pair]
        empty = [0] * 6

        def st(*occ):
            v = list(empty)
            for c in occ:
                v[c] = 1
            return tuple(v)
        inputs = [[ref.MS('x', 1.0, {st(s0): 1.0 + 0j}, (3,) * C)],
                  [ref.MS('x', 1.0, {st(s0): 0.6 + 0j, st(s1): 0.8j}, (3,) * C)],
                  [ref.MS('a', 0.25, {st(s0): 0.6 + 0j, st(): 0.8j}, (3,) * C, (((1,) * C, 0.5),)), ref.MS('b', 0.5, {st(s1): 1.0 + 0j}, (4,) * C)]]
        for coll, (A, B), q, order in itertools.product(inputs, list(itertools.permutations(TWO[:5], 2))[::3], (1, 1000), range(4)):
            spect = [('wp', s0, s1, 0.4, 1.1), ('wp', s1, s0, 1.3, 0.5)][:order]
            oc, cc = ([0, 1, 2, 3, 4, 5], [0, 1, 2, 3, 4, 5]) if order % 2 else ([5, 3, 1], [0, 6, 2])
            setc = [9, 8] if order >= 2 else None
            case = dict(pair=pair, q=q, A=A, B=B, channel_0_left=left, order=order, spectators=spect, input=[impl.show(m) for m in coll], measured=oc, written=cc)
            rep.state(('six', pair, left, repr((A, B, q, order, [m.key() for m in coll]))))
            with rep.guard('spectators', case):
                got = evaluate(program(L, N, C, left, [(pair, q)], [(A, B)], spect, order, setc=setc), coll, oc, cc, L, left)
                want = []
                for m in coll:
                    want += oracle([m], [(pair, q)], [(A, B)], spect, L, oc, cc, preset=None if setc is None else list(setc) + list(m.cl[2:]))
                compare(rep, 'spectators', case, want, got, coll)
                if q == 1:
                    c = impl.circuit(L, N, C, left, THR)
                    local_nodes(c, [(pair, q)], [(A, B)], spect, 0, L, N)
                    if setc is not None:
                        c.set_classical_channels(setc, [0, 1])
                    # an ordinary measurement of all channels gives the same statistics
                    c.measure_optical_to_classical(oc, cc)
                    quantum = impl.read(impl.evaluate(c, impl.collection(c, ghost(coll, pair, N), L, left)), L, left)
                    tot = {}
                    for sgn, cs in ((1, quantum), (-1, got)):
                        for m in cs:
                            k = (m.init, m.cl)
                            tot[k] = tot.get(k, 0) + sgn * m.cum
                    if any(abs(x) > 2e-3 for x in tot.values()):
                        rep.violation('quantumness-1', case, 'statistics of the classical channels differ from an entangled pair: %s' % {k: round(v, 4) for k, v in tot.items() if abs(v) > 2e-3})
                rep.step(len(coll))
                rep.trace(case)
        return
    if kind == 'two':
        i, q1, q2 = item[2:]
        L, N, C = 2, 8, 8
        coll = [ref.MS('x', 0.5, {(0,) * 8: 1.0 + 0j}, (0,) * 8)]
        lay = [((0, 1, 2, 3), (4, 5, 6, 7)), ((7, 2, 4, 0), (1, 3, 6, 5))]
        for j, (k, l) in itertools.product(range(2), itertools.product(range(len(TWO) if tier == 'thorough' else 3), repeat=2)):
            p1, p2 = lay[j]
            pairs = [(p1, q1), (p2, q2)]
            settings = [(TWO[i], TWO[k]), (TWO[l], TWO[(i + k) % len(TWO)])]
            left = (i + k + l) % 2 == 0
            case = dict(pairs=pairs, settings=settings, channel_0_left=left)
            rep.state(('two', i, j, k, l, q1, q2))
            with rep.guard('two-pairs', case):
                got = evaluate(program(L, N, C, left, pairs, settings, order=(k + l) % 4), coll, range(8), range(8), L, left)
                compare(rep, 'two-pairs', case, oracle(coll, pairs, settings, [], L, range(8), range(8)), got, coll)
                rep.step(1)
                rep.trace(case)
        return
    # input collections, earlier nodes, controlled plates, deprecated interface
    L, N, C, left = 2, 4, 4, item[2] % 2 == 0
    pair = (0, 1, 2, 3) if item[2] < 2 else (2, 0, 3, 1)
    vac = {(0, 0, 0, 0): 1.0 + 0j}
    colls = [[ref.MS('a', 0.25, vac, (1, 0, 1, 0)), ref.MS('b', 0.5, {(1, 0, 0, 0): 1.0 + 0j}, (0, 1, 1, 0))],
             [ref.MS('a', 0.25, vac, (1, 0, 1, 0)), ref.MS('a', 0.5, vac, (0, 1, 1, 0), (((1, 1, 0, 0), 0.5),))],
             [ref.MS('a', 0.25, vac, (1, 0, 1, 0)), ref.MS('b', 0.25, {(0, 1, 0, 1): 1.0 + 0j}, (1, 0, 1, 0)), ref.MS('c', 0.125, vac, (5, 0, 1, 0), (((1, 1, 0, 0), 0.5),))]]
    for coll, (A, B), q in itertools.product(colls, itertools.product(TWO, repeat=2), QS):
        for v in range(4):
            case = dict(pair=pair, q=q, A=A, B=B, channel_0_left=left, variant=('plain', 'after other nodes', 'controlled plates', 'no signalling boxes')[v], input=[impl.show(m) for m in coll])
            rep.state(('inputs', item[2], v, repr((A, B, q, [m.key() for m in coll]))))
            src = coll if v != 3 else coll[:1]
            with rep.guard('inputs', case):
                c = program(L, N, C, left, [(pair, q)], [(A, B)], pre=[('swap', 0, 2), ('swap', 1, 3)] if v == 1 else (), ctrl=v == 2, deprecated=v == 3)
                got = evaluate(c, src, [0, 1, 2, 3][::-1], [0, 1, 2, 3], L, left)
                want = []
                for m in src:
                    w = oracle([m.copy(c=vac)], [(pair, q)], [(A, B)], [], L, [3, 2, 1, 0], [0, 1, 2, 3])
                    if v == 3:
                        w = [x.copy(cum=x.cum / m.cum) for x in w] if abs(sum(g.cum for g in got) - 1) < 1e-3 else w
                    want += w
                if v == 3:
                    # the label of the deprecated gate is not compared
                    want, got = [m.copy(init='x') for m in want], [m.copy(init='x') for m in got]
                    d = impl.same_collection(merged(strip(want)), merged(got), 2e-3)
                    if d:
                        rep.violation('inputs', case, d)
                else:
                    compare(rep, 'inputs', case, want, got, src)
                rep.step(len(src))
                rep.trace(case)
