"""C14: Hamiltonian operator gates apply exp(H); wave plates from a Hamiltonian equal the ordinary ones."""
import itertools
import fock_state_circuit as fsc
from mc import ref, impl
from mc.common import *

LEVEL = 'model_checking'
RULE = ('state = (Hamiltonian or list of Hamiltonians, coefficients, ordered channels, circuit size, convention, input); every combination of the menus is executed on every basis state and a dense superposition and '
        'compared with the exponential of the ladder-operator matrix cut off at the photon limit; sequences of gates of depth two and lists of up to three Hamiltonians are compared with the product in the documented order')
ASSUMPTIONS = ['matrix elements that leave the range 0..length-1 are dropped, characters of a term act from left to right', 'coefficients of the transition matrix smaller than 5e-5 may be dropped',
               'operator channels are numbered from 0 upwards']

# name: (terms per unit coefficient, operator channels, number of channels)
HAM = {
    'bs': (lambda t: [('+-', t), ('-+', -t)], [0, 1], 2),
    'bsi': (lambda t: [('+-', 1j * t), ('-+', 1j * t)], [0, 1], 2),
    'phase': (lambda t: [('-+', 1j * t)], [0, 0], 1),
    'phase1': (lambda t: [('+-', 1j * t)], [0, 0], 1),
    'kerr': (lambda t: [('-+-+', 1j * t)], [0, 0, 0, 0], 1),
    'disp': (lambda t: [('+', t), ('-', -t)], [0], 1),
    'sq1': (lambda t: [('++', t), ('--', -t)], [0, 0], 1),
    'sq2': (lambda t: [('++', t), ('--', -t)], [0, 1], 2),
    'cross': (lambda t: [('-+-+', 1j * t)], [0, 0, 1, 1], 2),
    'mix4': (lambda t: [('+0-0', t), ('-0+0', -t), ('-+00', 0.5j * t)], [0, 0, 1, 1], 2),
    'raise': (lambda t: [('+-', t)], [0, 1], 2),
    'lower': (lambda t: [('-', t), ('0', 0.3 * t)], [0], 1),
    'spdc': (lambda t: [('+--', t), ('-++', -t)], [0, 1, 2], 3),
    'chain': (lambda t: [('+-0', t), ('-+0', -t), ('0+-', 1j * t), ('0-+', 1j * t)], [0, 1, 2], 3),
    'swapped': (lambda t: [('+-', 1j * t), ('-+', 1j * t), ('0-', 0.2 * t)], [1, 0], 2),
    'repeat': (lambda t: [('+-', t), ('+-', 0.5 * t), ('-+', -1.5 * t)], [0, 1], 2),
}


def h_matrix(terms, och, L, k):
    """column convention: M[m, n] is the amplitude from n to m"""
    vals = ref.all_values(L, k)
    ix = {v: i for i, v in enumerate(vals)}
    M = np.zeros((len(vals), len(vals)), dtype=complex)
    for v in vals:
        for s, c in terms:
            w, a = list(v), complex(c)
            for ch, o in zip(och, s):
                if o == '+':
                    w[ch] += 1
                    a *= w[ch] ** 0.5
                elif o == '-':
                    a *= w[ch] ** 0.5
                    w[ch] -= 1
                    if w[ch] < 0:
                        a = 0
                        break
            if a and max(w) < L:
                M[ix[tuple(w)], ix[v]] += a
    return M


def expm(M):
    s = max(0, int(np.ceil(np.log2(max(1e-9, np.abs(M).sum(axis=0).max())))) + 1)
    A, R = M / 2 ** s, np.identity(len(M), dtype=complex)
    T = R.copy()
    for n in range(1, 30):
        T = T @ A / n
        R = R + T
    for _ in range(s):
        R = R @ R
    return R


def apply(U, state, chans, L):
    k = len(chans)
    vals = ref.all_values(L, k)
    ix = {v: i for i, v in enumerate(vals)}
    out = {}
    for v, a in state.items():
        col = U[:, ix[tuple(v[c] for c in chans)]]
        for j, w in enumerate(vals):
            if abs(col[j]) > 1e-12:
                x = list(v)
                for c, n in zip(chans, w):
                    x[c] = n
                x = tuple(x)
                out[x] = out.get(x, 0) + a * complex(col[j])
    return out


def ham(name, t):
    f, och, k = HAM[name]
    return fsc.Hamiltonian(f(t), och) if hasattr(fsc, 'Hamiltonian') else None


def U_of(name, t, L):
    f, och, k = HAM[name]
    return expm(h_matrix(f(t), och, L, k))


COEFF = {'quick': (0.4, -1.3, 4.0), 'thorough': (0.4, -1.3, 4.0, 0.05, 9.0)}
GROWING = {'raise', 'lower'}   # not unitary: amplitudes grow with the coefficient, so only moderate coefficients


def sizes(tier):
    s = [(2, 2), (3, 2), (4, 2), (2, 3), (3, 3)]
    return s if tier == 'quick' else s + [(5, 2), (11, 2), (4, 3), (2, 4)]


THR_SIZES = {'quick': [(2, 2), (3, 2), (2, 3)], 'thorough': [(2, 2), (3, 2), (4, 2), (2, 3), (3, 3)]}
SMALL_T = (0.003, 0.02, 0.12, 0.45, 1.1)


def near(v, thr):
    return any(0.85 * thr < abs(a) ** 2 < 1.18 * thr for a in v.values())


def drop(v, thr):
    return {k: a for k, a in v.items() if abs(a) ** 2 >= thr}


def thresholds(item, rep):
    """components below the threshold of the circuit are removed after contributions that end in the same component were added up"""
    _, L, N, left, thr, tier = item
    vals = ref.all_values(L, N)
    pairs = list(itertools.combinations(vals, 2))
    if tier == 'quick' and len(pairs) > 40:
        pairs = [(a, b) for a, b in pairs if sum(a) == sum(b)]
    coll = [ref.MS('b%d' % n, 0.5, {v: 1.0 + 0j}, (0,)) for n, v in enumerate(vals)]
    for n, (a, b) in enumerate(pairs):
        for k, x in enumerate((0.5, -0.5, 0.5j)):
            coll.append(ref.MS('p%d_%d' % (n, k), 0.25, {a: 0.5 ** 0.5 + 0j, b: x / abs(x) * 0.5 ** 0.5}, (0,)))

    def compare(kind, case, full, build):
        keep = [(m, v) for m, v in zip(coll, full) if not near(v, thr) and drop(v, thr)]
        if not keep:
            return
        c = impl.circuit(L, N, 1, left, thr)
        build(c)
        src = [m for m, _ in keep]
        out = impl.read(impl.evaluate(c, impl.collection(c, src, L, left)), L, left)
        d = exact([m.copy(c=drop(v, thr)) for m, v in keep], out, 1e-3)
        rep.step(len(keep))
        if d:
            rep.violation(kind, case, d)

    for name, (f, och, k) in HAM.items():
        if k > N or name in GROWING:
            continue
        for chans in itertools.permutations(range(N), k):
            for t in SMALL_T:
                case = dict(L=L, N=N, channel_0_left=left, threshold=thr, gate=name, coefficient=t, channels=chans)
                rep.state(('thr', L, N, left, thr, name, chans, t))
                with rep.guard('threshold', case):
                    U = U_of(name, t, L)
                    compare('threshold', case, [apply(U, m.c, chans, L) for m in coll],
                            lambda c: c.hamiltonian_operator_gate(channels=list(chans), operators=ham(name, t)))
                    rep.trace(case)
    coll = [m for m in coll if all(sum(v) < L for v in m.c)]
    for i, j in ordered_pairs(N):
        for th, ph in itertools.product((0.0045, 0.03, 0.09, 0.35, 0.8), (math.pi, 1.9)):
            case = dict(L=L, N=N, channel_0_left=left, threshold=thr, channels=(i, j), theta=th, phi=ph)
            rep.state(('thr-wp', L, N, left, thr, i, j, th, ph))
            with rep.guard('threshold', case):
                full = [m.c for m in ref.run_model([m.copy() for m in coll], [('wp', i, j, th, ph)], L, 0)]
                compare('threshold', case, full, lambda c: c.wave_plate(i, j, theta=th, phi=ph))
                compare('threshold', case, full, lambda c: c.wave_plate_from_hamiltonian(i, j, th, ph))
                rep.trace(case)


def shards(tier):
    items = []
    for L, N in sizes(tier):
        for name in HAM:
            if HAM[name][2] <= N:
                if L > 4 and HAM[name][2] > 1 and name not in ('bs', 'sq2'):
                    continue
                for left in (True, False):
                    items.append(('gate', L, N, left, name, tier))
        if L <= 4:
            items += [('list', L, N, k, tier) for k in range(1, 4)]
            items += [('wave', L, N, left, tier) for left in (True, False)]
            items.append(('seq', L, N, tier))
    items += [('thresholds', L, N, left, thr, tier) for L, N in THR_SIZES[tier] for left in (True, False) for thr in (0.0001, 0.04, 0.3)]
    items += [('wide', 2, WIDE, left, p, tier) for left in (True, False) for p in wide_pairs(WIDE)]
    return items


def inputs(L, N):
    vals = ref.all_values(L, N)
    coll = [ref.MS('b%d' % n, 0.5, {v: 1.0 + 0j}, (n % 3,), ((((n % 2),), 0.5),)) for n, v in enumerate(vals)]
    coll.append(ref.MS('sup', 0.25, generic_vector(vals), (0,)))
    return coll


def exact(model, out, tol):
    """relative tolerance: amplitudes of non-unitary gates can be larger than one"""
    if len(model) != len(out):
        return 'expected %d states, got %d' % (len(model), len(out))
    by = {m.init: m for m in out}
    for m in model:
        r = by.get(m.init)
        if r is None:
            return 'state %s disappeared' % m.init
        n = max(1.0, max(abs(a) for a in m.c.values()) if m.c else 1.0)
        if abs(m.cum - r.cum) > 1e-9 or m.cl != r.cl or len(m.hist) != len(r.hist) or not impl.close_vec(m.c, r.c, tol * n):
            return 'expected %s got %s' % (impl.show(m), impl.show(r))
    return None


def gate(rep, key, case, L, N, left, ops, coll, ids=None):
    """ops: list of (channels, list of (name, coefficient)); returns description of the difference to the documented order"""
    c = impl.circuit(L, N, 1, left, THR)
    for chans, hs in ops:
        c.hamiltonian_operator_gate(channels=list(chans), operators=[ham(n, t) for n, t in hs] if len(hs) > 1 or sum(chans) % 2 else ham(*hs[0]))
    out = impl.read(impl.evaluate(c, impl.collection(c, coll, L, left)), L, left)
    rep.step(len(coll) * len(ops))
    return out


def expected(coll, ops, L, order=1):
    res = []
    for m in coll:
        v = m.c
        for chans, hs in ops:
            for n, t in hs[::order]:
                v = apply(U_of(n, t, L), v, chans, L)
        res.append(m.copy(c=v))
    return res


def run(item, rep):
    kind, L, N = item[:3]
    tol = 1e-3
    tier = item[-1]
    if kind == 'thresholds':
        return thresholds(item, rep)
    if kind == 'wide':
        left, p = item[3:5]
        third = next(k for k in (N - 1, 1, 2) if k not in p)
        coll = wide_collection(N, 1)
        for name in ('bs', 'bsi', 'phase', 'chain', 'cross', 'mix4', 'swapped', 'sq2', 'disp'):
            chans = (p + (third,))[:HAM[name][2]]
            ops = [(chans, [(name, 0.7)])]
            case = dict(L=L, N=N, channel_0_left=left, gate=name, channels=chans)
            rep.state((L, N, left, name, chans))
            with rep.guard('gate', case):
                d = exact(expected(coll, ops, L), gate(rep, 'gate', case, L, N, left, ops, coll), tol)
                if d:
                    rep.violation('gate', case, d)
                rep.trace(case)
        return
    coll = inputs(L, N)
    if kind == 'gate':
        left, name = item[3], item[4]
        k = HAM[name][2]
        for chans in itertools.permutations(range(N), k):
            for t in COEFF[tier]:
                if name in GROWING and abs(t) > 1.3:
                    continue
                ops = [(chans, [(name, t)])]
                case = dict(L=L, N=N, channel_0_left=left, gate=name, terms=HAM[name][0](t), operator_channels=HAM[name][1], channels=chans)
                rep.state((L, N, left, name, t, chans))
                with rep.guard('gate', case):
                    d = exact(expected(coll, ops, L), gate(rep, 'gate', case, L, N, left, ops, coll), tol)
                    if d:
                        rep.violation('gate', case, d)
                    # the operator applied directly to a single state
                    c = impl.circuit(L, N, 1, left, THR)
                    x = impl.collection(c, coll, L, left)
                    q = fsc.QuantumOperator([ham(name, t)], length_of_fock_state=L)
                    got = [impl.read_state(q.apply_operator_to_state(s, list(chans)), L, left) for s in x]
                    d = exact(expected(coll, ops, L), got, tol)
                    if d:
                        rep.violation('gate', case, 'apply_operator_to_state: ' + d)
                    rep.trace(case)
        return
    if kind == 'list':
        n = item[3]
        groups = {}
        for h in HAM:
            if HAM[h][2] <= N and h not in GROWING:
                groups.setdefault((tuple(HAM[h][1]) if n == 3 else None, HAM[h][2]), []).append(h)
        for (och, k), names in sorted(groups.items(), key=repr):
            if L ** k > 64:
                continue
            for hs in itertools.product(names, repeat=n):
                if n == 3 and tier == 'quick' and L > 2:
                    continue
                ops = [(tuple(range(N))[::-1][:k], [(h, 0.5 + 0.3 * i) for i, h in enumerate(hs)])]
                case = dict(L=L, N=N, hamiltonians=[(h, HAM[h][0](t), HAM[h][1]) for h, t in ops[0][1]], channels=ops[0][0])
                rep.state((L, N, 'list', repr(ops)))
                with rep.guard('several', case):
                    out = gate(rep, 'several', case, L, N, True, ops, coll)
                    d = exact(expected(coll, ops, L), out, tol)
                    if d:
                        # the recorded finding is the exactly reversed order; anything else is a different violation
                        rev = exact(expected(coll, ops, L, -1), out, tol)
                        rep.violation('reversed-order-of-hamiltonians' if rev is None else 'several', case, d)
                    rep.trace(case)
        return
    if kind == 'seq':
        names = [h for h in HAM if HAM[h][2] <= min(N, 2) and h not in GROWING]
        for a, b in itertools.product(names, repeat=2):
            for ca in itertools.permutations(range(N), HAM[a][2]):
                cb = tuple((c + 1) % N for c in ca)[::-1] if HAM[b][2] == HAM[a][2] else tuple(range(N))[::-1][:HAM[b][2]]
                ops = [(ca, [(a, 0.7)]), (cb, [(b, -0.45)])]
                case = dict(L=L, N=N, gates=ops)
                rep.state((L, N, 'seq', repr(ops)))
                with rep.guard('sequence', case):
                    d = exact(expected(coll, ops, L), gate(rep, 'sequence', case, L, N, False, ops, coll), tol)
                    if d:
                        rep.violation('sequence', case, d)
                    rep.trace(case)
        return
    left = item[3]
    angles = [(0.0, math.pi), (math.pi / 8, math.pi), (math.pi / 4, math.pi / 2), (0.7, 1.9), (-1.2, 5.0), (3.5, -0.8), (12.0, 7.0)]
    low = [m for m in coll if all(sum(k) < L for k in m.c)]
    mixed = [v for v in ref.all_values(L, N) if sum(v) < L]
    low.append(ref.MS('sup', 0.25, generic_vector(mixed), (0,)))
    for i, j in ordered_pairs(N):
        for th, ph in angles:
            case = dict(L=L, N=N, channel_0_left=left, channels=(i, j), theta=th, phi=ph)
            rep.state((L, N, left, i, j, th, ph))
            with rep.guard('wave-plate', case):
                outs = []
                for v in range(3):
                    c = impl.circuit(L, N, 2, left, THR)
                    if v == 0:
                        c.wave_plate(i, j, theta=th, phi=ph)
                    elif v == 1:
                        c.wave_plate_from_hamiltonian(i, j, th, ph)
                    else:
                        c.set_classical_channels([ph, th], [0, 1])
                        c.wave_plate_from_hamiltonian_classical_control(i, j, 1, 0)
                    src = [m.copy(cl=(ph, th)) for m in low]
                    outs.append(impl.read(impl.evaluate(c, impl.collection(c, src, L, left)), L, left))
                want = ref.run_model([m.copy(cl=(ph, th)) for m in low], [('wp', i, j, th, ph)], L, 1e-12)
                for v, o in enumerate(outs):
                    d = impl.same_collection(want, o, tol)
                    if d:
                        rep.violation('wave-plate', dict(case, variant=('wave_plate', 'from_hamiltonian', 'classical control')[v]), d)
                rep.step(3 * len(low))
                rep.trace(case)
