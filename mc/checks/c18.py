"""C18: vectors, inner, outer and tensor products of states are those of Fock space."""
import copy, itertools
import fock_state_circuit as fsc
from mc import ref, impl
from mc.common import *

LEVEL = 'model_checking'
RULE = ('state = (ordered pair of optical states from a menu of basis states, pairs of basis states with complex relative amplitudes, dense and unnormalised vectors; circuit sizes, lengths and conventions of both operands); every pair is evaluated by every '
        'operation and compared with the vectors of Fock space in the canonical basis; algebraic laws (conjugate symmetry, factorisation over tensor products) are checked on the returned values')
ASSUMPTIONS = ['amplitudes from a finite menu', 'operands of a tensor product with a photon number above the limit of the first operand are excluded']

AMPS = [(1.0, 0.0), (0.6, 0.8), (0.6, -0.8j), (2 ** -0.5, 1j * 2 ** -0.5), (-0.28j, 0.96 * 1j), (0.5 + 0.5j, 0.5 - 0.5j)]


def menu(L, N, tier):
    vals = ref.all_values(L, N)
    if len(vals) > 16:
        step = max(1, len(vals) // (12 if tier == 'quick' else 24))
        sel = vals[::step] + vals[-2:]
    else:
        sel = vals
    res = [{v: 1.0 + 0j} for v in sel]
    pairs = list(itertools.combinations(sel, 2))
    lim = 80 if tier == 'quick' else 300
    if len(pairs) > lim:
        pairs = pairs[::len(pairs) // lim + 1]
    for n, (v, w) in enumerate(pairs):
        a, b = AMPS[1 + n % (len(AMPS) - 1)]
        res.append({v: complex(a), w: complex(b)})
    for s in range(3):
        res.append(generic_vector(sel, s))
    half = generic_vector(sel[::2] or sel, 5)
    # three components, the first and the last with the same number of photons
    z = (0,) * (N - 2)
    res += [{(1, 0) + z: 0.6 + 0j, mid: 0.48j, (0, 1) + z: -0.64 + 0j} for mid in ((1, 1) + z, (0, 0) + z)] if N > 1 else []
    res += [{k: 0.5 * a for k, a in half.items()}, {sel[0]: 1j}, {sel[-1]: -1.0 + 0j}]
    return res


SHAPES = {'quick': [(2, 2, True), (2, 2, False), (3, 2, True), (3, 2, False), (2, 3, False), (2, 3, True), (3, 3, False), (3, 3, True), (4, 2, True), (4, 2, False), (2, 4, True), (2, 4, False), (11, 2, True), (11, 2, False)],
          'thorough': [(2, 2, True), (2, 2, False), (3, 2, True), (3, 2, False), (2, 3, False), (2, 3, True), (3, 3, False), (3, 3, True), (4, 2, True), (4, 3, False), (2, 4, True), (2, 4, False), (11, 2, True), (11, 2, False)]}


def shards(tier):
    items = [('pair', s, part, tier) for s in SHAPES[tier] for part in range(4)]
    items += [('tensor', s, t, tier) for s in SHAPES[tier] for t in SHAPES[tier] if s[1] + t[1] <= (5 if s[0] == 2 else 4) and t[0] <= s[0] and s[0] ** (s[1] + t[1]) <= 15000]
    items += [('single', s, tier) for s in SHAPES[tier]]
    items.append(('single', (101, 2, False), tier)) if tier == 'thorough' else None
    return items


def world(shape, C=1, thr=THR):
    L, N, left = shape
    c = impl.circuit(L, N, C, left, thr)
    return fsc.CollectionOfStates(c, dict([]))


def state(coll, v, shape, style=0):
    L, N, left = shape
    s = fsc.State(coll)
    names = [(ref.name_of(k, L, left), a) for k, a in v.items()]
    if style == 0:
        s.optical_components = {n: {'amplitude': np.cdouble(a), 'probability': abs(a) ** 2} for n, a in names}
    elif style == 1:
        s.optical_components = names
    elif style == 3:
        s.optical_components = [(n, a / 2) for n, a in names] + [(n, a / 2) for n, a in names]
    else:   # the same component mentioned several times adds up
        s.optical_components = [(n, a / 4) for n, a in names] + [(n, a * 3 / 4) for n, a in names[::-1]]
    return s


def vec(v, L, N):
    out = np.zeros(L ** N, dtype=complex)
    for k, a in v.items():
        out[sum(n * L ** c for c, n in enumerate(k))] += a
    return out


def comps(d, L, left):
    out = {}
    for n, e in d.items():
        a, p = complex(e['amplitude']), float(e['probability'])
        if abs(abs(a) ** 2 - p) > 1e-5:
            raise CodeFailure('component %s: probability %r does not belong to amplitude %r' % (n, p, a))
        k = ref.values_of(n, L, left)
        if k in out:
            raise CodeFailure('component twice')
        out[k] = a
    return out


def nonzero(v):
    return {k: a for k, a in v.items() if abs(a) > 1e-9}


def fp(s):
    return repr((s.initial_state, s.cumulative_probability, {k: (complex(v['amplitude']), v['probability']) for k, v in s.optical_components.items()}, s.classical_channel_values, s.measurement_results, s.auxiliary_information))


def show(v):
    return {str(k): complex(a) for k, a in v.items()}


def run(item, rep):
    kind, shape = item[:2]
    L, N, left = shape
    tier = item[-1]
    if kind == 'single':
        vals = ref.all_values(L, N)
        for thr in (THR, 1e-4, 1e-2):
            coll = world(shape, 2, thr)
            for i, v in enumerate(menu(L, N, tier)):
                for style in range(4):
                    case = dict(L=L, N=N, channel_0_left=left, threshold=thr, state=show(v), given_as=('dict', 'list', 'list with repeated components', 'list with equal parts')[style])
                    rep.state(('single', shape, thr, i, style))
                    with rep.guard('single', case):
                        s = state(coll, v, shape, style)
                        got = comps(s.optical_components, L, left)
                        if not impl.close_vec(v, got, 1e-6):
                            rep.violation('components', case, 'got %s' % show(got))
                        before = fp(s)
                        w, basis = s.translate_state_components_to_vector()
                        if [ref.values_of(n, L, left) for n in basis] != vals:
                            rep.violation('basis', case, 'basis of the vector is not the canonical one')
                        if len(w) != L ** N or np.max(np.abs(np.array(w) - vec(v, L, N))) > 1e-6:
                            rep.violation('vector', case, 'vector %s' % list(w)[:20])
                        pn = [sum(k) for k in v]
                        if tuple(s.photon_number()) != (max(pn), max(pn) == min(pn)) or int(s) != max(pn) or not (s == max(pn)) or (s == max(pn) + 1):
                            rep.violation('photon-number', case, 'photon_number() = %s int %s' % (s.photon_number(), int(s)))
                        if not bool(s):
                            rep.violation('valid', case, 'a valid state is reported as invalid')
                        t = s.copy()
                        if fp(t) != fp(s):
                            rep.violation('copy', case, 'copy differs')
                        # back from a vector: list and array, onto a state with other content
                        for as_list in (False, True):
                            x = np.array(w).copy() * (1.0 if not as_list else 1j)
                            arg = list(x) if as_list else x
                            keep = list(arg)
                            t = state(coll, {vals[-1]: 1.0 + 0j}, shape)
                            t.cumulative_probability, t.classical_channel_values = 0.25, [1, 2]
                            t.set_state_components_from_vector(arg)
                            want = {k: a * (1j if as_list else 1.0) for k, a in v.items() if abs(a) ** 2 >= thr}
                            got = comps(t.optical_components, L, left)
                            if not impl.close_vec(nonzero(want), nonzero(got), 1e-6):
                                rep.violation('from-vector', case, 'got %s' % show(got))
                            if t.cumulative_probability != 0.25 or t.classical_channel_values != [1, 2]:
                                rep.violation('from-vector', case, 'other fields changed')
                            if [complex(y) for y in arg] != [complex(y) for y in keep]:
                                rep.violation('operand-changed', case, 'set_state_components_from_vector changed the vector it was given')
                        n = s.create_initialized_state()
                        if comps(n.optical_components, L, left) != {(0,) * N: 1.0 + 0j} or n.classical_channel_values != [0, 0] or n.measurement_results or n.cumulative_probability != 1 or n.initial_state != ref.name_of((0,) * N, L, left):
                            rep.violation('initialized', case, fp(n))
                        if fp(s) != before:
                            rep.violation('operand-changed', case, 'state changed: %s to %s' % (before, fp(s)))
                        s.initialize_this_state()
                        if fp(s) != fp(n):
                            rep.violation('initialized', case, fp(s))
                        rep.step(8)
                        rep.trace(case)
        return
    if kind == 'pair':
        part = item[2]
        men = menu(L, N, tier)
        coll, coll2 = world(shape), world(shape, 0)
        A = [state(coll, v, shape) for v in men]
        B = [state(coll2, v, shape, 1) for v in men]
        fa, fb = [fp(s) for s in A], [fp(s) for s in B]
        V = [vec(v, L, N) for v in men]
        for i in range(part, len(men), 4):
            for j in range(len(men)):
                case = dict(L=L, N=N, channel_0_left=left, first=show(men[i]), second=show(men[j]))
                rep.state(('pair', shape, i, j))
                with rep.guard('pair', case):
                    x = complex(A[i].inner(B[j]))
                    y = complex(B[j].inner(A[i]))
                    w = complex(np.vdot(V[i], V[j]))
                    if abs(x - w) > 1e-6 or abs(y - w.conjugate()) > 1e-6:
                        rep.violation('inner', case, 'inner product %r (reversed %r) expected %r' % (x, y, w))
                    if (A[i] == A[j]) != (max(map(sum, men[i])) == max(map(sum, men[j]))):
                        rep.violation('photon-number', case, 'comparison of states by photon number')
                    # operands of one collection, for i = j the same object
                    if abs(complex(A[i].inner(A[j])) - w) > 1e-6:
                        rep.violation('inner', case, 'inner product within a collection %r expected %r' % (complex(A[i].inner(A[j])), w))
                    if i == j:
                        o = np.array(A[i].outer(A[i]))
                        if o.shape != (L ** N, L ** N) or np.max(np.abs(o - np.outer(V[i].conj(), V[i]))) > 1e-6:
                            rep.violation('outer', case, 'outer product of a state with itself differs from conj(v) (x) v')
                    rep.step(2)
                    if L ** N <= 30 or (i + j) % 7 == 0:
                        o = np.array(A[i].outer(B[j]))
                        if o.shape != (L ** N, L ** N) or np.max(np.abs(o - np.outer(V[i].conj(), V[j]))) > 1e-6:
                            rep.violation('outer', case, 'outer product differs from conj(v1) (x) v2')
                        rep.step()
                    rep.trace(case)
        if [fp(s) for s in A] != fa or [fp(s) for s in B] != fb:
            rep.violation('operand-changed', dict(L=L, N=N, channel_0_left=left), 'an operand of inner or outer product changed')
        return
    other = item[2]
    L2, N2, left2 = other
    m1, m2 = menu(L, N, tier), menu(L2, N2, tier)
    k = 24 if tier == 'quick' else 60
    m1, m2 = m1[::max(1, len(m1) // k)], m2[::max(1, len(m2) // k)]
    coll, coll2 = world(shape), world(other)
    A = [state(coll, v, shape) for v in m1]
    B = [state(coll2, v, other) for v in m2]
    d1, d2 = len(str(L - 1)), len(str(L2 - 1))
    big = (L, N + N2, left)
    results = {}
    for i, j in itertools.product(range(len(m1)), range(len(m2))):
        case = dict(first=dict(L=L, N=N, channel_0_left=left, state=show(m1[i])), second=dict(L=L2, N=N2, channel_0_left=left2, state=show(m2[j])))
        rep.state(('tensor', shape, other, i, j))
        want = {}
        for k, a in m1[i].items():
            for l, b in m2[j].items():
                want[k + l] = want.get(k + l, 0) + a * b
        with rep.guard('tensor', case):
            before = fp(A[i]), fp(B[j])
            got = comps(A[i].tensor(B[j]), L, left)
            if not impl.close_vec(nonzero(want), nonzero(got), 1e-6):
                rep.violation('tensor', case, 'with a state: %s' % show(got))
            results[i, j] = got
            rep.step()
            if left == left2 and d1 == d2:
                arg = copy.deepcopy(B[j].optical_components)
                got = comps(A[i].tensor(arg), L, left)
                if not impl.close_vec(nonzero(want), nonzero(got), 1e-6):
                    rep.violation('tensor', case, 'with components: %s' % show(got))
                if repr(arg) != repr(B[j].optical_components):
                    rep.violation('operand-changed', case, 'tensor changed the components it was given')
                names = [(n, complex(e['amplitude'])) for n, e in arg.items()]
                for lst in (names, [(n, a / 2) for n, a in names] + [(n, a / 2) for n, a in names[::-1]]):
                    keep = list(lst)
                    got = comps(A[i].tensor(lst), L, left)
                    if not impl.close_vec(nonzero(want), nonzero(got), 1e-6) or lst != keep:
                        rep.violation('tensor', case, 'with a list: %s' % show(got))
                rep.step(3)
            # the result is usable as the components of a state of the larger circuit
            if (i + j) % 5 == 0 and L ** (N + N2) <= 2000:
                s = fsc.State(world(big))
                s.optical_components = A[i].tensor(B[j])
                w = s.translate_state_components_to_vector()[0]
                if np.max(np.abs(np.array(w) - vec(want, L, N + N2))) > 1e-6:
                    rep.violation('tensor', case, 'vector of the product state')
            if (fp(A[i]), fp(B[j])) != before:
                rep.violation('operand-changed', case, 'tensor changed an operand')
            rep.trace(case)
    # inner products factorise over tensor products
    keys = sorted(results)[::7]
    for (i, j), (k, l) in itertools.product(keys[:12], repeat=2):
        x = sum(complex(a).conjugate() * results[k, l].get(n, 0) for n, a in results[i, j].items())
        with rep.guard('factorise', {}):
            y = complex(A[i].inner(A[k])) * complex(B[j].inner(B[l]))
            rep.step()
            if abs(x - y) > 1e-5:
                rep.violation('factorise', dict(first=(show(m1[i]), show(m2[j])), second=(show(m1[k]), show(m2[l]))), '%r and %r' % (x, y))
