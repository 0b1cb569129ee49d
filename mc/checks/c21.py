"""C21: invalid arguments are rejected without side effects, valid ones are accepted."""
import itertools
import fock_state_circuit as fsc
from mc import ref, impl
from mc.common import *

LEVEL = 'model_checking'
RULE = ('state = (circuit size, nodes already present, method, tuple of channel numbers for every argument position drawn from two below to two above the valid range, list lengths); the reference decides must-accept, must-reject or unspecified; '
        'accepted nodes are evaluated and compared with the reference model, rejected ones must leave the node list and the evaluation as they were; for states and collections: every kind of malformed content at every position, alone and after every other attempt, '
        'the object must keep its content')
ASSUMPTIONS = ['negative channel numbers for plain two channel gates and channel numbers of time delay nodes are unspecified (their documentation says nothing is raised)', 'the kind of exception is not compared']


def distinct(x):
    return len(set(x)) == len(x)


class M:
    """one method: number of optical and classical channel numbers, the call, and the verdict of the reference"""
    def __init__(self, name, no, nk, call, ops, verdict):
        self.name, self.no, self.nk, self.call, self.ops, self.verdict = name, no, nk, call, ops, verdict


def two(o, k, N, C):
    """plain optical gate on two channels"""
    if max(o) >= N or (o[0] == o[1] and min(o) >= 0):
        return 'reject'
    return None if min(o) < 0 else 'accept'


def strict(o, k, N, C):
    bad = any(not 0 <= x < N for x in o) or any(not 0 <= x < C for x in k)
    return 'reject' if bad else 'accept'


def strict_two(o, k, N, C):
    if strict(o, k, N, C) == 'reject' or o[0] == o[1]:
        return 'reject'
    return 'accept'


def strict_ham(o, k, N, C):
    if strict(o, k, N, C) == 'reject':
        return 'reject'
    return None if o[0] == o[1] else 'accept'


def pairs_rule(o, k, N, C):
    """shifts controlled by channels: first half controls, second half targets"""
    h = len(o) // 2
    if strict(o, k, N, C) == 'reject' or any(a == b for a, b in zip(o[:h], o[h:])):
        return 'reject'
    return 'accept'


def bs(o, k, N, C):
    """beam splitter (a0, a1), (b0, b1): couples a0-b0 and a1-b1"""
    if N < 4 or max(o) >= N:
        return 'reject'
    if (o[0] == o[2] or o[1] == o[3]) and min(o) >= 0:
        return 'reject'
    if min(o) < 0 or not distinct(o):
        return None
    return 'accept'


def pbs(o, k, N, C):
    if N < 4 or max(o[1], o[3]) >= N or (o[1] == o[3] and o[1] >= 0):
        return 'reject'
    if min(o) < 0 or max(o) >= N or not distinct(o):
        return None
    return 'accept'


def meas(o, k, N, C):
    if strict(o, k, N, C) == 'reject':
        return 'reject'
    return 'accept' if distinct(o) and distinct(k) else None


def setc(o, k, N, C):
    if strict(o, k, N, C) == 'reject':
        return 'reject'
    return 'accept' if distinct(k) else None


H = 2 ** -0.5
UN = [[0.6, 0.8j], [0.8j, 0.6]]
METHODS = [
    M('wave_plate', 2, 0, lambda c, o, k: c.wave_plate(o[0], o[1], theta=0.7, phi=1.2), lambda o, k: [('wp', o[0], o[1], 0.7, 1.2)], two),
    M('half_wave_plate', 2, 0, lambda c, o, k: c.half_wave_plate(o[0], o[1], angle=0.4), lambda o, k: [('hwp', o[0], o[1], 0.4)], two),
    M('half_wave_plate_45', 2, 0, lambda c, o, k: c.half_wave_plate_45(o[0], o[1]), lambda o, k: [('hwp45', o[0], o[1])], two),
    M('half_wave_plate_225', 2, 0, lambda c, o, k: c.half_wave_plate_225(o[0], o[1]), lambda o, k: [('hwp225', o[0], o[1])], two),
    M('quarter_wave_plate', 2, 0, lambda c, o, k: c.quarter_wave_plate(o[0], o[1], angle=0.4), lambda o, k: [('qwp', o[0], o[1], 0.4)], two),
    M('quarter_wave_plate_45', 2, 0, lambda c, o, k: c.quarter_wave_plate_45(o[0], o[1]), lambda o, k: [('qwp45', o[0], o[1])], two),
    M('quarter_wave_plate_225', 2, 0, lambda c, o, k: c.quarter_wave_plate_225(o[0], o[1]), lambda o, k: [('qwp225', o[0], o[1])], two),
    M('swap', 2, 0, lambda c, o, k: c.swap(o[0], o[1]), lambda o, k: [('swap', o[0], o[1])], two),
    M('mix_50_50', 2, 0, lambda c, o, k: c.mix_50_50(o[0], o[1]), lambda o, k: [('mix', o[0], o[1])], two),
    M('mix_generic', 2, 0, lambda c, o, k: c.mix_generic_refl_transm(o[0], o[1], 0.25, 0.75), lambda o, k: [('mixg', o[0], o[1], 0.25)], two),
    M('custom_optical_node', 2, 0, lambda c, o, k: c.custom_optical_node(np.array(UN, dtype=np.cdouble), list(o)), lambda o, k: [('custom', o[0], o[1], UN)], two),
    M('phase_shift', 1, 0, lambda c, o, k: c.phase_shift_single_channel(o[0], 0.9), lambda o, k: [('ps', o[0], 0.9)],
      lambda o, k, N, C: 'reject' if o[0] >= N else None if o[0] < 0 else 'accept'),
    M('pbs', 4, 0, lambda c, o, k: c.polarizing_beamsplitter((o[0], o[1]), (o[2], o[3])), lambda o, k: [('pbs', (o[0], o[1]), (o[2], o[3]))], pbs),
    M('npbs50', 4, 0, lambda c, o, k: c.non_polarizing_50_50_beamsplitter((o[0], o[1]), (o[2], o[3])), lambda o, k: [('npbs50', (o[0], o[1]), (o[2], o[3]))], bs),
    M('npbs', 4, 0, lambda c, o, k: c.non_polarizing_beamsplitter((o[0], o[1]), (o[2], o[3]), 0.25, 0.75), lambda o, k: [('npbs', (o[0], o[1]), (o[2], o[3]), 0.25)], bs),
    M('measure', 1, 1, lambda c, o, k: c.measure_optical_to_classical(list(o), list(k)), lambda o, k: [('meas', o, k)], meas),
    M('measure2', 2, 2, lambda c, o, k: c.measure_optical_to_classical(list(o), list(k)), lambda o, k: [('meas', o, k)], meas),
    M('set_classical', 0, 1, lambda c, o, k: c.set_classical_channels([7], list(k)), lambda o, k: [('setc', (7,), k)], setc),
    M('set_classical2', 0, 2, lambda c, o, k: c.set_classical_channels([7, 3], list(k)), lambda o, k: [('setc', (7, 3), k)], setc),
    M('phase_classical', 1, 1, lambda c, o, k: c.phase_shift_single_channel_classical_control(o[0], k[0]), lambda o, k: [('psc', o[0], k[0])], strict),
    M('wave_plate_classical', 2, 2, lambda c, o, k: c.wave_plate_classical_control(o[0], o[1], k[0], k[1]), lambda o, k: [('wpc', o[0], o[1], k[0], k[1])], strict_two),
    M('hamiltonian_classical', 2, 2, lambda c, o, k: c.wave_plate_from_hamiltonian_classical_control(o[0], o[1], k[0], k[1]), lambda o, k: [('wphc', o[0], o[1], k[0], k[1])], strict_ham),
    M('shift', 1, 0, lambda c, o, k: c.shift(list(o), [1]), lambda o, k: [('shift', o, (1,))], strict),
    M('shift2', 2, 0, lambda c, o, k: c.shift(list(o), [1, 2]), lambda o, k: [('shift', o, (1, 2))], strict),
    M('shift_direct', 1, 0, lambda c, o, k: c.shift_direct(list(o), [1]), lambda o, k: [('shiftd', o, (1,))], strict),
    M('shift_direct2', 2, 0, lambda c, o, k: c.shift_direct(list(o), [1, 2]), lambda o, k: [('shiftd', o, (1, 2))], strict),
    M('c_shift', 2, 0, lambda c, o, k: c.c_shift([o[0]], [o[1]]), lambda o, k: [('cshift', (o[0],), (o[1],))], pairs_rule),
    M('c_shift2', 4, 0, lambda c, o, k: c.c_shift(list(o[:2]), list(o[2:])), lambda o, k: [('cshift', o[:2], o[2:])], pairs_rule),
    M('c_shift_direct', 2, 0, lambda c, o, k: c.c_shift_direct([o[0]], [o[1]]), lambda o, k: [('cshiftd', (o[0],), (o[1],))], pairs_rule),
    M('c_shift_direct2', 4, 0, lambda c, o, k: c.c_shift_direct(list(o[:2]), list(o[2:])), lambda o, k: [('cshiftd', o[:2], o[2:])], pairs_rule),
    M('channel_coupling', 2, 0, lambda c, o, k: c.channel_coupling([o[0]], [o[1]], 1), lambda o, k: [('coup', (o[0],), (o[1],), 1)], pairs_rule),
    M('channel_coupling2', 4, 0, lambda c, o, k: c.channel_coupling(list(o[:2]), list(o[2:]), 0), lambda o, k: [('coup', o[:2], o[2:], 0)], pairs_rule),
]
BYNAME = {m.name: m for m in METHODS}

PREFIX = {'none': [], 'two': [('mix', 0, 1), ('setc', (0.3,), (0,))]}
SHAPES = {'quick': [(2, 2, 1), (2, 3, 2), (2, 4, 2), (3, 2, 2)], 'thorough': [(2, 2, 1), (3, 2, 2), (2, 3, 2), (3, 3, 1), (2, 4, 2), (3, 4, 2), (2, 5, 3), (2, 5, 2)]}

# parameters and list lengths that are not channel numbers
LISTS = [
    ('shift', lambda c, a, b: c.shift(list(range(a)), [1] * b)),
    ('shift_direct', lambda c, a, b: c.shift_direct(list(range(a)), [1] * b)),
    ('c_shift', lambda c, a, b: c.c_shift(list(range(a)), [(x + 1) % 4 for x in range(b)])),
    ('c_shift_direct', lambda c, a, b: c.c_shift_direct(list(range(a)), [(x + 1) % 4 for x in range(b)])),
    ('channel_coupling', lambda c, a, b: c.channel_coupling(list(range(a)), [(x + 1) % 4 for x in range(b)], 1)),
    ('measure', lambda c, a, b: c.measure_optical_to_classical(list(range(a)), list(range(b)))),
    ('set_classical', lambda c, a, b: c.set_classical_channels([5] * a, list(range(b)))),
]
PARAMS = [
    ('mix sum', lambda c: c.mix_generic_refl_transm(0, 1, 0.5, 0.6)),
    ('mix sum below', lambda c: c.mix_generic_refl_transm(0, 1, 0.5, 0.25)),
    ('mix negative', lambda c: c.mix_generic_refl_transm(0, 1, -0.5, 1.5)),
    ('mix above one', lambda c: c.mix_generic_refl_transm(0, 1, 1.5, -0.5)),
    ('npbs sum', lambda c: c.non_polarizing_beamsplitter((0, 1), (2, 3), 0.5, 0.6)),
    ('custom 3x3', lambda c: c.custom_optical_node(np.identity(3), [0, 1])),
    ('custom 2x3', lambda c: c.custom_optical_node(np.ones((2, 3)), [0, 1])),
    ('custom 3x2', lambda c: c.custom_optical_node(np.ones((3, 2)), [0, 1])),
    ('custom three channels', lambda c: c.custom_optical_node(np.identity(2), [0, 1, 2])),
]


def shards(tier):
    items = [('node', s, p, left, m.name) for s in SHAPES[tier] for p in PREFIX for left in (True, False) for m in METHODS]
    items += [('lists', p, left) for p in PREFIX for left in (True, False)]
    items += [('index', n) for n in range(0, 4)]
    items += [('state', s, left, tier) for s in ((2, 2, 1), (3, 2, 2), (2, 3, 0), (11, 2, 1), (10, 2, 2)) for left in (True, False)]
    items += [('coll', s, left, tier) for s in ((2, 2, 1), (3, 2, 2), (2, 3, 2), (11, 2, 1)) for left in (True, False)]
    items += [('circuit',)]
    return items


def the_input(L, N, C):
    low = [v for v in ref.all_values(L, N) if sum(v) < L]
    return [ref.MS('a', 0.75, generic_vector(low, 1), tuple([0.4, 1, 2][:C])),
            ref.MS('b', 0.25, {low[-1]: 1.0 + 0j}, tuple([0, 0.9, 0][:C]))]


def outcome(c, coll, L, N, left):
    return impl.read(impl.evaluate(c, impl.collection(c, coll, L, left)), L, left)


def attempt(call):
    try:
        call()
    except Exception:
        return False
    return True


def nodes_of(c):
    return [id(x) for x in c.node_list]


def run(item, rep):
    globals()['run_' + item[0]](item, rep)


def run_node(item, rep):
    _, (L, N, C), pname, left, name = item
    m = BYNAME[name]
    prefix = PREFIX[pname]
    coll = the_input(L, N, C)
    base = ref.run_model(coll, prefix, L, THR)
    # one circuit collects all rejected attempts: it must still be the prefix afterwards
    c0 = impl.circuit(L, N, C, left, THR, False, prefix)
    before = nodes_of(c0)
    lo = 2 if m.no + m.nk <= 2 else 1
    seen_ok = {}
    for o in itertools.product(range(-lo, N + lo), repeat=m.no):
        for k in itertools.product(range(-lo, C + lo), repeat=m.nk):
            v = m.verdict(o, k, N, C)
            if v is None:
                continue
            rep.state((item[1:4], name, o, k))
            rep.step()
            case = dict(method=name, L=L, N=N, C=C, nodes_before=prefix, optical=o, classical=k)
            if v == 'reject':
                if attempt(lambda: m.call(c0, o, k)):
                    rep.violation('accepted-invalid', case, 'invalid channel numbers were accepted')
                    c0.node_list[:] = c0.node_list[:len(before)]
                elif nodes_of(c0) != before:
                    rep.violation('partly-applied', case, 'the rejected call left %d nodes instead of %d' % (len(c0.node_list), len(before)))
                    c0 = impl.circuit(L, N, C, left, THR, False, prefix)
                    before = nodes_of(c0)
                rep.trace(case)
            else:
                # one representative per pattern of channels is also evaluated; all must be accepted
                c = impl.circuit(L, N, C, left, THR, False, prefix)
                ok = attempt(lambda: m.call(c, o, k))
                if not ok:
                    rep.violation('rejected-valid', case, 'valid channel numbers were rejected')
                    continue
                if len(c.node_list) <= len(prefix):
                    rep.violation('rejected-valid', case, 'no node was added')
                with rep.guard('accepted-wrong', case):
                    model = ref.run_model(base, m.ops(o, k), L, THR)
                    diff = impl.same_collection(model, outcome(c, coll, L, N, left), 2e-4)
                    if diff:
                        rep.violation('accepted-wrong', case, diff)
                rep.trace(case)
    with rep.guard('changed-by-rejection', dict(method=name, L=L, N=N, C=C, nodes_before=prefix)):
        diff = impl.same_collection(base, outcome(c0, coll, L, N, left), 2e-4)
        if diff:
            rep.violation('changed-by-rejection', dict(method=name, L=L, N=N, C=C, nodes_before=prefix), diff)


def run_lists(item, rep):
    _, pname, left = item
    L, N, C = 2, 4, 4
    prefix = PREFIX[pname]
    coll = the_input(L, N, 3)
    coll = [m.copy(cl=m.cl + (1,)) for m in coll]
    base = ref.run_model(coll, prefix, L, THR)
    c0 = impl.circuit(L, N, C, left, THR, False, prefix)
    before = nodes_of(c0)
    jobs = [(n, (a, b), a != b, lambda c, f=f, a=a, b=b: f(c, a, b)) for n, f in LISTS for a in range(0, 5) for b in range(0, 5) if a or b]
    jobs += [(n, None, True, f) for n, f in PARAMS]
    for name, ab, bad, f in jobs:
        case = dict(method=name, lengths=ab, nodes_before=prefix)
        rep.state((pname, left, name, ab))
        rep.step()
        if bad:
            if attempt(lambda: f(c0)):
                rep.violation('accepted-invalid', case, 'lists of different lengths or invalid parameters were accepted')
                c0.node_list[:] = c0.node_list[:len(before)]
            elif nodes_of(c0) != before:
                rep.violation('partly-applied', case, 'the rejected call changed the node list')
                c0 = impl.circuit(L, N, C, left, THR, False, prefix)
                before = nodes_of(c0)
        else:
            c = impl.circuit(L, N, C, left, THR, False, prefix)
            if not attempt(lambda: f(c)) or len(c.node_list) != len(prefix) + 1:
                rep.violation('rejected-valid', case, 'lists of equal length were rejected')
        rep.trace(case)
    diff = impl.same_collection(base, outcome(c0, coll, L, N, left), 2e-4)
    if diff:
        rep.violation('changed-by-rejection', dict(nodes_before=prefix), diff)


def run_index(item, rep):
    """invalid node numbers in evaluate_circuit"""
    n = item[1]
    L, N, C = 2, 2, 1
    ops = [('mix', 0, 1), ('shift', (0,), (1,)), ('wp', 1, 0, 0.5, 1.0)][:n]
    coll = the_input(L, N, C)
    for r in (1, 2, 3):
        for idx in itertools.product(range(-2, n + 2), repeat=r):
            bad = any(not 0 <= i < n for i in idx)
            case = dict(nodes=ops, nodes_to_be_evaluated=idx)
            rep.state((n, idx))
            rep.step()
            c = impl.circuit(L, N, C, True, THR, False, ops)
            real = impl.collection(c, coll, L)
            if n == 0:
                continue
            if bad:
                if attempt(lambda: c.evaluate_circuit(collection_of_states_input=real, nodes_to_be_evaluated=list(idx))):
                    rep.violation('accepted-invalid', case, 'invalid node numbers were accepted')
                diff = impl.same_collection(coll, impl.read(real, L)) or (len(c.node_list) != n and 'node list changed')
                if diff:
                    rep.violation('changed-by-rejection', case, diff)
            else:
                with rep.guard('accepted-wrong', case):
                    model = ref.run_model(coll, [ops[i] for i in idx], L, THR)
                    diff = impl.same_collection(model, impl.read(c.evaluate_circuit(collection_of_states_input=real, nodes_to_be_evaluated=list(idx)), L), 2e-4)
                    if diff:
                        rep.violation('accepted-wrong', case, diff)
            rep.trace(case)


def bad_names(L, N, left):
    d = len(str(L - 1))
    z = '0' * d
    good = ref.name_of((1,) + (0,) * (N - 1), L, left)
    res = ['', '0', good + '0', good + z, good[:-1], 'x' * (d * N), 'a' + good[1:], good[:-1] + 'z', '-' + good[1:], '-1' + good[2:], '+' + good[1:] if d > 1 else '+' + good[1:], ' ' + good[1:], good[:-1] + ' ', good[:-1] + '.',
           None, 3, 1.5, (1,) + (0,) * (N - 1)]
    if L < 10 or L % 10:
        over = [L] + [9 if d == 1 else 99]
        for x in over:
            if x >= L and len(str(x)) <= d:
                for p in range(N):
                    v = [0] * N
                    v[p] = x
                    res.append(''.join(str(y).zfill(d) for y in v))
    if d > 1:
        res += ['1_' + good[2:], '+1' + good[2:], ' 1' + good[2:], '1 ' + good[2:]]
    return [r for n, r in enumerate(res) if r not in res[:n]]


def snap(s):
    return (s.initial_state, float(s.cumulative_probability), tuple((k, complex(v['amplitude']), float(v['probability'])) for k, v in s.optical_components.items()),
            tuple(s.classical_channel_values), repr(s.measurement_results), repr(s.auxiliary_information))


def setp(s, attr, v):
    setattr(s, attr, v)


def run_state(item, rep):
    _, (L, N, C), left, tier = item
    c = impl.circuit(L, N, C, left, THR)
    coll = fsc.CollectionOfStates(c, dict([]))
    vals = ref.all_values(L, N)
    sel = [vals[1], vals[-1], vals[len(vals) // 2]]
    sel = [v for n, v in enumerate(sel) if v not in sel[:n]]
    model = ref.MS('lab', 0.5, generic_vector(sel[:2], 1), (0.25,) * C, (((0,) * C, 0.5),))
    names = [ref.name_of(v, L, left) for v in sel]
    bads = []
    E = lambda a: {'amplitude': a, 'probability': abs(a) ** 2}
    for bn in bad_names(L, N, left):
        for n in range(len(names) + 1):
            keys = names[:n] + [bn] + names[n:]
            bads.append(('optical_components', dict((k, E(0.5)) for k in keys)))
            bads.append(('optical_components', [(k, 0.5) for k in keys]))
    for n in range(len(names)):
        for e in ({'amplitude': 0.5}, {'probability': 0.25}, {}, {'amp': 1, 'prob': 1}):
            bads.append(('optical_components', dict((k, e if i == n else E(0.5)) for i, k in enumerate(names))))
        for a in ('text', None, {}):
            bads.append(('optical_components', [(k, a if i == n else 0.5) for i, k in enumerate(names)]))
    for x in (None, 3, 'text', (1, 2), 0.5):
        bads.append(('optical_components', x))
    for n in range(0, C + 3):
        if n != C:
            bads.append(('classical_channel_values', [0.5] * n))
    for x in (None, 3, 'text', tuple([0.5] * C), {0: 1}):
        bads.append(('classical_channel_values', x))
    for x in (None, 'text', {}, (1,), 5):
        bads.append(('measurement_results', x))
    for x in (None, 'text', [], (1,), 5):
        bads.append(('auxiliary_information', x))
    for x in (-1, -0.5, -0.01, 1.01, 1.5, 2, 1e9, -1e9, 'text', None, float('nan')):
        bads.append(('cumulative_probability', x))
    # all bad assignments one after another on one state; the content must survive every one of them
    with rep.guard('state', dict(L=L, N=N)):
        s = impl.set_state(coll, model, L, left)
        want = snap(s)
        for attr, v in bads:
            case = dict(L=L, N=N, C=C, channel_0_left=left, attribute=attr, value=repr(v))
            rep.state((item[1:3], attr, repr(v)))
            rep.step()
            if attempt(lambda: setp(s, attr, v)):
                rep.violation('accepted-invalid', case, 'invalid value accepted')
                s = impl.set_state(coll, model, L, left)
                want = snap(s)
            elif snap(s) != want:
                rep.violation('changed-by-rejection', case, 'the rejected assignment changed the state to %r' % (snap(s),))
                s = impl.set_state(coll, model, L, left)
                want = snap(s)
            rep.trace(case)
        # the circuit's own list of names must not have been extended by the failed look ups
        if coll.generate_allowed_components_names_as_list_of_strings() != [ref.name_of(v, L, left) for v in vals] or list(c.basis()) != [ref.name_of(v, L, left) for v in vals]:
            rep.violation('changed-by-rejection', dict(L=L, N=N), 'rejected names changed the basis of the circuit')
        for v in vals if len(vals) < 30 else vals[::7]:
            s.optical_components = [(ref.name_of(v, L, left), 1)]
            if impl.read_state(s, L, left).c != {v: 1}:
                rep.violation('rejected-valid', dict(L=L, N=N, value=v), 'valid component not stored')
        # every valid assignment is accepted
        for cl in ([0] * C, [1.5] * C, list(range(C))):
            s.classical_channel_values = list(cl)
            if list(s.classical_channel_values) != cl:
                rep.violation('rejected-valid', dict(values=cl), 'classical values not stored')
        for p in (0, 0.25, 0.5, 1, 1.0, 1e-12):
            s.cumulative_probability = p
            if s.cumulative_probability != p:
                rep.violation('rejected-valid', dict(values=p), 'probability not stored')


def bad_states(L, N, C, left):
    """malformed dictionaries for the constructor of a state"""
    good = ref.name_of((1,) + (0,) * (N - 1), L, left)
    oc = {good: {'amplitude': 1, 'probability': 1}}
    full = dict(initial_state='a', cumulative_probability=0.5, optical_components=oc, classical_channel_values=[0.5] * C, measurement_results=[])
    out = []
    for x in (3, None, ['a'], 0.5):
        out.append(dict(full, initial_state=x))
    for x in (-0.5, 1.5, 2, -1e9, 'text', None):
        out.append(dict(full, cumulative_probability=x))
    for x in ([], None, 'text', 3, [(good, 1)]):
        out.append(dict(full, optical_components=x))
    for e in ({}, {'amplitude': 1}, {'probability': 1}, {'amplitude': 'x', 'probability': 1}, {'amplitude': 1, 'probability': 'x'}, {'amplitude': 1, 'probability': 1.5}, {'amplitude': 1, 'probability': -0.5}, 'text', None, [1, 1]):
        out.append(dict(full, optical_components={good: e}))
        out.append(dict(full, optical_components={ref.name_of((0,) * N, L, left): {'amplitude': 0.1, 'probability': 0.01}, good: e}))
    for bn in bad_names(L, N, left):
        out.append(dict(full, optical_components={good: {'amplitude': 0.5, 'probability': 0.25}, bn: {'amplitude': 0.5, 'probability': 0.25}}))
    for n in range(0, C + 3):
        if n != C:
            out.append(dict(full, classical_channel_values=[0.5] * n))
    return full, out


def csnap(x):
    return [(i, id(s), snap(s)) for i, s in x.items()]


def run_coll(item, rep):
    _, (L, N, C), left, tier = item
    c = impl.circuit(L, N, C, left, THR)
    vals = ref.all_values(L, N)
    model = [ref.MS('a', 0.5, generic_vector(vals[:3], 1), (0.25,) * C), ref.MS('b', 0.25, {vals[-1]: 1.0 + 0j}, (1,) * C), ref.MS('a', 0.25, {vals[0]: 1j}, (0,) * C)]
    full, bads = bad_states(L, N, C, left)
    with rep.guard('collection', dict(L=L, N=N)):
        x = impl.collection(c, model, L, left)
        other = impl.set_state(x, model[1], L, left)
        want = csnap(x)

        def tried(name, what, accepted, allowed=False):
            """after an attempt on the collection: not accepted and nothing changed"""
            nonlocal x, want
            case = dict(L=L, N=N, C=C, channel_0_left=left, call=name, argument=repr(what))
            rep.state((item[1:3], name, repr(what)))
            rep.step()
            if accepted and not allowed:
                rep.violation('accepted-invalid', case, 'invalid argument accepted')
            if csnap(x) != want:
                rep.violation('changed-by-rejection', case, 'collection changed to %r' % (csnap(x),))
                x = impl.collection(c, model, L, left)
                want = csnap(x)
            rep.trace(case)

        def load(d):
            return x.collection_from_dict(d)

        for b in bads:
            tried('State', b, attempt(lambda: fsc.State(x, input_state_as_a_dict=b)))
            # in every position of a dictionary with valid entries
            for n in range(3):
                d = {}
                for i in range(3):
                    d['k%d' % i] = b if i == n else (dict(full) if i % 2 else other)
                r = []
                tried('collection_from_dict', d, attempt(lambda: r.append(load(d))) and r[0] is not False)
                tried('CollectionOfStates', d, attempt(lambda: fsc.CollectionOfStates(c, d)))
        for d in ([1], 'text', 5, None, {3: other}, {'u': 5}, {'u': other, 'v': 'text'}, {'u': other, 7: other}, {'u': None}):
            r = []
            tried('collection_from_dict', d, attempt(lambda: r.append(load(d))) and r[0] is not False)
            if d is not None:
                tried('CollectionOfStates', d, attempt(lambda: fsc.CollectionOfStates(c, d)))
        if not attempt(lambda: fsc.State(x, input_state_as_a_dict=dict(full))) or not attempt(lambda: fsc.CollectionOfStates(c, {'u': dict(full), 'v': other})):
            rep.violation('rejected-valid', dict(L=L, N=N), 'valid dictionary rejected')
        # unknown identifiers and labels
        for i in ('nope', 'ID0', 'id', 'id00', '', 'id0 ', None):
            tried('delete_state', i, attempt(lambda: x.delete_state(identifier=i)), True)
            tried('delete_state(label)', i, attempt(lambda: x.delete_state(initial_state=i)), True)
            if x.get_state(identifier=i) is not None or x.get_state(initial_state=i) is not None or x[i] is not None:
                rep.violation('accepted-invalid', dict(identifier=i), 'a state was found for an unknown identifier')
            tried('get_state', i, False)
        # channel selections
        for r in (1, 2):
            for ch in itertools.product(range(-2, N + 2), repeat=r):
                if any(not 0 <= i < N for i in ch):
                    tried('reduce', ch, attempt(lambda: x.reduce(optical_channels_to_keep=list(ch))))
                    tried('reduce both', ch, attempt(lambda: x.reduce(optical_channels_to_keep=list(ch), classical_channels_to_keep=[])))
            for ch in itertools.product(range(-2, C + 2), repeat=r):
                if any(not 0 <= i < C for i in ch):
                    tried('reduce classical', ch, attempt(lambda: x.reduce(classical_channels_to_keep=list(ch))))
                    tried('reduce classical', ch, attempt(lambda: x.reduce(optical_channels_to_keep=[0, 1], classical_channels_to_keep=list(ch))))
        for e in itertools.product(range(-2, 2), repeat=2):
            if min(e) < 0:
                tried('extend', e, attempt(lambda: x.extend(extra_optical_channels=e[0], extra_classical_channels=e[1])))
        for n in range(1, L + 3):
            if n != L:
                tried('extend distribution', n, attempt(lambda: x.extend(extra_optical_channels=1, statistical_distribution=[1] + [0] * (n - 1))))
        for n in (-1, -2, -10):
            tried('adjust_length_of_fock_state', n, attempt(lambda: x.adjust_length_of_fock_state(n)))
        diff = impl.same_collection(model, impl.read(x, L, left))
        if diff or (x._length_of_fock_state, x._no_of_optical_channels, x._no_of_classical_channels) != (L, N, C):
            rep.violation('changed-by-rejection', dict(L=L, N=N, C=C), diff or 'size of the collection changed')
        if coll_names(x) != [ref.name_of(v, L, left) for v in vals] or list(c.basis()) != coll_names(x):
            rep.violation('changed-by-rejection', dict(L=L, N=N, C=C), 'rejected names changed the basis')


def coll_names(x):
    return x.generate_allowed_components_names_as_list_of_strings()


def run_circuit(item, rep):
    """sizes of a circuit around the documented minimum"""
    for L in range(-1, 4):
        for N in range(-1, 4):
            for C in range(0, 2):
                case = dict(L=L, N=N, C=C)
                rep.state((L, N, C))
                rep.step()
                ok = attempt(lambda: fsc.FockStateCircuit(length_of_fock_state=L, no_of_optical_channels=N, no_of_classical_channels=C))
                want = L >= 1 and N >= 2
                if ok != want:
                    rep.violation('accepted-invalid' if ok else 'rejected-valid', case, 'accepted=%r' % ok)
                rep.trace(case)
