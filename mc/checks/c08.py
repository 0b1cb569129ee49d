"""C08: classical nodes and classically controlled optical nodes act per state, on their channels, at their moment."""
import itertools, math
import fock_state_circuit as fsc
from mc import ref, impl
from mc.common import *

LEVEL = 'model_checking'
RULE = ('state = (circuit size, naming, node or program, collection of states with different classical values); all channel lists of the classical nodes, all '
        'channel choices of the controlled nodes for a menu of control values, all feed-forward programs up to the depth; compared with the reference model, '
        'controlled time delays with the ordinary time delay given the same value')
ASSUMPTIONS = ['control values from a finite menu of angles', 'user functions return a list of the right length']

VALUES = [0, 0.4, 1, 2, -0.7, math.pi, math.pi / 2, 2.5, 7]


def coll(L, N, C, k=0):
    vals = ref.all_values(L, N)
    v = lambda s: tuple(VALUES[(s + 2 * i + i * i) % len(VALUES)] for i in range(C))
    h = (((0.5,) * C, 0.25),)
    return [ref.MS('a', 0.5, generic_vector(vals, k), v(k)), ref.MS('b', 0.25, {vals[-1]: 0.6 + 0j, vals[1]: 0.8j}, v(k + 1), h),
            ref.MS('a', 0.25, {vals[L]: 1.0 + 0j}, v(k + 5)), ref.MS('c', 0.125, {vals[L + 1]: 0.6 + 0j, vals[2 % len(vals)]: 0.8j}, v(k + 3), h + h)]


ALPHA = [('setc', (0.4,), (0,)), ('setc', (2, 0.3), (1, 0)), ('cfun', 'half_pi', (0,), (1,)), ('cfun', 'reverse', (), ()), ('cfun', 'add', (0.25,), (1,)),
         ('meas', (0,), (0,)), ('meas', (1, 0), (0, 1)), ('psc', 1, 0), ('psc', 0, 1), ('wpc', 0, 1, 0, 1), ('wpc', 1, 0, 1, 1), ('wphc', 1, 0, 0, 1), ('mix', 0, 1), ('shift', (1,), (1,))]


def shards(tier):
    q = tier == 'quick'
    items = []
    for C in (1, 2, 3, 4) + (() if q else (5, 6)):
        items.append(('setc', C))
        items.append(('cfun', C))
    for L, N, C in ((2, 2, 1), (3, 2, 2), (2, 3, 3), (4, 2, 2), (3, 3, 2), (11, 2, 1)) + (() if q else ((3, 3, 4), (2, 4, 3), (5, 2, 3), (3, 4, 2))):
        for left in (True, False):
            for full in (False, True):
                if full and L > 4:
                    continue
                for k in range(3 if q else 9):
                    items.append(('ctrl', L, N, C, left, full, k))
    for a in ALPHA:
        for b in ALPHA:
            items.append(('prog', 3 if q else 4, True, (a, b)))
        items.append(('prog', 2 if q else 3, False, (a,)))
    for kind in ('quick', 'full'):
        for prog in range(len(DELAYS)):
            items.append(('delay', kind, prog))
    items += [('wide', left, p) for left in (True, False) for p in wide_pairs(WIDE + 1)]
    return items


DELAYS = [[('mix', 0, 1)], [('wp', 0, 1, 0.4, 1.1)], [('mix', 0, 1), ('mix', 1, 0)], []]


def run(item, rep):
    t = item[0]
    if t == 'setc':
        C = item[1]
        L, N = 2, 2
        for left in (True, False):
            for n in range(1, C + 1):
                for ch in itertools.permutations(range(C), n):
                    for base in (0, 10):
                        ops = [('setc', tuple(base + 1 + i for i in range(n)), ch)]
                        rep.state((C, left, tuple(ops)))
                        compare_run(rep, L, N, C, left, ops, coll(L, N, C), 'set-classical', ids=['s%d' % i for i in range(4)], sample=True)
                    # a later node overrides an earlier one
                    ops = [('setc', tuple(1 + i for i in range(n)), ch), ('setc', (99,), (ch[-1],)), ('cfun', 'reverse', (), ())]
                    rep.state((C, left, tuple(ops)))
                    compare_run(rep, L, N, C, left, ops, coll(L, N, C, 1), 'set-classical')
            # the same channel twice: last value wins
            compare_run(rep, L, N, C, left, [('setc', (5, 6), (C - 1, C - 1))], coll(L, N, C), 'set-classical')
    elif t == 'cfun':
        C = item[1]
        L, N = 2, 2
        for name in ref.CLASSICAL_FUNCS:
            if name == 'copy01' and C < 2:
                continue
            for n in range(0, C + 1):
                for aff in itertools.permutations(range(C), n):
                    if name == 'half_pi' and not aff:
                        continue
                    ops = [('cfun', name, tuple(0.5 * (i + 1) for i in range(n)), aff)]
                    rep.state((C, tuple(ops)))
                    compare_run(rep, L, N, C, True, ops, coll(L, N, C), 'classical-function', sample=True)
        # the function is called exactly once per state with the values of that state, the new values and the channels
        for n in range(0, C + 1):
            for aff in itertools.permutations(range(C), n):
                calls = []
                new = [10 + i for i in range(n)]

                def f(cur, nv, ac):
                    calls.append((tuple(cur), tuple(nv), tuple(ac)))
                    return [x + 100 for x in cur]
                m = coll(L, N, C)
                case = dict(C=C, affected=aff)
                rep.state(('calls', C, aff))
                rep.step(len(m))
                with rep.guard('classical-function-calls', case):
                    c = impl.circuit(L, N, C)
                    c.classical_channel_function(f, affected_channels=list(aff), new_input_values=list(new))
                    out = impl.read(impl.evaluate(c, impl.collection(c, m, L)), L)
                    if sorted(calls) != sorted((x.cl, tuple(new), aff) for x in m):
                        rep.violation('classical-function-calls', case, calls)
                    d = impl.same_collection([x.copy(cl=tuple(y + 100 for y in x.cl)) for x in m], out)
                    if d:
                        rep.violation('classical-function-calls', case, d)
                    rep.trace()
    elif t == 'wide':
        _, left, (a, b) = item
        L, N, C = 2, 3, WIDE + 1
        vals = ref.all_values(L, N)
        m = [ref.MS('x%d' % k, 0.25, generic_vector(vals[:4], k), tuple(round(0.3 * i + 0.1 * k, 3) for i in range(C))) for k in range(3)]
        for op in [('setc', (7, 8), (a, b)), ('cfun', 'add', (0.5, 1.5), (a, b)), ('cfun', 'half_pi', (), (a,)), ('psc', 1, a), ('wpc', 1, 0, a, b), ('wpc', 0, 2, b, a), ('wphc', 2, 0, a, b)]:
            for prog in ([op], [('meas', (0, 2), (b, a)), op], [('setc', (0.6, 1.3), (b, a)), op]):
                rep.state((item, op, len(prog)))
                compare_run(rep, L, N, C, left, prog, m, 'wide', sample=True)
        if a != 1 and b != 1:
            # two digits on the side of the optical channels
            N = WIDE
            for op in [('psc', min(a, N - 1), b), ('wpc', min(a, N - 1), 1, a, b)]:
                rep.state((item, op))
                compare_run(rep, L, N, C, left, [op], wide_collection(N, C)[-4:], 'wide', sample=True)
    elif t == 'ctrl':
        _, L, N, C, left, full, k = item
        m = coll(L, N, C, k)
        ids = ['s%d' % i for i in range(len(m))]
        for o in range(N):
            for cc in range(C):
                rep.state((item, 'psc', o, cc))
                compare_run(rep, L, N, C, left, [('psc', o, cc)], m, 'controlled-phase', full=full, ids=ids, sample=True)
        for i, j in ordered_pairs(N):
            for c1, c2 in itertools.product(range(C), repeat=2):
                rep.state((item, 'wpc', i, j, c1, c2))
                compare_run(rep, L, N, C, left, [('wpc', i, j, c1, c2)], m, 'controlled-wave-plate', full=full, ids=ids, tol=2e-4)
                if L <= 4 and not full:
                    compare_run(rep, L, N, C, left, [('wphc', i, j, c1, c2)], m, 'controlled-hamiltonian-wave-plate', full=full, tol=1e-3)
    elif t == 'prog':
        _, depth, left, pre = item
        L, N, C = 3, 2, 2
        for k in (0, 4) if depth == 3 else (0,):
            m = coll(L, N, C, k)
            for rest in itertools.product(ALPHA, repeat=depth - len(pre)):
                prog = pre + rest
                if not any(o[0] in ('setc', 'cfun', 'psc', 'wpc', 'wphc') for o in prog):
                    continue
                rep.state((left, prog, k))
                compare_run(rep, L, N, C, left, prog, m, 'feed-forward', sample=True, tol=1e-3)
                if rep.nviol > 30:
                    return
    else:
        delay_check(item, rep)


def delay_circuit(kind, control, value, width, prog, L, N, C, left, ch):
    c = impl.circuit(L, N, C, left)
    if kind == 'quick':
        if control:
            c.time_delay_classical_control([ch], 1, width)
        else:
            c.time_delay([ch], value, width)
    else:
        if control:
            c.time_delay_classical_control_full([ch], 1, width)
        else:
            c.time_delay_full([ch], value, width)
    for op in prog:
        impl.add(c, op, L, N)
    c.measure_optical_to_classical([0, 1], [0, 2])
    return c


def outcomes(coll):
    d = {}
    for s in coll:
        k = (s.initial_state, tuple(s.classical_channel_values))
        d[k] = d.get(k, 0) + float(s.cumulative_probability)
    return d


def delay_check(item, rep):
    """each state is delayed by the value in its own classical channel"""
    _, kind, n = item
    prog = DELAYS[n]
    L, N, C = 3, 2, 3
    inputs = [(1, 1), (2, 0), (0, 1)]
    for left in (True, False):
        for ch in (0, 1):
            for values in itertools.product((0, 0.3, 1, 40), repeat=2):
                for inp in itertools.product(inputs, repeat=2):
                    case = dict(kind=kind, prog=prog, delayed_channel=ch, delays=values, inputs=inp, channel_0_left=left)
                    rep.state((item, left, ch, values, inp))
                    rep.step(2)
                    with rep.guard('controlled-delay', case):
                        ms = [ref.MS('s%d' % i, 0.5, {inp[i]: 1.0 + 0j}, (7, values[i], 9)) for i in range(2)]
                        c = delay_circuit(kind, True, None, 1.0, prog, L, N, C, left, ch)
                        got = outcomes(impl.evaluate(c, impl.collection(c, ms, L, left)))
                        want = {}
                        for i in range(2):
                            d = delay_circuit(kind, False, values[i], 1.0, prog, L, N, C, left, ch)
                            for k, v in outcomes(impl.evaluate(d, impl.collection(d, ms[i:i + 1], L, left))).items():
                                want[k] = want.get(k, 0) + v
                        for k in got.keys() | want.keys():
                            if abs(got.get(k, 0) - want.get(k, 0)) > 1e-3:
                                rep.violation('controlled-delay', case, 'outcome %s: with control %r, with the same value in an ordinary time delay %r' % (k, got.get(k, 0), want.get(k, 0)))
                                break
                        rep.trace(case)
                    if rep.nviol > 20:
                        return
