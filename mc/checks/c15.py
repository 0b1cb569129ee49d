"""C15: time delays interpolate between interference and distinguishability (partial-distinguishability model)."""
import itertools
import fock_state_circuit as fsc
from mc import ref, impl
from mc.common import *

LEVEL = 'model_checking'
RULE = ('state = (program of mixers, wave plates, delays and pulse widths, input, measured channels); every program of the alphabet up to the depth is executed and the histogram of the measurement is compared with a '
        'first-quantised model: every photon carries a channel and a wave packet, detection probabilities are sums over pairs of histories of the permanent of wave packet overlaps')
ASSUMPTIONS = ['statistics are read with plot(), the documented way for photon resolved collections', 'at most one quick delay per program (documented restriction of the quick gate)',
               'all photons fit in the photon limit', 'programs that mix pulse widths and become non-physical (documented) are skipped and counted', 'delays and pulse widths from a finite menu']

LN2 = math.log(2)


def overlap(a, b):
    if a == b:
        return 1.0
    if isinstance(a, str) or isinstance(b, str):
        return 0.0      # the two halves separated by a quick delay
    return math.exp(-LN2 * (a[0] - b[0]) ** 2 / (a[1] ** 2 + b[1] ** 2))


def monomials(c):
    """Fock components -> products of creation operators; every photon is (channel, wave packet)"""
    out = {}
    for k, a in c.items():
        f = 1
        for n in k:
            f *= math.factorial(n)
        out[tuple((ch, (0.0, 1.0)) for ch, n in enumerate(k) for _ in range(n))] = complex(a) / math.sqrt(f)
    return out


def substitute(poly, i, j, M):
    out = {}
    for mono, a in poly.items():
        cur = [((), a)]
        for ch, lab in mono:
            if ch not in (i, j):
                cur = [(m + ((ch, lab),), x) for m, x in cur]
            else:
                row = M[0] if ch == i else M[1]
                cur = [(m + ((t, lab),), x * f) for m, x in cur for t, f in ((i, row[0]), (j, row[1])) if abs(f) > 1e-14]
        for m, x in cur:
            m = tuple(sorted(m, key=repr))
            out[m] = out.get(m, 0) + x
    return {m: x for m, x in out.items() if abs(x) > 1e-13}


def relabel(poly, f):
    out = {}
    for mono, a in poly.items():
        m = tuple(sorted(((ch, f(ch, lab)) for ch, lab in mono), key=repr))
        out[m] = out.get(m, 0) + a
    return out


def distribution(poly, N):
    groups = {}
    for mono, a in poly.items():
        occ = tuple(sum(1 for ch, _ in mono if ch == c) for c in range(N))
        groups.setdefault(occ, []).append((mono, a))
    res = {}
    for occ, ms in groups.items():
        tot = 0
        for m1, a1 in ms:
            for m2, a2 in ms:
                x = 1
                for c in range(N):
                    l1 = [l for ch, l in m1 if ch == c]
                    l2 = [l for ch, l in m2 if ch == c]
                    x *= ref.permanent([[overlap(p, q) for q in l2] for p in l1])
                tot += a1.conjugate() * a2 * x
        res[occ] = tot.real
    return res


def model(ops, m, N):
    """list of (weight, polynomial)"""
    mix = [(m.cum, monomials(m.c))]
    for op in ops:
        els = ref.optical_elements(op)
        t = op[0]
        if els is not None:
            for i, j, M in els:
                mix = [(w, substitute(p, i, j, M)) for w, p in mix]
        elif t in ('full', 'fullc'):
            d = op[2] if t == 'full' else m.cl[op[2]]
            mix = [(w, relabel(p, lambda ch, l: ((l[0] - d) if ch in op[1] else l[0], op[3] if op[3] is not None else l[1]))) for w, p in mix]
        elif t == 'width':
            mix = [(w, relabel(p, lambda ch, l: (l[0], op[2]) if ch in op[1] else l)) for w, p in mix]
        elif t in ('quick', 'quickc'):
            d = op[2] if t == 'quick' else m.cl[op[2]]
            g = math.exp(-LN2 * (d / op[3]) ** 2)
            mix = [(w * g, p) for w, p in mix] + [(w * (1 - g), relabel(p, lambda ch, l: 'ahead' if ch in op[1] else 'behind')) for w, p in mix]
    return mix


def build(L, N, left, ops, measured):
    c = impl.circuit(L, N, N + 1, left, THR)
    for op in ops:
        t = op[0]
        if t == 'full':
            c.time_delay_full(affected_channels=list(op[1]), delay=op[2], pulse_width=op[3])
        elif t == 'fullc':
            c.time_delay_classical_control_full(affected_channels=list(op[1]), classical_channel_for_delay=op[2], pulse_width=op[3])
        elif t == 'quick':
            if op[1][0] % 2:
                c.time_delay(affected_channels=list(op[1]), delay=op[2], bandwidth=1 / op[3])
            else:
                c.time_delay(affected_channels=list(op[1]), delay=op[2], pulse_width=op[3])
        elif t == 'quickc':
            c.time_delay_classical_control(affected_channels=list(op[1]), classical_channel_for_delay=op[2], pulse_width=op[3])
        elif t == 'width':
            c.set_pulse_width(None if len(op[1]) == N and sum(op[1]) % 2 else list(op[1]), op[2])
        else:
            impl.add(c, op, L, N)
    c.measure_optical_to_classical(list(measured), list(range(len(measured))))
    return c


def check(rep, L, N, left, ops, coll, measured):
    case = dict(L=L, N=N, channel_0_left=left, program=ops, measured=measured, input=[impl.show(m) for m in coll])
    rep.state((L, N, left, repr(ops), tuple(repr(m.key()) for m in coll), measured))
    rep.step(len(ops) * len(coll))
    want = {}
    for m in coll:
        d = want.setdefault(m.init, {})
        for w, p in model(ops, m, N):
            for occ, x in distribution(p, N).items():
                if x < -1e-9:
                    rep.count('skipped_nonphysical')    # documented: different pulse widths can give non-physical results
                    return
                o = tuple(occ[c] for c in measured)
                d[o] = d.get(o, 0) + w * x
    with rep.guard('delay', case):
        c = build(L, N, left, ops, measured)
        out = c.evaluate_circuit(impl.collection(c, coll, L, left))
        got = {}
        for init, lst in out.plot(classical_channels=list(range(len(measured))), histo_output_instead_of_plot=True).items():
            got[init] = {}
            for o in lst:
                key = ref.values_of(o['output_state'], L, left)
                if key in got[init]:
                    rep.violation('delay', case, 'outcome %r listed twice' % (key,))
                got[init][key] = complex(o['probability'])
        if set(got) != set(want):
            rep.violation('delay', case, 'initial states %r, expected %r' % (sorted(got), sorted(want)))
        for init in want:
            for o in set(want[init]) | set(got.get(init, {})):
                x, y = got.get(init, {}).get(o, 0), want[init].get(o, 0)
                if abs(x - y) > 2e-4 or complex(x).real < -1e-9 or abs(complex(x).imag) > 1e-9:
                    rep.violation('delay', case, 'outcome %r of %r has probability %r, expected %.5f' % (o, init, x, y))
                    return
        for s in out:
            h = s.measurement_results[-1]
            cl = list(s.classical_channel_values)
            if list(h['measurement_results']) != cl or not -1e-9 <= h['probability'] <= 1 + 1e-4:
                rep.violation('delay', case, 'history entry %r of a state with classical values %r' % (h, cl))
                return
        rep.trace(case)


R = 2 ** -0.5
IN2 = [{(1, 1): 1.0 + 0j}, {(2, 0): 1.0 + 0j}, {(0, 1): 1.0 + 0j}, {(1, 0): 0.6 + 0j, (0, 1): 0.8j}, {(2, 0): R + 0j, (0, 2): -R + 0j}, {(1, 1): R + 0j, (0, 2): 1j * R}, {(0, 0): 0.8 + 0j, (1, 1): 0.6 + 0j}]
IN2B = [{(2, 1): 1.0 + 0j}, {(1, 2): 0.6 + 0j, (1, 1): 0.8 + 0j}]
IN3 = [{(1, 1, 0): 1.0 + 0j}, {(1, 0, 1): R + 0j, (0, 1, 1): R + 0j}, {(0, 2, 0): 1.0 + 0j}, {(1, 0, 0): 0.6 + 0j, (0, 0, 1): 0.8j}]
IN3B = [{(1, 1, 1): 1.0 + 0j}]

A2 = [('mix', 0, 1), ('wp', 1, 0, 0.3, 1.1), ('full', (0,), 0.7, 1.0), ('full', (1,), 0.7, 1.0), ('full', (0, 1), -0.4, 1.5), ('ps', 0, 0.9), ('fullc', (1,), 2, 1.0), ('full', (0,), 12.0, 0.5), ('quick', (0,), 0.6, 1.2)]
A3 = [('mix', 0, 1), ('mix', 2, 1), ('full', (0,), 0.7, 1.0), ('full', (1, 2), 0.7, 1.0), ('full', (2,), -1.1, 2.0), ('quick', (2, 0), 0.6, 1.2), ('full', (1,), 0.0, None)]
AW = [('mix', 0, 1), ('width', (0, 1), 2.0), ('width', (1,), 0.5), ('full', (0,), 0.7, None), ('full', (1,), -0.3, 0.8), ('width', (), 3.0)]
AQ = [('quick', (0,), 0.0, 1.0), ('quick', (1,), 0.5, 1.0), ('quick', (0, 1), 0.5, 1.0), ('quickc', (0,), 2, 0.7), ('quickc', (1,), 2, 1.0), ('quick', (1,), 30.0, 1.0), ('quick', (0,), -0.5, 2.0)]
# delays from far below to far above the pulse width: what counts is only the difference between photons
D = [0.0, 0.8, 30.0, 99.5, 100.0, 100.9, 150.0, 150.6, 1e3, 1e3 + 0.5, 1e6, 1e6 + 0.75, -0.8, -30.0, -100.0, -100.7, -150.0, -1e3, -1e6]
PRE = [[], [('mix', 0, 1)], [('wp', 0, 1, 0.3, 1.1)], [('mix', 0, 1), ('ps', 1, 0.9)], [('mix', 0, 1), ('mix', 1, 0)]]


def coll_of(cs, n=0):
    out = []
    for i, c in enumerate(cs):
        N = len(next(iter(c)))
        cl = [0] * (N + 1)
        if N == 2:
            cl[2] = (0.7, -0.3, 0.0, 2.0)[(i + n) % 4]
        out.append(ref.MS('in%d' % i, (1.0, 0.5, 0.25)[(i + n) % 3], c, cl))
    return out


def has_width(ops):
    """pulse widths are defined before they are used by a delay that keeps them"""
    seen = False
    for op in ops:
        if op[0] == 'full' and op[3] is None and not seen:
            return False
        if op[0] in ('full', 'width') and len(op[1]):
            seen = True
    return True


def shards(tier):
    q = tier == 'quick'
    items = []
    for a in range(len(A2)):
        for b in range(len(A2)):
            items.append(('p2', a, b, 3 if q else 4, tier))
    items += [('p3', a, b, 3 if q else 4, tier) for a in range(len(A3)) for b in range(len(A3))]
    items += [('w', a, b, 4 if q else 5, tier) for a in range(len(AW)) for b in range(len(AW))]
    items += [('range', a, tier) for a in range(len(D))]
    items += [('q', a, b, tier) for a in range(len(AQ)) for b in range(len(PRE))]
    return items


def ok(ops):
    k = sum(1 for o in ops if o[0] in ('quick', 'quickc'))
    return k <= 1 and not (k and any(o[0] in ('full', 'fullc', 'width') for o in ops)) and has_width(ops)


def run(item, rep):
    kind, tier = item[0], item[-1]
    if kind == 'range':
        a = D[item[1]]
        for b in D:
            for split in (False, True):
                ops = [('full', (0,), a, 1.0), ('full', (1,), b, 1.0)]
                if split:
                    # the same delays in two steps that pass through large values
                    ops = [('full', (0, 1), 250.0, 1.0), ('full', (0,), a - 125.0, 1.0), ('full', (1,), b - 250.0, 1.0), ('full', (0,), -125.0, 1.0)]
                check(rep, 3, 2, True, ops + [('mix', 0, 1)], coll_of(IN2[:4]), (0, 1))
            check(rep, 3, 2, False, [('full', (0,), a, 1.0), ('mix', 0, 1), ('full', (1,), b, 1.0), ('mix', 1, 0)], coll_of(IN2[:4]), (1, 0))
            if rep.nviol > 5:
                return
        return
    if kind == 'q':
        for post in PRE:
            ops = PRE[item[2]] + [AQ[item[1]]] + post
            for left in (True, False):
                for measured in ((0, 1), (1, 0), (1,)):
                    check(rep, 3, 2, left, ops, coll_of(IN2), measured)
                    check(rep, 4, 2, left, ops, coll_of(IN2B, 1), measured)
        return
    A, ins, big, N = {'p2': (A2, IN2, IN2B, 2), 'p3': (A3, IN3, IN3B, 3), 'w': (AW, IN2[:5], IN2B[:1], 2)}[kind]
    depth = item[3]
    for d in range(2, depth + 1):
        for rest in itertools.product(A, repeat=d - 2):
            ops = [A[item[1]], A[item[2]]] + list(rest)
            if not ok(ops):
                continue
            left = (item[1] + item[2] + d) % 2 == 0
            ms = [tuple(range(N))] if d > 2 else [tuple(range(N)), tuple(range(N))[::-1], (N - 1,), (0,)]
            for measured in ms:
                check(rep, 3, N, left, ops, coll_of(ins, d), measured)
                if d <= 3:
                    check(rep, 4, N, not left, ops, coll_of(big, d), measured)
            if rep.nviol > 5:
                return
