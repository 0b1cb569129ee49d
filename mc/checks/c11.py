"""C11: extend, reduce and adjust_length_of_fock_state: product states, partial trace, re-labelling."""
import itertools, math
import numpy as np
import fock_state_circuit as fsc
from mc import ref, impl
from mc.common import *

LEVEL = 'model_checking'
RULE = ('state = (shape, naming, history of extend / reduce / adjust operations); every subset and order of kept channels, every number of added channels and distribution '
        'of the menu, every history up to the depth, on collections of several superposition states; results compared as weighted states, density matrices compared with '
        'an independent partial trace')
ASSUMPTIONS = ['at least two optical channels remain (the package has no smaller circuits)', 'photon numbers fit the new length', 'statistical distributions from a finite menu']

T11 = 1e-9


def colls(L, N, C, cap=None):
    vals = [v for v in ref.all_values(L, N) if cap is None or max(v) < cap]
    h = (((7,) * C, 0.5),)
    cl = lambda k: tuple(10 * k + i for i in range(C))
    few = vals if len(vals) < 30 else vals[::3]
    return [ref.MS('a', 0.5, generic_vector(few, 1), cl(1), h), ref.MS('b', 0.25, {vals[-1]: 1.0 + 0j}, cl(2)),
            ref.MS('a', 0.125, {vals[1]: 0.6 + 0j, vals[2 % len(vals)]: 0.8j}, cl(3), h + h),
            ref.MS('c', 0.0625, {vals[-1]: 0.6j, vals[-2]: -0.8 + 0j}, cl(1))]


def dists(L):
    res = [None]
    u = [0.0] * L
    u[-1] = 1.0
    res.append(tuple(u))
    w = [2.0 ** -(i + 1) for i in range(L)]
    w[-1] += 1 - sum(w)
    res.append(tuple(w))
    if L > 2:
        z = [0.0] * L
        z[0], z[-1] = 0.25, 0.75
        res.append(tuple(z))
    return res


def apply(coll, shape, op):
    L, N, C = shape
    t = op[0]
    out = []
    if t == 'ext':
        _, no, nc, dist = op
        d = dist or (1.0,) + (0.0,) * (L - 1)
        for extra in itertools.product(range(L), repeat=no):
            p = math.prod(d[x] for x in extra)
            for m in coll:
                if m.cum * p >= T11:
                    out.append(m.copy(cum=m.cum * p, c={k + extra: a for k, a in m.c.items()}, cl=m.cl + (0,) * nc))
        if no == 0 and nc == 0:
            out = coll
        return out, (L, N + no, C + nc)
    if t == 'red':
        _, ok, ck = op
        keep_o = tuple(range(N)) if ok is None else ok
        keep_c = tuple(range(C)) if ck is None else ck
        rest = [i for i in range(N) if i not in keep_o]
        for m in coll:
            groups = {}
            for k, a in m.c.items():
                groups.setdefault(tuple(k[i] for i in rest), {})[tuple(k[i] for i in keep_o)] = a
            for g in groups.values():
                p = sum(abs(a) ** 2 for a in g.values())
                out.append(m.copy(cum=m.cum * p, c={k: a / math.sqrt(p) for k, a in g.items()}, cl=tuple(m.cl[i] for i in keep_c)))
        return out, (L, len(keep_o), len(keep_c))
    if t == 'adj':
        return coll, (op[1] or L, N, C)
    raise Exception(op)


def do(x, op):
    t = op[0]
    if t == 'ext':
        if op[3] is None:
            x.extend(extra_optical_channels=op[1], extra_classical_channels=op[2])
        else:
            x.extend(extra_optical_channels=op[1], extra_classical_channels=op[2], statistical_distribution=list(op[3]))
    elif t == 'red':
        kw = {}
        if op[1] is not None:
            kw['optical_channels_to_keep'] = list(op[1])
        if op[2] is not None:
            kw['classical_channels_to_keep'] = list(op[2])
        x.reduce(**kw)
    elif t == 'adj':
        x.adjust_length_of_fock_state(op[1])


def rho(coll):
    """density matrix of the optical state per initial state, as a sparse dict"""
    d = {}
    for m in coll:
        for (k, a), (l, b) in itertools.product(m.c.items(), repeat=2):
            key = (m.init, k, l)
            d[key] = d.get(key, 0) + m.cum * a * np.conj(b)
    return d


def trace_out(r, N, keep):
    rest = [i for i in range(N) if i not in keep]
    d = {}
    for (i, k, l), v in r.items():
        if all(k[x] == l[x] for x in rest):
            key = (i, tuple(k[x] for x in keep), tuple(l[x] for x in keep))
            d[key] = d.get(key, 0) + v
    return d


def compare(rep, key, case, model, shape, left, x):
    L, N, C = shape
    got = impl.read(x, L, left)
    d = impl.same_collection(model, got, 1e-4)
    if d:
        rep.violation(key, case, d)
        return False
    names = list(x.generate_allowed_components_names_as_list_of_strings())
    if len(names) != L ** N or names[1] != ref.name_of(ref.all_values(L, N)[1], L, left) or names[-1] != ref.name_of((L - 1,) * N, L, left):
        rep.violation(key, case, 'the collection lists %d components %r..., expected the basis of %d channels of length %d' % (len(names), names[:3], N, L))
        return False
    if len(x) != len(model) or len(set(x.state_identifiers_as_list())) != len(model):
        rep.violation(key, case, 'number of states and identifiers differ')
        return False
    return True


def shapes(tier):
    q = [(2, 2, 1), (3, 2, 2), (2, 3, 2), (3, 3, 1), (2, 4, 0), (11, 2, 1)]
    return q if tier == 'quick' else q + [(3, 4, 2), (2, 5, 2), (4, 3, 3)]


def menu(shape, coll, final=False):
    """operations enabled in the history part"""
    L, N, C = shape
    ops = [('ext', 1, 0, None), ('ext', 0, 1, None), ('ext', 1, 1, dists(L)[-1]), ('adj', L + 1), ('adj', 0)]
    if L == 9:
        ops.append(('adj', 11))
    if N > 2:
        ops += [('red', tuple(range(N - 1)), None), ('red', tuple(range(1, N))[::-1], None)]
    if C > 0:
        ops += [('red', None, (C - 1,)), ('red', None, ())]
    if C > 1:
        ops += [('red', tuple(range(N))[::-1], tuple(range(C))[::-1])]
    mx = max(max(k) for m in coll for k in m.c)
    if mx + 1 < L and mx + 1 >= 2:
        ops.append(('adj', mx + 1))
    return [o for o in ops if (L + (o[0] == 'adj')) ** (N + (o[1] if o[0] == 'ext' else 0)) <= (300 if not final else 1000)]


def shards(tier):
    items = []
    for s in shapes(tier):
        for left in (True, False):
            items += [('red', s, left, tier), ('ext', s, left, tier), ('adj', s, left, tier)]
            if s[0] < 5:
                m0 = menu(s, colls(*s))
                items += [('hist', s, left, (o,), 4 if tier == 'quick' else 5) for o in m0]
    for sh in [(12, 3, 1), (12, 4, 1), (10, 3, 1)] + ([] if tier == 'quick' else [(11, 4, 2), (101, 3, 1), (13, 4, 1), (10, 4, 1)]):
        keeps = [k for n in range(2, sh[1]) for k in itertools.permutations(range(sh[1]), n)]
        if sh[0] > 100:
            keeps = keeps[::2]
        items += [('sparse', sh, left, k) for k in keeps for left in (True, False)]
    items += [('wide', n, left) for n in range(4) for left in (True, False)]
    items.append(('eval',))
    return items


def real(shape, left, coll, ids=None):
    c = impl.circuit(shape[0], shape[1], shape[2], left, T11)
    return impl.collection(c, coll, shape[0], left, ids)


def run(item, rep):
    t = item[0]
    if t == 'eval':
        return evaluate_after(rep)
    if t == 'wide':
        return wide(item[1], item[2], rep)
    s, left = item[1], item[2]
    L, N, C = s
    if t == 'sparse':
        return sparse(s, left, item[3], rep)
    coll = colls(L, N, C)
    if t == 'red':
        for n in range(2, N + 1):
            for keep in itertools.permutations(range(N), n):
                cks = [None] + [p for k in range(0, C + 1) for p in itertools.permutations(range(C), k)]
                for ck in cks if keep == tuple(sorted(keep)) else [None, cks[-1]]:
                    op = ('red', keep, ck)
                    case = dict(shape=s, channel_0_left=left, op=op)
                    rep.state((s, left, op))
                    rep.step(len(coll))
                    with rep.guard('reduce', case):
                        x = real(s, left, coll)
                        do(x, op)
                        model, sh = apply(coll, s, op)
                        if compare(rep, 'reduce', case, model, sh, left, x):
                            a, b = trace_out(rho(coll), N, keep), rho(impl.read(x, L, left))
                            if any(abs(a.get(k, 0) - b.get(k, 0)) > 1e-4 for k in a.keys() | b.keys()):
                                rep.violation('reduce', case, 'density matrix is not the partial trace')
                        rep.trace(case)
    elif t == 'ext':
        for no in range(0, 3):
            if L ** (N + no) > 1500:
                continue
            for nc in range(0, 3):
                for dist in dists(L):
                    op = ('ext', no, nc, dist)
                    case = dict(shape=s, channel_0_left=left, op=op)
                    rep.state((s, left, op))
                    rep.step(len(coll))
                    with rep.guard('extend', case):
                        x = real(s, left, coll)
                        do(x, op)
                        model, sh = apply(coll, s, op)
                        compare(rep, 'extend', case, model, sh, left, x)
                        # reduce after extend restores the weights and states (merged per added pattern)
                        x.reduce(optical_channels_to_keep=list(range(N)), classical_channels_to_keep=list(range(C)))
                        a, b = rho(coll), rho(impl.read(x, L, left))
                        if any(abs(a.get(k, 0) - b.get(k, 0)) > 1e-4 for k in a.keys() | b.keys()) or \
                                (dist is None and impl.same_collection(coll, impl.read(x, L, left))):
                            rep.violation('extend', case, 'reduce after extend does not restore the collection')
                        rep.trace(case)
    elif t == 'adj':
        for L2 in [0] + list(range(2, L + 3)) + [10, 11, 12]:
            for cap in (None, 2):
                coll2 = colls(L, N, C, cap)
                if (L2 or L) ** N > 1500 or max(max(k) for m in coll2 for k in m.c) >= (L2 or L):
                    continue
                op = ('adj', L2)
                case = dict(shape=s, channel_0_left=left, op=op)
                rep.state((s, left, op, cap))
                rep.step(len(coll2))
                with rep.guard('adjust', case):
                    ids = ['n%d' % i for i in range(len(coll2))]
                    x = real(s, left, coll2, ids)
                    do(x, op)
                    model, sh = apply(coll2, s, op)
                    if compare(rep, 'adjust', case, model, sh, left, x):
                        for i, m in zip(ids, model):
                            if not impl.same_state(m, impl.read_state(x.get_state(identifier=i), sh[0], left)):
                                rep.violation('adjust', case, 'identifier %s got another state' % i)
                    rep.trace(case)
    else:
        _, s, left, pre, depth = item

        def rec(hist, model, shape):
            case = dict(shape=s, channel_0_left=left, history=hist)
            rep.state((s, left, hist))
            rep.step()
            ok = False
            with rep.guard('history', case):
                x = real(s, left, coll)
                for op in hist:
                    do(x, op)
                ok = compare(rep, 'history', case, model, shape, left, x)
                rep.trace(case)
            if not ok or len(hist) >= depth or rep.nviol > 10:
                return
            for op in menu(shape, model):
                m2, s2 = apply(model, shape, op)
                if len(m2) <= 60:
                    rec(hist + (op,), m2, s2)
        m, sh = apply(coll, s, pre[0])
        rec(pre, m, sh)


def sparse(s, left, keep, rep):
    """photon numbers with several digits: superpositions of all pairs of patterns that are alike when their digits are joined"""
    L, N, C = s
    hi = [x for x in (1, 10, 11, 12, 100) if x < L] + [0]
    hi = hi[-4:]
    pats = [p for p in itertools.product(hi, repeat=N)]
    groups = {}
    for p in pats:
        groups.setdefault(tuple(p[i] for i in keep), []).append(p)
    # one superposition over all patterns, and one per pattern of the kept channels
    coll = [ref.MS('all', 0.5, generic_vector(pats, 1), tuple(range(C)))] + [ref.MS('g%d' % n, 0.25, generic_vector(g, n), tuple(range(C))) for n, g in enumerate(groups.values())]
    op = ('red', keep, None)
    case = dict(shape=s, channel_0_left=left, op=op)
    rep.state((s, left, op, 'sparse'))
    rep.step(len(coll))
    with rep.guard('reduce', case):
        x = real(s, left, coll)
        do(x, op)
        model, sh = apply(coll, s, op)
        got = impl.read(x, L, left)
        if len(got) != len(model):
            rep.violation('reduce', case, '%d states, expected %d' % (len(got), len(model)))
        else:
            for lab in sorted({m.init for m in model}):
                d = impl.same_collection([m for m in model if m.init == lab], [m for m in got if m.init == lab], 1e-4)
                if d:
                    rep.violation('reduce', case, d)
                    break
        rep.trace(case)


def wide(n, left, rep):
    """channel numbers with two digits"""
    L, N, C = 2, WIDE, WIDE
    r = tuple(range(N))
    ops = [[('red', p, q)] for p, q in itertools.product([r[::-1], (10, 2), (2, 10), (1, 0, 10), r[:1] + r[2:], r[1:], r[:-1], (9, 10, 1, 0, 2)], [None, (10, 2), (2, 10), r[::-1], r[1:]])]
    ops += [[('ext', 1, 2, None)], [('ext', 0, 3, None), ('red', (10, 0), (13, 1, 10))], [('ext', 1, 1, (0.25, 0.75)), ('red', (11, 0, 10), (11, 2))]]
    for hist in ops[n::4]:
        case = dict(shape=(L, N, C), channel_0_left=left, history=hist)
        rep.state(((L, N, C), left, tuple(hist)))
        rep.step(len(hist))
        with rep.guard('wide', case):
            coll = wide_collection(N, C)
            x = real((L, N, C), left, coll)
            model, sh = coll, (L, N, C)
            for op in hist:
                do(x, op)
                model, sh = apply(model, sh, op)
            compare(rep, 'wide', case, model, sh, left, x)
            rep.trace(case)


def evaluate_after(rep):
    """a reshaped collection is a valid input of a circuit of that shape"""
    progs = [[('mix', 0, 1)], [('meas', (0, 1), (1, 0))], [('wp', 1, 0, 0.4, 1.1), ('setc', (5,), (1,)), ('meas', (1,), (0,))], [('cshift', (1,), (0,))]]
    for left in (True, False):
        for s in [(2, 2, 1), (3, 3, 0), (3, 2, 2), (2, 4, 3)]:
            coll = colls(*s)
            for op in [('ext', 1, 2, None), ('red', (1, 0), None), ('adj', s[0] + 1), ('ext', 0, 2, None), ('ext', 1, 2, dists(s[0])[-1])]:
                model, sh = apply(coll, s, op)
                if sh[2] < 2:
                    model, sh = apply(model, sh, ('ext', 0, 2, None))
                for prog in progs:
                    case = dict(shape=s, op=op, channel_0_left=left, program=prog)
                    rep.state((s, op, left, repr(prog)))
                    rep.step(len(model))
                    with rep.guard('evaluate-reshaped', case):
                        x = real(s, left, coll)
                        do(x, op)
                        if x._no_of_classical_channels < sh[2]:
                            do(x, ('ext', 0, 2, None))
                        c = impl.circuit(sh[0], sh[1], sh[2], left, T11, False, prog)
                        d = impl.same_collection(ref.run_model(model, prog, sh[0], T11), impl.read(impl.evaluate(c, x), sh[0], left), 3e-4)
                        if d:
                            rep.violation('evaluate-reshaped', case, d)
                        rep.trace(case)
