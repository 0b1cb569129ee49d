"""C01: every circuit of optical elements up to a depth against permanents of the product of the element matrices."""
import itertools, math, functools
import numpy as np
from mc import ref, impl
from mc.common import *

LEVEL = 'model_checking'
RULE = ('state = (circuit size, naming, sequence of elements, input basis state); all sequences over the alphabet up to the depth, all inputs with at most '
        'length-1 photons, compared with permanents; plus one superposition over all these inputs')
ASSUMPTIONS = ['element parameters are taken from a finite menu of generic values', 'amplitudes are compared within 1e-4 (single precision matrices in the code)',
               'components with probability below 1e-10 may be dropped']


def alphabet(N, size):
    res = []
    for a, b in ordered_pairs(N):
        res += [('wp', a, b, 0.4, 1.1), ('mix', a, b)]
        if size > 0:
            res += [('mixg', a, b, 0.3), ('custom', a, b, ((0.6, 0.8j), (0.8j, 0.6)))]
        if size > 1:
            res += [('custom', a, b, ((0.6, -0.8), (0.8, 0.6))), ('hwp', a, b, 0.7), ('qwp225', a, b)]
        if a < b:
            res += [('swap', a, b)]
    res += [('ps', a, 0.9 + a) for a in range(N)]
    if N >= 4:
        res += [('pbs', (0, 1), (2, 3)), ('pbs', (3, 0), (1, 2)), ('npbs50', (0, 1), (2, 3)), ('npbs50', (2, 1), (0, 3)), ('npbs', (3, 2), (1, 0), 0.3)]
    return res


CONF = {  # (L, N, left, depth, alphabet size, first optical node is on ...)
    'quick': [(2, 2, True, 3, 2), (3, 2, True, 3, 1), (4, 2, False, 3, 0), (5, 2, True, 2, 2), (7, 2, False, 2, 0),
              (3, 3, True, 2, 2), (3, 3, False, 2, 1), (4, 3, True, 2, 1), (3, 3, False, 3, 0), (5, 3, False, 1, 2),
              (3, 4, True, 2, 0), (3, 4, False, 2, 0), (4, 4, True, 1, 2), (3, 5, False, 1, 2), (2, 6, True, 1, 1), (11, 2, True, 1, 1), (11, 2, False, 1, 1)],
    'thorough': [(2, 2, True, 4, 1), (3, 2, False, 3, 2), (4, 2, True, 3, 2), (4, 2, False, 3, 1), (5, 2, True, 3, 1), (7, 2, False, 2, 2), (9, 2, True, 2, 1),
                 (3, 3, True, 3, 1), (3, 3, False, 3, 1), (4, 3, True, 2, 2), (4, 3, False, 2, 2), (5, 3, False, 2, 1), (3, 3, True, 4, 0),
                 (3, 4, True, 2, 2), (3, 4, False, 2, 2), (4, 4, True, 2, 1), (4, 4, False, 2, 0), (5, 4, True, 1, 2), (3, 5, False, 2, 1), (3, 5, True, 2, 0), (2, 6, True, 2, 1),
                 (3, 6, True, 1, 2), (11, 2, True, 2, 1), (11, 2, False, 2, 1), (12, 3, True, 1, 0)],
}


def shards(tier):
    items = []
    for conf in CONF[tier] if tier == 'quick' else CONF['quick'] + CONF['thorough']:
        L, N, left, depth, size = conf
        al = alphabet(N, size)
        if L >= 11 and N > 2:
            al = al[:2] + al[-1:]
            items += [(conf, (op,)) for op in al]
            continue
        if depth == 1:
            items += [(conf, tuple(al[i::8])) for i in range(8)]
        else:
            items += [(conf, (op,)) for op in al]
    items.sort(key=lambda i: -len(alphabet(i[0][1], i[0][4])) ** i[0][3])
    return items


def element_unitary(op, N):
    U = np.identity(N, dtype=complex)
    for i, j, M in ref.optical_elements(op):
        U = U @ ref.embed(M, i, j, N)
    return U


def inputs(L, N):
    return [v for v in (ref.all_values(L, N) if L ** N <= 5000 else
                        [w for w in itertools.product(range(4), repeat=N)]) if sum(v) <= min(L - 1, 6 if N == 2 else 4 if N < 5 else 2)]


def predict(U, ins):
    outs = {}
    for v in ins:
        outs.setdefault(sum(v), []).append(v)
    res = {}
    for v in ins:
        res[v] = {}
        for w in outs[sum(v)]:
            a = ref.perm_amplitude(U, v, w)
            if abs(a) > 1e-9:
                res[v][w] = complex(a)
    return res


def run(item, rep):
    conf, firsts = item
    L, N, left, depth, size = conf
    al = alphabet(N, size)
    ins = inputs(L, N)
    coll = [ref.MS(ref.name_of(v, L, left), 1.0, {v: 1.0 + 0j}, ()) for v in ins]
    sup = generic_vector(ins)
    coll.append(ref.MS('sup', 1.0, sup, ()))
    mats = {op: element_unitary(op, N) for op in al}
    for op in firsts:
        mats[op] = element_unitary(op, N)
    for first in firsts:
        for d in range(1, depth + 1):
            for rest in itertools.product(al, repeat=d - 1):
                if d < depth and rest and rest[-1] not in al[:3]:
                    continue    # shorter programs are prefixes; only a few of them are evaluated separately
                ops = (first,) + rest
                U = functools.reduce(lambda x, y: x @ y, [mats[o] for o in ops])
                pred = predict(U, ins)
                model = [m.copy(c=pred[v]) for m, v in zip(coll, ins)]
                tot = {}
                for v, a in sup.items():
                    for w, b in pred[v].items():
                        tot[w] = tot.get(w, 0) + a * b
                model.append(coll[-1].copy(c=tot))
                for v in ins:
                    rep.state((conf, ops, v))
                rep.step(len(ops) * len(coll))
                case = dict(L=L, N=N, channel_0_left=left, ops=ops)
                with rep.guard('permanent', case):
                    c = impl.circuit(L, N, 0, left, THR, False, ops)
                    out = impl.read(impl.evaluate(c, impl.collection(c, coll, L, left)), L, left)
                    diff = impl.same_collection(model, out)
                    if diff:
                        rep.violation('permanent', case, diff)
                    rep.trace(dict(case, output=impl.show(out[-1])))
                if rep.nviol > 50:
                    return
