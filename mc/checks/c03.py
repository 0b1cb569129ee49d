"""C03: composition of nodes: every program, every split, every index list."""
import itertools, math
import numpy as np
from mc import ref, impl
from mc.common import *

LEVEL = 'model_checking'
RULE = ('state = (program, split point or index list, input collection); evaluation in one go, in every two-part split, node by node and by index list is compared '
        'with the reference model and with each other; matrices of index lists are compared with the product of reference matrices')
ASSUMPTIONS = ['threshold for dropping components is 1e-10 so that grouping of optical nodes has no visible effect']

# L=3, N=2, C=2: one node of every kind
ALPHA = [('wp', 0, 1, 0.4, 1.1), ('mix', 1, 0), ('ps', 1, 0.9), ('swap', 0, 1), ('shift', (0,), (1,)), ('cshift', (0,), (1,)), ('fock', 'four'), ('fock', 'rev'),
         ('meas', (0,), (1,)), ('meas', (1, 0), (0, 1)), ('setc', (0.7, 0.3), (1, 0)), ('cfun', 'reverse', (0,), (0,)), ('psc', 0, 1), ('wpc', 1, 0, 0, 1),
         ('shiftd', (1,), (2,)), ('cshiftd', (1,), (0,)), ('wph', 0, 1, 0.4, 1.1), ('gen', 'flip0')]
OPT = [('wp', 0, 1, 0.4, 1.1), ('mix', 1, 0), ('ps', 1, 0.9), ('swap', 0, 1), ('custom', 0, 1, ((0.6, 0.8j), (0.8j, 0.6))), ('custom', 1, 0, ((0.6, -0.8), (0.8, 0.6)))]
# inputs below the photon limit so that composed operations have textbook semantics
INS = [{(1, 0): 1.0}, {(0, 1): 0.6, (1, 1): 0.8j}, {(2, 0): 0.8, (0, 0): 0.6}]


def start(L=3, C=2):
    return [ref.MS('i%d' % n, w, {k: complex(a) for k, a in c.items()}, (0.2 + n, 0.5 * n)[:C]) for n, (c, w) in enumerate(zip(INS, (0.5, 0.3, 1.0)))]


def shards(tier):
    items = []
    depth = 3 if tier == 'quick' else 4
    for left in (True, False):
        for op in ALPHA:
            if tier == 'quick':
                items.append(('prog', left, 2, (op,)))
        pre = [(a,) for a in ALPHA] if tier == 'quick' else list(itertools.product(ALPHA, repeat=2))
        if left:
            items += [('prog', left, depth, p) for p in pre]
        elif tier != 'quick':
            items += [('prog', left, 3, (p,)) for p in ALPHA]
    # index lists
    progs = [(ALPHA[0], ALPHA[1], ALPHA[8], ALPHA[4]), (ALPHA[4], ALPHA[0], ALPHA[2], ALPHA[6]), (ALPHA[10], ALPHA[12], ALPHA[1], ALPHA[9]), (ALPHA[1], ALPHA[11], ALPHA[13], ALPHA[14])]
    for n, p in enumerate(progs):
        for left in (True, False):
            items += [('index', left, 3 if tier == 'quick' else 4, p, f) for f in range(4)]
    for L, N in ((2, 2), (3, 2), (4, 2), (2, 3), (3, 3)) + (((2, 4), (3, 4), (6, 2)) if tier != 'quick' else ()):
        for left in (True, False):
            items.append(('matrix', left, 3, L, N))
    return items


def check(rep, key, case, model, real, L, left):
    diff = impl.same_collection(model, impl.read(real, L, left))
    if diff:
        rep.violation(key, case, diff)


def run(item, rep):
    if item[0] == 'prog':
        _, left, depth, pre = item
        L, N, C = 3, 2, 2
        for rest in itertools.product(ALPHA, repeat=depth - len(pre)):
            prog = pre + rest
            case = dict(L=L, N=N, C=C, channel_0_left=left, ops=prog, input=[impl.show(m) for m in start()])
            coll = start()
            model = ref.run_model(coll, prog, L, THR)
            rep.state((left, prog, 'whole'))
            rep.step(len(prog) * len(coll))
            with rep.guard('whole', case):
                c = impl.circuit(L, N, C, left, THR, False, prog)
                inp = impl.collection(c, coll, L, left)
                check(rep, 'whole', case, model, impl.evaluate(c, inp), L, left)
                rep.trace(dict(case, branches=len(model)))
            with rep.guard('split', case):
                for s in range(1, len(prog)):
                    rep.state((left, prog, s))
                    rep.step(len(prog) * len(coll))
                    mid = impl.evaluate(c, inp, nodes_to_be_evaluated=list(range(s)))
                    out = impl.evaluate(c, mid, nodes_to_be_evaluated=list(range(s, len(prog))))
                    check(rep, 'split', dict(case, split=s), model, out, L, left)
                    rep.trace()
            with rep.guard('one-by-one', case):
                # every node in a circuit of its own
                cur = inp
                for op in prog:
                    c1 = impl.circuit(L, N, C, left, THR, False, (op,))
                    cur = impl.evaluate(c1, cur)
                check(rep, 'one-by-one', case, model, cur, L, left)
                rep.step(len(prog) * len(coll))
                rep.trace()
            if rep.nviol > 50:
                return
    elif item[0] == 'index':
        _, left, maxlen, prog, f = item
        L, N, C = 3, 2, 2
        coll = start()
        c = impl.circuit(L, N, C, left, THR, False, prog)
        inp = impl.collection(c, coll, L, left)
        lists = [()] if f == 0 else []
        for n in range(1, maxlen + 1):
            lists += [(f,) + r for r in itertools.product(range(len(prog)), repeat=n - 1)]
        for idx in lists:
            case = dict(L=L, N=N, C=C, channel_0_left=left, ops=prog, nodes_to_be_evaluated=idx)
            rep.state((left, prog, idx))
            rep.step(max(1, len(idx)) * len(coll))
            with rep.guard('index-list', case):
                model = ref.run_model(coll, [prog[i] for i in idx], L, THR)
                check(rep, 'index-list', case, model, impl.evaluate(c, inp, nodes_to_be_evaluated=list(idx)), L, left)
                rep.trace(case)
        with rep.guard('index-invalid', dict(ops=prog)):
            for bad in ([len(prog)], [0, len(prog) + 1], [-1]):
                rep.step()
                try:
                    c.evaluate_circuit(collection_of_states_input=inp, nodes_to_be_evaluated=bad)
                except Exception:
                    continue
                rep.violation('index-invalid', dict(ops=prog, nodes_to_be_evaluated=bad), 'invalid node index accepted')
    else:
        _, left, maxlen, L, N = item
        ops = [o for o in OPT if True]
        c = impl.circuit(L, N, 0, left, THR, False, ops)
        vals = ref.all_values(L, N)
        pos = {v: i for i, v in enumerate(vals)}
        single = []
        for o in ops:
            M = np.zeros((len(vals), len(vals)), dtype=complex)
            for v in vals:
                for k, a in ref.step([ref.MS(None, 1, {v: 1.0 + 0j}, ())], o, L, 0)[0].c.items():
                    M[pos[k], pos[v]] += a
            single.append(M)
        names = [ref.name_of(v, L, left) for v in vals]
        if list(c.basis().keys()) != names or [tuple(x) for x in c.basis().values()] != vals:
            rep.violation('matrix-basis', dict(L=L, N=N), 'basis() is not in standard order')
        for n in range(1, maxlen + 1):
            for idx in itertools.product(range(len(ops)), repeat=n):
                case = dict(L=L, N=N, channel_0_left=left, ops=ops, nodes=idx)
                rep.state((left, L, N, idx))
                rep.step(n)
                M = np.identity(len(vals), dtype=complex)
                for i in idx:
                    M = single[i] @ M
                with rep.guard('matrix', case):
                    R = c.get_fock_state_matrix(nodes_to_be_evaluated=list(idx))
                    if R.shape != M.shape or np.abs(R - M).max() > 1e-4:
                        rep.violation('matrix', case, 'get_fock_state_matrix differs from the composition of the nodes')
                    rep.trace(case)
        with rep.guard('matrix-all', dict(L=L, N=N)):
            M = np.identity(len(vals), dtype=complex)
            for m in single:
                M = m @ M
            R = c.get_fock_state_matrix()
            if np.abs(R - M).max() > 1e-4:
                rep.violation('matrix-all', dict(L=L, N=N, channel_0_left=left, ops=ops), 'get_fock_state_matrix() differs from the composition of all nodes')
            rep.trace()
