"""C12: a collection of states is an ordered map from identifiers to states under every sequence of operations."""
import itertools, random
import fock_state_circuit as fsc
from mc import ref, impl
from mc.common import *

LEVEL = 'model_checking'
RULE = ('state = history of collection operations; all histories up to the depth are executed next to a plain ordered map, after every operation all observers are compared; '
        'the random numbers behind generated identifiers are enumerated exhaustively (the first draws of every history, both values each)')
ASSUMPTIONS = ['identifiers are strings', 'states offered to the collection are valid', 'an adversarial random generator controls the first eight draws of a history, later draws are pseudo-random']

L, N, C = 2, 2, 2


def S(k):
    """menu of states"""
    return [ref.MS('a', 1.0, {(0, 1): 1.0 + 0j}, (1, 2)), ref.MS('b', 0.5, {(1, 0): 0.6 + 0j, (0, 1): 0.8j}, (1, 3)),
            ref.MS('a', 0.25, {(1, 1): 1.0 + 0j}, (2, 3), (((0, 0), 0.5),)), ref.MS('', 0.125, {(0, 0): 1.0 + 0j}, (1.5, 2))][k]


OPS = [('add', 'x', 0), ('add', 'y', 1), ('add', 'x', 2), ('add', 'identifier_a', 3), ('add', None, 1), ('add', None, 2), ('del', 'x'), ('del', 'nope'), ('deli', 'a'), ('deli', 'nope'), ('del2', 'nope', 'b'),
       ('filt_init', ['a']), ('filt_init', 'b'), ('filt_id', ['x', 'identifier_a']), ('filt_id', 'y'), ('filt_cl', [0], [1]), ('filt_cl', [1, 0], [3, 2]), ('clear',), ('copy',),
       ('mix', (0, 1), (0.5, 0.25)), ('mix', (2, 2), (0.5, 0.125)), ('dict', 'states'), ('dict', 'dicts'), ('dict', 'bad'), ('default',), ('filt_id', []), ('template',),
       ('filt_init', ['q%d' % n for n in range(12)] + ['', 'b', 'q', 'a']), ('filt_id', ['q%d' % n for n in range(12)] + ['x', 'u']), ('filt_cl', [0, 0], [1, 2]), ('filt_cl', [0], [1.5])]


class Tape:
    """random draws: the first bits are taken from the tape, later ones are pseudo-random"""

    def __init__(self, bits):
        self.bits = list(bits)
        self.used = 0
        self.prng = random.Random(7)

    def draw(self, a, b):
        if self.used < len(self.bits) and self.used < 8:
            v = self.bits[self.used]
        elif self.used < 8:
            self.bits.append(0)
            v = 0
        else:
            v = None
        self.used += 1
        return a + v if v is not None else self.prng.randint(a, b)

    def next(self):
        """bits of the next unexplored branch, None when all are explored"""
        b = self.bits[:min(self.used, 8)]
        while b and b[-1] == 1:
            b.pop()
        return None if not b else b[:-1] + [1]


class patched:
    def __init__(self, tape):
        self.tape = tape

    def __enter__(self):
        self.old = {n: getattr(random, n) for n in ('randint', 'randrange', 'choice', 'choices', 'sample')}
        t = self.tape
        random.randint = t.draw
        random.randrange = lambda a, b=None, step=1: t.draw(0, a - 1) if b is None else t.draw(a, b - 1)
        random.choice = lambda seq: seq[t.draw(0, len(seq) - 1)]
        random.choices = lambda seq, *a, k=1, **kw: [seq[t.draw(0, len(seq) - 1)] for _ in range(k)]
        random.sample = lambda seq, k, **kw: t.prng.sample(seq, k)

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(random, n, f)


class Machine:
    def __init__(self, rep, case):
        self.rep, self.case = rep, case
        self.circuit = fsc.FockStateCircuit(length_of_fock_state=L, no_of_optical_channels=N, no_of_classical_channels=C, threshold_probability_for_setting_to_zero=THR)
        self.x = fsc.CollectionOfStates(self.circuit, dict([]))
        self.m = {}
        self.copies = []

    def bad(self, text):
        self.rep.violation('map', self.case, text)

    def new_id(self, before):
        new = [i for i in self.x.state_identifiers_as_list() if i not in before]
        if len(new) != 1:
            self.bad('adding a state without identifier must add exactly one new identifier, got %r after %r' % (self.x.state_identifiers_as_list(), list(before)))
            return None
        return new[0]

    def do(self, op):
        t = op[0]
        x, m = self.x, self.m
        st = lambda k: impl.set_state(x, S(k), L)
        if t == 'add':
            if op[1] is None:
                before = list(m)
                x.add_state(st(op[2]))
                i = self.new_id(before)
                if i is None:
                    return False
                m[i] = S(op[2])
            else:
                x.add_state(st(op[2]), identifier=op[1])
                m[op[1]] = S(op[2])
        elif t == 'del':
            x.delete_state(identifier=op[1])
            m.pop(op[1], None)
        elif t == 'deli':
            x.delete_state(initial_state=op[1])
            for i in m:
                if m[i].init == op[1]:
                    del m[i]
                    break
        elif t == 'del2':
            x.delete_state(identifier=op[1], initial_state=op[2])
            for i in m:
                if m[i].init == op[2]:
                    del m[i]
                    break
        elif t == 'filt_init':
            x.filter_on_initial_state(op[1])
            self.m = {i: s for i, s in m.items() if s.init in (op[1] if isinstance(op[1], list) else [op[1]])}
        elif t == 'filt_id':
            x.filter_on_identifier(op[1])
            self.m = {i: s for i, s in m.items() if i in (op[1] if isinstance(op[1], list) else [op[1]])}
        elif t == 'filt_cl':
            x.filter_on_classical_channel(classical_channel_numbers=op[1], values_to_filter=op[2])
            self.m = {i: s for i, s in m.items() if all(s.cl[c] == v for c, v in zip(op[1], op[2]))}
        elif t == 'clear':
            x.clear()
            self.m = {}
        elif t == 'copy':
            self.copies.append((x, dict(m)))
            self.x = x.copy()
        elif t == 'template':
            y = x.copy(empty_template=True)
            if len(y) or y.state_identifiers_as_list():
                self.bad('empty template is not empty')
        elif t == 'mix':
            states = [impl.set_state(x, S(k), L) for k in op[1]]
            if op[1][0] == op[1][1]:
                states[1] = states[0]
            x.set_collection_as_statistical_mixture(list(zip(states, op[2])))
            ids = x.state_identifiers_as_list()
            if len(ids) != 2 or len(set(ids)) != 2:
                self.bad('mixture of two states has identifiers %r' % ids)
                return False
            label = S(op[1][0]).init
            self.m = {i: S(k).copy(cum=w, init=label) for i, k, w in zip(ids, op[1], op[2])}
            for k, s in zip(op[1], states):
                if not impl.same_state(S(k), impl.read_state(s, L)):
                    self.bad('forming a mixture changed the state it was given')
        elif t == 'dict':
            if op[1] == 'bad':
                for bad in ([1, 2], {3: st(0)}, {'u': 5}, 'text', {'u': st(0), 'v': [1]}):
                    try:
                        r = x.collection_from_dict(bad)
                    except Exception:
                        r = False
                    if r:
                        self.bad('invalid dictionary %r accepted' % (bad,))
            else:
                d = {'u': st(1), 'x': st(0)}
                if op[1] == 'dicts':
                    d = {k: v.state for k, v in d.items()}
                r = x.collection_from_dict(d)
                if r is not True:
                    self.bad('collection_from_dict returns %r for a valid dictionary' % (r,))
                self.m = {'u': S(1), 'x': S(0)}
                d.clear()
        elif t == 'default':
            x.initialize_to_default()
            ids = x.state_identifiers_as_list()
            vals = ref.all_values(L, N)
            if len(ids) != len(vals):
                self.bad('default collection has %d states' % len(ids))
                return False
            self.m = {i: ref.MS(ref.name_of(v, L), 1.0, {v: 1.0 + 0j}, (0,) * C) for i, v in zip(ids, vals)}
        return True

    def check(self):
        x, m = self.x, self.m
        ids = list(m)
        if x.state_identifiers_as_list() != ids or list(x.keys()) != ids or [i for i, _ in x.items()] != ids or list(x.collection_as_dict()) != ids:
            return self.bad('identifiers %r, expected %r' % (x.state_identifiers_as_list(), ids))
        if len(x) != len(ids) or x.initial_states_as_list() != [s.init for s in m.values()]:
            return self.bad('len %d, initial states %r, expected %r' % (len(x), x.initial_states_as_list(), [s.init for s in m.values()]))
        it = list(x)
        if len(it) != len(ids) or any(a is not b for a, b in zip(it, x.values())) or any(a is not b for a, (_, b) in zip(it, x.items())):
            return self.bad('iteration, values and items disagree')
        for n, i in enumerate(ids):
            s = x.get_state(identifier=i)
            if s is not it[n] or x[i] is not s or x[n] is not s or x.get_state(identifier=i, initial_state='nope') is not s:
                return self.bad('look-ups of %r disagree' % i)
            if not impl.same_state(m[i], impl.read_state(s, L)):
                return self.bad('state %r is %s, expected %s' % (i, impl.show(impl.read_state(s, L)), impl.show(m[i])))
        for lab in ('a', 'b', '', 'nope'):
            want = next((it[n] for n, i in enumerate(ids) if m[i].init == lab), None)
            if x.get_state(initial_state=lab) is not want or x.get_state(identifier='nope', initial_state=lab) is not want:
                return self.bad('get_state(initial_state=%r) is not the first state with that label' % lab)
        if x.get_state(identifier='nope') is not None or x['nope'] is not None or x.get_state() is not None or not bool(x):
            return self.bad('look-up of an unknown identifier')
        for y, my in self.copies:
            if y.state_identifiers_as_list() != list(my) or any(not impl.same_state(my[i], impl.read_state(y.get_state(identifier=i), L)) for i in my):
                return self.bad('an earlier copy changed')
        return True


def shards(tier):
    items = [('seq', (a, b), 3 if tier == 'quick' else 4) for a in range(len(OPS)) for b in range(len(OPS))]
    items += [('rand', n) for n in range(2 if tier == 'quick' else 3)]
    items += [('many',)]
    return items


def explore(rep, hist, key='map'):
    """execute one history for every answer of the random generator"""
    tape = Tape([])
    while True:
        case = dict(history=hist, random_draws=list(tape.bits))
        ok = False
        with rep.guard(key, case):
            with patched(tape):
                w = Machine(rep, case)
                for op in hist:
                    rep.step()
                    if not w.do(op) or not w.check():
                        break
                else:
                    ok = True
            rep.trace(case)
        rep.state((tuple(map(repr, hist)), tuple(tape.bits)))
        b = tape.next()
        if b is None or not ok:
            return
        tape = Tape(b)


def run(item, rep):
    if item[0] == 'seq':
        _, pre, depth = item
        for rest in itertools.product(range(len(OPS)), repeat=depth - len(pre)):
            explore(rep, [OPS[i] for i in pre + rest])
            if rep.nviol > 10:
                return
    elif item[0] == 'rand':
        # many generated identifiers with explicit ones that look alike, every outcome of the first eight draws
        tails = [[('add', None, k % 3) for k in range(5)], [('add', 'identifier_b', 0), ('add', None, 1), ('add', None, 2), ('add', 'identifier_a', 3), ('add', None, 0), ('add', None, 1)],
                 [('default',), ('add', None, 1), ('add', None, 2), ('del', 'identifier_a'), ('add', None, 2), ('add', None, 0)]]
        for t in tails:
            for k in range(len(OPS)):
                explore(rep, t[:item[1] + 3] + [OPS[k]] + t[item[1] + 3:])
    else:
        # more states than single letter identifiers
        for n in (36, 37, 40, 100, 400):
            case = dict(added=n)
            rep.state(('many', n))
            with rep.guard('many', case):
                w = Machine(rep, case)
                for k in range(n):
                    w.x.add_state(impl.set_state(w.x, S(k % 3).copy(cum=1 / (k + 1)), L))
                    rep.step()
                    if len(w.x) != k + 1:
                        rep.violation('many', case, 'after adding %d states the collection has %d' % (k + 1, len(w.x)))
                        break
                got = sorted(round(float(s.cumulative_probability), 9) for s in w.x)
                if got != sorted(round(1 / (k + 1), 9) for k in range(n)):
                    rep.violation('many', case, 'states were lost or changed')
                w.x.set_collection_as_statistical_mixture([(impl.set_state(w.x, S(k % 3), L), 1 / (k + 1)) for k in range(n)])
                if len(w.x) != n:
                    rep.violation('many', case, 'mixture of %d states has %d' % (n, len(w.x)))
                c = impl.circuit(L, N, C, True, THR, False, [('shift', (0,), (1,)), ('meas', (0, 1), (0, 1)), ('mix', 0, 1)])
                out = impl.evaluate(c, w.x)
                tot = sum(float(s.cumulative_probability) for s in out)
                if abs(tot - sum(1 / (k + 1) for k in range(n))) > 1e-4:
                    rep.violation('many', case, 'evaluation lost states: total probability %r' % tot)
                rep.trace(case)
