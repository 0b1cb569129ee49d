"""C10: bridges and compound circuits against manual chaining."""
import itertools, math
import fock_state_circuit as fsc
from mc import ref, impl
from mc.common import *

LEVEL = 'model_checking'
RULE = ('state = chain of circuit shapes and programs with an input collection, or history of operations on a compound circuit; every ordered pair (triple) of shapes '
        'of the alphabet, every program pair; every sequence of compound operations up to the depth against a model of parts and compiled snapshot')
ASSUMPTIONS = ['which of two different thresholds rounds the collection at the passage from one circuit to the next is not documented: with differing thresholds bridges and '
               'compound circuit are compared with each other', 'photon numbers fit the length of the next circuit (the documentation does not define larger ones)',
               'the bridge is the last node of its circuit']

# (length, optical channels, classical channels, channel 0 left)
SHAPES = [(2, 2, 0, True), (3, 2, 2, True), (3, 3, 1, False), (4, 2, 2, False), (3, 4, 2, True), (2, 3, 0, False), (11, 2, 1, True)]


def menu(shape):
    L, N, C, left = shape
    res = [[], [('mix', 0, 1)], [('wp', N - 1, 0, 0.4, 1.1), ('ps', 1, 0.7)]]
    if C:
        res += [[('meas', (1,), (0,))], [('setc', (0.6,), (C - 1,)), ('psc', 0, C - 1)]]
    if C > 1:
        res += [[('meas', (0, 1), (1, 0)), ('mix', 0, 1)]]
    if L == 3:
        res += [[('cshift', (0,), (1,))]]
    return res


class Skip(Exception):
    pass


def convert(coll, a, b):
    """documented conversion of a collection of shape a to shape b"""
    L, N, C, _ = a
    L2, N2, C2, _ = b
    out = []
    for m in coll:
        cl = (m.cl + (0,) * C2)[:C2]
        groups = {}
        for k, v in m.c.items():
            if max(k) >= L2 and max(k[:N2]) >= L2:
                raise Skip()
            groups.setdefault(k[N2:], {})[(k + (0,) * N2)[:N2]] = v
        for g in groups.values():
            p = sum(abs(v) ** 2 for v in g.values())
            if p < 1e-9:
                continue
            if N2 < N:
                out.append(m.copy(cum=m.cum * p, c={k: v / math.sqrt(p) for k, v in g.items()}, cl=cl))
            else:
                out.append(m.copy(c=g, cl=cl))
    return out


def run_chain(coll, shapes, progs):
    for n, (s, p) in enumerate(zip(shapes, progs)):
        if n:
            coll = convert(coll, shapes[n - 1], s)
        coll = ref.run_model(coll, p, s[0], THR)
    return coll


def inputs(shape, Lmin):
    L, N, C, left = shape
    vals = [v for v in ref.all_values(L, N) if sum(v) <= Lmin - 1]
    h = (((1,) * C, 0.5),) if C else ()
    return [ref.MS('a', 0.5, generic_vector(vals[:12], 1), tuple(range(1, C + 1)), h), ref.MS('b', 0.25, {vals[-1]: 1.0 + 0j}, (0.5,) * C),
            ref.MS('a', 0.25, {vals[1]: 0.6 + 0j, vals[2]: 0.8j}, (2,) * C, h + h)]


THRESHOLDS = (1e-10, 0.04, 0.3)


def build(shape, prog, name=None, thr=THR):
    return impl.circuit(shape[0], shape[1], shape[2], shape[3], thr, False, prog, name=name)


def check_thresholds(rep, ts):
    """parts with a threshold each: connected with bridges and as compound circuit"""
    key = 'thresholds'
    W, M, P = ('wp', 0, 1, 0.4, 1.1), ('meas', (1,), (0,)), ('ps', 1, 0.7)
    menus = [[[], [W], [W, P, M]], [[W, M, W], [P, ('shift', (1, 0), (1, 1)), W]], [[W], [M, ('shift', (1, 0), (0, 1)), W, M]]]
    for lefts in ((True, True, True), (False, False, False), (True, False, True), (True, True, False)):
        shapes = [(3, 2, 1, l) for l in lefts]
        coll = inputs(shapes[0], 3)
        for progs in itertools.product(*menus):
            case = dict(shapes=shapes, thresholds=ts, programs=progs)
            rep.state((key, ts, lefts, repr(progs)))
            rep.step(6)
            with rep.guard(key, case):
                make = lambda: [build(s, p, None, t) for s, p, t in zip(shapes, progs, ts)]
                start = lambda c: impl.collection(c, coll, 3, lefts[0])
                res = []
                cs = make()
                cs[0].bridge(next_fock_state_circuit=cs[1])
                cs[1].bridge(next_fock_state_circuit=cs[2])
                res.append(('bridges', cs[0].evaluate_circuit(start(cs[0]))))
                cs = make()
                comp = fsc.CompoundFockStateCircuit(list_of_circuits=cs)
                res.append(('compound', comp.evaluate_circuit(collection_of_states_input=start(cs[0]))))
                comp.refresh()
                res.append(('compound, refreshed', comp.evaluate_circuit(collection_of_states_input=start(cs[0]))))
                first = impl.read(res[0][1], 3, lefts[2])
                for how, out in res[1:]:
                    d = impl.same_collection(first, impl.read(out, 3, lefts[2]), 1e-9)
                    if d:
                        rep.violation(key, dict(case, how='%s against %s' % (how, res[0][0])), d)
                rep.trace(case)
            if rep.nviol > 10:
                return


def shards(tier):
    q = tier == 'quick'
    items = []
    for a in range(len(SHAPES)):
        for b in range(len(SHAPES)):
            items.append(('pair', a, b))
            if q:
                items.append(('triple', a, b, (a + 2 * b + 1) % len(SHAPES)))
            else:
                items += [('triple', a, b, c) for c in range(len(SHAPES))]
    for first in range(len(OPS)):
        for second in range(len(OPS)):
            items.append(('compound', (first, second), 4 if q else 5))
    items += [('wide', i) for i in range(12)]
    items.append(('late',))
    items += [('thresholds', ts) for ts in itertools.product(THRESHOLDS, repeat=3)]
    items.append(('empty',))
    return items


def check_chain(rep, shapes, progs, key):
    if max(x[0] ** y[1] for x, y in itertools.pairwise(shapes)) > 2100:
        return      # outside the size bound
    coll = inputs(shapes[0], min(s[0] for s in shapes))
    case = dict(shapes=shapes, programs=progs, input=[impl.show(m) for m in coll])
    try:
        model = run_chain(coll, shapes, progs)
    except Skip:
        rep.count('skipped_undefined')
        return
    rep.state((tuple(shapes), repr(progs)))
    rep.step(len(shapes) * len(coll))
    ids = ['x%d' % i for i in range(len(coll))]
    last = shapes[-1]
    with rep.guard(key, case):
        # the bridge
        cs = [build(s, p) for s, p in zip(shapes, progs)]
        for x, y in zip(cs, cs[1:]):
            x.bridge(next_fock_state_circuit=y)
        for turn in range(2):   # evaluating twice gives the same
            out = impl.evaluate(cs[0], impl.collection(cs[0], coll, shapes[0][0], shapes[0][3], ids))
            d = impl.same_collection(model, impl.read(out, last[0], last[3]), 5e-4)
            if d:
                rep.violation(key, dict(case, how='bridge', turn=turn), d)
                return
        shape_ok(rep, out, last, key, case)
        rep.trace(case)
        # the compound circuit
        cs = [build(s, p) for s, p in zip(shapes, progs)]
        comp = fsc.CompoundFockStateCircuit(list_of_circuits=cs)
        for turn in range(2):
            out = comp.evaluate_circuit(collection_of_states_input=impl.collection(cs[0], coll, shapes[0][0], shapes[0][3], ids))
            d = impl.same_collection(model, impl.read(out, last[0], last[3]), 5e-4)
            if d:
                rep.violation(key, dict(case, how='compound', turn=turn), d)
                return
        shape_ok(rep, out, last, key, case)
        if [len(c.node_list) for c in cs] != [len(p) for p in expand(progs)]:
            rep.violation(key, dict(case, how='compound'), 'building or evaluating the compound circuit changed its parts')
        rep.trace()


def expand(progs):
    """number of nodes each op adds (some methods add several nodes): measured on an isolated circuit"""
    return [[0] * sum(NODES[o[0]] for o in p) for p in progs]


NODES = dict(mix=1, wp=1, ps=1, meas=1, setc=1, psc=1, cshift=1, shift=1)


def shape_ok(rep, out, shape, key, case):
    """the result is a valid collection for the last circuit"""
    L, N, C, left = shape
    width = len(str(L - 1))
    for s in out:
        if len(s.classical_channel_values) != C or any(len(k) != N * width for k in s.optical_components):
            rep.violation(key, case, 'state of the result does not have the shape of the last circuit')
            return
    got = [n for n in out.generate_allowed_components_names_as_list_of_strings()]
    if got != [ref.name_of(v, L, left) for v in ref.all_values(L, N)]:
        rep.violation(key, case, 'the result lists components %r of another circuit shape or naming' % got[:4])


OPS = ['eval', 'eval2', 'refresh', 'clear', 'append', 'pop', 'swap', 'node', 'part', 'str', 'new']


class Machine:
    """a compound circuit (implementation) next to its model: list of parts and compiled snapshot"""

    def __init__(self, rep, case):
        self.rep, self.case = rep, case
        self.shapes = [SHAPES[1], SHAPES[4]]
        self.progs = [[('mix', 0, 1)], [('meas', (0,), (1,))]]
        self.real = [build(s, p, name='part%d' % i) for i, (s, p) in enumerate(zip(self.shapes, self.progs))]
        self.comp = fsc.CompoundFockStateCircuit(list_of_circuits=self.real, compound_circuit_name='comp')
        self.real = list(self.real)
        self.others = []
        self.snap()

    def snap(self):
        self.compiled = [(s, list(p)) for s, p in zip(self.shapes, self.progs)]

    def enabled(self, op):
        if op in ('eval', 'eval2', 'clear'):
            return self.compiled is not None
        if op == 'pop':
            return len(self.progs) > 1
        if op == 'append':
            return len(self.progs) < 4
        return True

    def expect(self, model, out, shape, text):
        d = impl.same_collection(model, impl.read(out, shape[0], shape[3]), 5e-4)
        if d:
            self.rep.violation('compound-history', self.case, text + ': ' + d)

    def do(self, op):
        if op in ('eval', 'eval2'):
            shapes, progs = [c[0] for c in self.compiled], [c[1] for c in self.compiled]
            if op == 'eval':
                coll = inputs(shapes[0], 3)
                model = run_chain(coll, shapes, progs)
                out = self.comp.evaluate_circuit(collection_of_states_input=impl.collection(self.real_first(), coll, shapes[0][0], shapes[0][3]))
            else:
                coll = [ref.MS(ref.name_of(v, shapes[0][0], shapes[0][3]), 1.0, {v: 1.0 + 0j}, (0,) * shapes[0][2]) for v in ref.all_values(shapes[0][0], shapes[0][1])]
                model = run_chain(coll, shapes, progs)
                out = self.comp.evaluate_circuit()
            self.expect(model, out, shapes[-1], 'compound evaluation')
        elif op == 'refresh':
            self.comp.refresh()
            self.snap()
        elif op == 'clear':
            self.comp.clear()
            self.compiled = None
        elif op == 'append':
            s = (3, 3, 2, len(self.progs) % 2 == 0)
            p = [('wp', 0, 1, 0.4, 1.1), ('setc', (len(self.progs),), (0,))]
            c = build(s, p)
            self.comp.list_of_circuits.append(c)
            self.real.append(c)
            self.shapes.append(s)
            self.progs.append(p)
        elif op == 'pop':
            self.comp.list_of_circuits.pop()
            self.real.pop()
            self.shapes.pop()
            self.progs.pop()
        elif op == 'swap':
            # the same circuit object twice in the list
            self.comp.list_of_circuits = self.comp.list_of_circuits + [self.real[0]]
            self.real = self.real + [self.real[0]]
            self.shapes = self.shapes + [self.shapes[0]]
            self.progs = self.progs + [self.progs[0]]
        elif op == 'node':
            impl.add(self.real[0], ('ps', 0, 0.9), self.shapes[0][0], self.shapes[0][1])
            self.progs[0] += [('ps', 0, 0.9)]
        elif op == 'part':
            for c, s, p in zip(self.real, self.shapes, self.progs):
                coll = inputs(s, 3)
                out = impl.evaluate(c, impl.collection(c, coll, s[0], s[3]))
                self.expect(ref.run_model(coll, p, s[0], THR), out, s, 'evaluating a part on its own')
        elif op == 'str':
            t = str(self.comp)
            if 'comp' not in t or t.count('FockStateCircuit name') != len(self.progs):
                self.rep.violation('compound-history', self.case, 'str() shows %r' % t)
        elif op == 'new':
            # a second compound circuit made of the same parts, and one with default arguments
            fsc.CompoundFockStateCircuit(list_of_circuits=list(self.real)).evaluate_circuit(collection_of_states_input=impl.collection(self.real[0], inputs(self.shapes[0], 3)[:1], self.shapes[0][0], self.shapes[0][3]))
            e = fsc.CompoundFockStateCircuit()
            if e.list_of_circuits:
                self.rep.violation('compound-history', self.case, 'a new compound circuit without arguments is not empty')
            e.list_of_circuits.append(self.real[-1])
            e.refresh()

    def real_first(self):
        return fsc.FockStateCircuit(length_of_fock_state=self.compiled[0][0][0], no_of_optical_channels=self.compiled[0][0][1], no_of_classical_channels=self.compiled[0][0][2],
                                    channel_0_left_in_state_name=self.compiled[0][0][3], threshold_probability_for_setting_to_zero=THR)


def run(item, rep):
    t = item[0]
    if t == 'pair':
        a, b = SHAPES[item[1]], SHAPES[item[2]]
        for p in menu(a):
            for q in menu(b):
                check_chain(rep, [a, b], [p, q], 'bridge-pair')
                if rep.nviol > 20:
                    return
    elif t == 'triple':
        s = [SHAPES[i] for i in item[1:]]
        ms = [menu(x) for x in s]
        for p in itertools.product(ms[0][1:4], ms[1][:1] + ms[1][2:5], ms[2][:4]):
            check_chain(rep, s, list(p), 'bridge-triple')
            if rep.nviol > 20:
                return
    elif t == 'compound':
        _, pre, depth = item
        for rest in itertools.product(range(len(OPS)), repeat=depth - len(pre)):
            hist = [OPS[i] for i in pre + rest]
            # a final refresh and evaluation makes every hidden change visible
            hist += ['part', 'refresh', 'eval']
            case = dict(history=hist)
            rep.state(('compound', tuple(hist)))
            with rep.guard('compound-history', case):
                m = Machine(rep, case)
                for op in hist:
                    if not m.enabled(op):
                        continue
                    rep.step()
                    m.do(op)
                rep.trace(case)
            if rep.nviol > 10:
                return
    elif t == 'wide':
        # channel numbers with two digits
        W = [(2, WIDE, 12, True), (2, WIDE - 1, 11, False), (3, 2, 11, True), (2, 3, 12, False)]
        a, b = list(itertools.permutations(W, 2))[item[1]]
        pm = lambda s: [[], [('mix', s[1] - 1, 1 if s[1] > 2 else 0)], [('meas', (s[1] - 1, 0), (s[2] - 1, 2))], [('setc', (0.6, 0.9), (s[2] - 1, 1)), ('psc', s[1] - 1, s[2] - 1)]]
        for p, q in itertools.product(pm(a), pm(b)):
            check_chain(rep, [a, b], [p, q], 'bridge-wide')
    elif t == 'thresholds':
        check_thresholds(rep, item[1])
    elif t == 'late':
        # changes of the next circuit after bridging are part of the evaluation; selected nodes of a bridged circuit
        for a, b in itertools.product(SHAPES, repeat=2):
            if a[0] ** b[1] > 2000:
                continue
            p, q = [('wp', 0, 1, 0.4, 1.1)], [('ps', 1, 0.7)]
            Lm = min(a[0], b[0])
            coll = inputs(a, Lm)
            case = dict(shapes=[a, b], how='node added to the next circuit after bridging')
            rep.state(('late', a, b))
            rep.step(4)
            with rep.guard('bridge-late', case):
                c, d = build(a, p), build(b, q)
                c.bridge(next_fock_state_circuit=d)
                impl.add(d, ('mix', 0, 1), b[0], b[1])
                out = impl.evaluate(c, impl.collection(c, coll, a[0], a[3]))
                dd = impl.same_collection(run_chain(coll, [a, b], [p, q + [('mix', 0, 1)]]), impl.read(out, b[0], b[3]), 5e-4)
                if dd:
                    rep.violation('bridge-late', case, dd)
                out = impl.evaluate(c, impl.collection(c, coll, a[0], a[3]), nodes_to_be_evaluated=[0])
                dd = impl.same_collection(ref.run_model(coll, p, a[0], THR), impl.read(out, a[0], a[3]), 5e-4)
                if dd:
                    rep.violation('bridge-late', dict(case, how='nodes_to_be_evaluated=[0]'), dd)
                out = impl.evaluate(c, impl.collection(c, coll, a[0], a[3]), nodes_to_be_evaluated=[1])
                dd = impl.same_collection(run_chain(coll, [a, b], [[], q + [('mix', 0, 1)]]), impl.read(out, b[0], b[3]), 5e-4)
                if dd:
                    rep.violation('bridge-late', dict(case, how='nodes_to_be_evaluated=[1]'), dd)
                out = impl.evaluate(d, impl.collection(d, inputs(b, b[0]), b[0], b[3]))
                dd = impl.same_collection(ref.run_model(inputs(b, b[0]), q + [('mix', 0, 1)], b[0], THR), impl.read(out, b[0], b[3]), 5e-4)
                if dd:
                    rep.violation('bridge-late', dict(case, how='next circuit on its own'), dd)
                rep.trace(case)
    else:
        # without input a bridged circuit starts from all basis states of the first circuit
        for a, b in itertools.product([s for s in SHAPES if s[0] < 5], repeat=2):
            if b[0] < a[0]:
                continue
            p, q = [('mix', 0, 1)], [('ps', 0, 0.3)]
            coll = [ref.MS(ref.name_of(v, a[0], a[3]), 1.0, {v: 1.0 + 0j}, (0,) * a[2]) for v in ref.all_values(a[0], a[1])]
            case = dict(shapes=[a, b], how='no input collection')
            rep.state(('empty', a, b))
            rep.step(len(coll))
            with rep.guard('bridge-default-input', case):
                c, d = build(a, p), build(b, q)
                c.bridge(next_fock_state_circuit=d)
                for out in (c.evaluate_circuit(), fsc.CompoundFockStateCircuit([build(a, p), build(b, q)]).evaluate_circuit()):
                    dd = impl.same_collection(run_chain(coll, [a, b], [p, q]), impl.read(out, b[0], b[3]), 5e-4)
                    if dd:
                        rep.violation('bridge-default-input', case, dd)
                rep.trace(case)
