"""C24: columns, interference groups and collections of columns hold exactly the states, amplitudes and photons they were made from."""
import copy as copylib
import itertools
import numpy as np
import fock_state_circuit as fsc
from mc import ref, impl
from mc.common import *

LEVEL = 'model_checking'
RULE = ('state = (columns of an interference group with identifier, amplitude, boson factor, group identifier, group probability and states); from every start all sequences of operations (add state, add column, split, expand into photons, condense, rescale, '
        'set an attribute, set photon information, renew the collection) up to the depth are executed on the classes and on a model of them; after every operation everything that can be read is compared, and the operations that return new objects are tried')
ASSUMPTIONS = ['states are normalised', 'the order of components within a split is not compared', 'columns are identified by their content after a split, the new identifiers have to be unused',
               'overlap functions of the probability checks: all photons identical, or photons identical when their information is equal']

L, N, C = 4, 2, 1
TOL = 1e-9
DEF = dict(column_amplitude=1, column_boson_factor=1, column_identifier=0, group_cumulative_probability=1, interference_group_identifier=0)
KEYS = ('column_identifier', 'column_amplitude', 'column_boson_factor', 'interference_group_identifier', 'group_cumulative_probability')


class Wrong(Exception):
    pass


def expect(ok, msg):
    if not ok:
        raise Wrong(msg)


def close(a, b):
    return abs(complex(a) - complex(b)) <= TOL * (1 + abs(complex(b)))


def fact(v):
    f = 1
    for n in v:
        f *= math.factorial(n)
    return f


# ------------------------------------------------------------------ model
class MSt:
    """one state: components {photon numbers: amplitude}, photon information (None: absent), label"""
    def __init__(self, oc, info=None, label='s', cum=1.0, cl=(0,)):
        self.oc, self.info, self.label, self.cum, self.cl = dict(oc), info, label, cum, tuple(cl)

    def copy(self):
        return MSt(self.oc, self.info, self.label, self.cum, self.cl)

    def first(self):
        return next(iter(self.oc))

    def key(self):
        return (tuple(sorted((k, round(complex(a).real, 7) + 0.0, round(complex(a).imag, 7) + 0.0) for k, a in self.oc.items())), repr(self.info), self.label, round(self.cum, 7), self.cl)


class MCol:
    def __init__(self, states=(), **kw):
        self.states = list(states)
        self.a = dict(DEF, **kw)

    def copy(self):
        return MCol([s.copy() for s in self.states], **self.a)

    def content(self):
        a = self.a
        return (round(complex(a['column_amplitude']).real, 7) + 0.0, round(complex(a['column_amplitude']).imag, 7) + 0.0, round(a['column_boson_factor'], 7), a['interference_group_identifier'], round(a['group_cumulative_probability'], 7),
                tuple(s.key() for s in self.states))

    def photons(self):
        return [(ch, s.info or {}) for s in self.states for ch, n in enumerate(s.first()) for _ in range(n)]

    def total(self):
        return tuple(sum(x) for x in zip(*[s.first() for s in self.states]))

    def split_all(self):
        """the columns that hold single components only"""
        res = []
        for combi in itertools.product(*[list(s.oc.items()) for s in self.states]):
            c = self.copy()
            for s, (v, a) in zip(c.states, combi):
                s.oc = {v: 1}
                c.a['column_amplitude'] = c.a['column_amplitude'] * a
            res.append(c)
        return res

    def single(self):
        return all(len(s.oc) == 1 for s in self.states)

    def expand(self):
        new = []
        f = 1
        for s in self.states:
            v = s.first()
            f *= fact(v)
            if sum(v) == 0:
                new.append(s)
            for ch, n in enumerate(v):
                for _ in range(n):
                    t = s.copy()
                    t.oc = {tuple(int(k == ch) for k in range(len(v))): 1}
                    new.append(t)
        self.states = new
        self.a['column_boson_factor'] *= math.sqrt(f)

    def condense(self, use=True):
        tot = self.total()
        f = self.a['column_boson_factor']
        for s in self.states:
            f *= math.sqrt(fact(s.first()))
        t = self.states[-1].copy()
        t.oc = {tot: 1}
        if use:
            t.cum = self.a['group_cumulative_probability'] * abs(self.a['column_amplitude']) ** 2
        self.states = [t]
        self.a['column_boson_factor'] = f / math.sqrt(fact(tot))


class MGroup:
    def __init__(self, cols=(), gid=0, gcp=1):
        self.cols, self.gid, self.gcp = list(cols), gid, gcp

    def copy(self):
        return MGroup([c.copy() for c in self.cols], self.gid, self.gcp)

    def ids(self):
        return [c.a['column_identifier'] for c in self.cols]

    def get(self, i):
        for c in self.cols:
            if c.a['column_identifier'] == i:
                return c
        return None

    def free(self):
        n = 0
        while n in self.ids():
            n += 1
        return n

    def add_column(self, col, ident=None):
        if ident is None or ident in self.ids():
            ident = self.free()
        col.a['column_identifier'] = ident
        col.a['interference_group_identifier'] = self.gid
        self.cols.append(col)

    def key(self):
        return (self.gid, round(self.gcp, 7), tuple((c.a['column_identifier'],) + c.content() for c in self.cols))


# ------------------------------------------------------------------ implementation
R2 = math.sqrt(0.5)
MENU = {
    'one': {(1, 0): 1},
    'two': {(2, 0): 1},
    'vac': {(0, 0): 1},
    'eleven': {(1, 1): 1},
    'three': {(1, 2): 1},
    'sup': {(1, 0): 0.6, (0, 1): 0.8j},
    'noon': {(2, 0): R2, (0, 2): -R2},
    'dense': {(1, 1): 0.5, (2, 0): 0.5j, (0, 2): -0.5, (0, 0): 0.5 * cmath.exp(0.7j)},
    'minus': {(1, 1): -1},
    'phase': {(2, 0): cmath.exp(0.4j)},
}


def circuit():
    return fsc.FockStateCircuit(length_of_fock_state=L, no_of_optical_channels=N, no_of_classical_channels=C)


def name(v):
    return ref.name_of(v, L)


def real_state(coll, m, aux=None):
    s = fsc.State(coll)
    s.initial_state = m.label
    s.cumulative_probability = m.cum
    s.classical_channel_values = list(m.cl)
    s.optical_components = [(name(v), a) for v, a in m.oc.items()]
    if aux is not None:
        s.auxiliary_information = {'photon_resolution': dict(aux)}
    return s


def read_oc(s):
    return {ref.values_of(k, L): v['amplitude'] for k, v in s.optical_components.items()}


def read_state(s):
    info = s.auxiliary_information.get('photon_resolution', {}).get('photon_information')
    return MSt(read_oc(s), info, s.initial_state, s.cumulative_probability, s.classical_channel_values)


def read_column(col):
    m = MCol([read_state(s) for s in col], **{k: getattr(col, k) for k in KEYS})
    return m


def same_state(s, m, what):
    got = read_state(s)
    expect(set(got.oc) == set(m.oc) and all(close(got.oc[k], m.oc[k]) for k in m.oc), '%s has components %r, expected %r' % (what, got.oc, m.oc))
    expect(got.label == m.label and close(got.cum, m.cum) and got.cl == m.cl, '%s: label/probability/classical values %r, expected %r' % (what, (got.label, got.cum, got.cl), (m.label, m.cum, m.cl)))
    expect((got.info or None) == (m.info or None), '%s: photon information %r, expected %r' % (what, got.info, m.info))


def same_column(col, m, what, resolved=True):
    for k in KEYS:
        got = getattr(col, k)
        expect(close(got, m.a[k]), '%s: %s is %r, expected %r' % (what, k, got, m.a[k]))
        for s in col:
            expect('photon_resolution' in s.auxiliary_information and k in s.auxiliary_information['photon_resolution'], '%s: a state does not carry %s' % (what, k))
            expect(close(s.auxiliary_information['photon_resolution'][k], m.a[k]), '%s: a state carries %s %r, expected %r' % (what, k, s.auxiliary_information['photon_resolution'][k], m.a[k]))
    expect(len(col) == len(m.states), '%s has %d states, expected %d' % (what, len(col), len(m.states)))
    for n, (s, t) in enumerate(zip(col, m.states)):
        same_state(s, t, '%s, state %d' % (what, n))
        expect(col[n] is s, '%s: state %d by position' % (what, n))
    expect(len({id(s) for s in col}) == len(col), '%s holds a state twice' % what)
    if m.states:
        expect(col.list_of_photons() == m.photons(), '%s: photons %r, expected %r' % (what, col.list_of_photons(), m.photons()))
        tot = m.total()
        expect(tuple(col.generate_optical_component_corresponding_to_column(return_values_instead_of_component_name_as_string=True)) == tot, '%s: photon numbers of the column, expected %r' % (what, tot))
        if max(tot) < L:
            expect(col.generate_optical_component_corresponding_to_column() == name(tot), '%s: component of the column is %r, expected %r' % (what, col.generate_optical_component_corresponding_to_column(), name(tot)))
            expect(col.generate_optical_component_corresponding_to_column(use_stored_values=True) == name(tot), '%s: stored component of the column' % what)
        expect(tuple(col.generate_optical_component_corresponding_to_column(return_values_instead_of_component_name_as_string=True, use_stored_values=True)) == tot, '%s: stored photon numbers of the column' % what)
    expect(bool(col.all_states_single_photon_states()) == all(sum(v) <= 1 for s in m.states for v in s.oc), '%s: all_states_single_photon_states' % what)
    if all(len(s.oc) > 1 or close(next(iter(s.oc.values())), 1) for s in m.states):
        expect(bool(col.all_states_single_optical_component()) == m.single(), '%s: all_states_single_optical_component' % what)


def same_group(g, m, what='group'):
    expect(g.interference_group_identifier == m.gid and close(g.group_cumulative_probability, m.gcp), '%s: identifier/probability %r, expected %r' % (what, (g.interference_group_identifier, g.group_cumulative_probability), (m.gid, m.gcp)))
    expect(len(g) == len(m.cols), '%s has %d columns, expected %d' % (what, len(g), len(m.cols)))
    cols = list(g.by_column())
    expect([id(c) for c in cols] == [id(c) for c in g], '%s: iteration' % what)
    expect([id(s) for s in g.by_state()] == [id(s) for c in cols for s in c], '%s: by_state and by_column disagree' % what)
    ids = [c.column_identifier for c in cols]
    expect(len(set(ids)) == len(ids), '%s: column identifiers %r' % (what, ids))
    expect(sorted(ids) == sorted(m.ids()), '%s: column identifiers %r, expected %r' % (what, ids, m.ids()))
    for c in m.cols:
        i = c.a['column_identifier']
        col = g.extract_column_by_identifier(i)
        expect(any(col is x for x in cols), '%s: column %r' % (what, i))
        same_column(col, c, '%s column %r' % (what, i))


def adopt(g, m, what='group'):
    """after a split: the columns are those of the model in any order and with any unused identifiers"""
    cols = list(g.by_column())
    ids = [c.column_identifier for c in cols]
    expect(len(set(ids)) == len(ids), '%s: column identifiers %r' % (what, ids))
    left = list(cols)
    for c in m.cols:
        for x in left:
            got = read_column(x)
            if all(close(got.a[k], c.a[k]) for k in KEYS[1:]) and len(got.states) == len(c.states) and all(set(p.oc) == set(q.oc) and all(close(p.oc[k], q.oc[k]) for k in q.oc) for p, q in zip(got.states, c.states)):
                c.a['column_identifier'] = x.column_identifier
                left.remove(x)
                break
        else:
            raise Wrong('%s: no column with amplitude %r, boson factor %r and components %r; there are %r' % (
                what, c.a['column_amplitude'], c.a['column_boson_factor'], [s.oc for s in c.states], [(x.column_amplitude, x.column_boson_factor, [read_oc(s) for s in x]) for x in cols]))
    expect(not left, '%s: %d columns too many' % (what, len(left)))
    same_group(g, m, what)


def independent(col, m):
    """copies do not share anything with the original"""
    k = col.copy()
    same_column(k, m, 'copy of the column')
    expect(k is not col and not any(a is b for a, b in zip(k, col)), 'copy of a column shares states')
    k.column_amplitude = 0.123
    k.column_identifier = 77
    k.set_photon_information({'time_delay': 99})
    for s in k:
        s.optical_components = [(name((0, 3)), 1)]
        s.classical_channel_values[0] = 55
    if m.states:
        k.add_state(real_state(SHARED[0], MSt({(3, 0): 1})))
    same_column(col, m, 'column after its copy was changed')


def generated(col, m):
    """one state from a column; the column stays as it is"""
    if not m.states:
        return
    t = m.copy()
    if max(m.total()) >= L:
        try:
            col.generate_single_state_from_column()
        except Exception:
            return
        raise Wrong('photon numbers %r do not fit, no error' % (m.total(),))
    for use in (True, False):
        t = m.copy()
        t.condense(use)
        s = col.generate_single_state_from_column(use_group_cumulative_probability_for_state=use)
        expect(set(read_oc(s)) == {m.total()} and close(read_oc(s)[m.total()], 1), 'state from the column has components %r, expected %r' % (read_oc(s), m.total()))
        expect(s.initial_state == t.states[0].label, 'label of the state from the column')
        if use or len({x.cum for x in m.states}) == 1:
            expect(close(s.cumulative_probability, t.states[0].cum), 'state from the column has probability %r, expected %r' % (s.cumulative_probability, t.states[0].cum))
        expect('photon_resolution' not in s.auxiliary_information, 'state from the column carries photon resolution')
    same_column(col, m, 'column after a state was made from it')


def regrouped(g, m):
    """one state from the group: components and column amplitudes"""
    if not m.cols or any(not c.states for c in m.cols):
        return
    t = [x for c in m.cols for x in c.split_all()]
    tots = [c.total() for c in t]
    if len(set(tots)) != len(tots) or any(max(v) >= L for v in tots):
        return
    if len({s.label for c in m.cols for s in c.states}) != 1:
        return
    h = duplicate(g)
    s = h.generate_single_state_from_interference_group()
    oc = read_oc(s)
    want = {c.total(): c.a['column_amplitude'] for c in t}
    # components below the threshold are set to zero
    want = {k: a for k, a in want.items() if abs(a) ** 2 > 1e-9 or k in oc}
    expect(set(oc) == set(want) and all(close(oc[k], want[k]) for k in want), 'state from the group has components %r, expected %r' % (oc, want))
    expect(all(close(v['probability'], abs(want[ref.values_of(k, L)]) ** 2) for k, v in s.optical_components.items()), 'probabilities of the components of the state from the group')
    if len({c.a['group_cumulative_probability'] for c in m.cols}) == 1:
        expect(close(s.cumulative_probability, m.cols[0].a['group_cumulative_probability']), 'state from the group has probability %r, expected %r' % (s.cumulative_probability, m.gcp))
    expect('photon_resolution' not in s.auxiliary_information, 'state from the group carries photon resolution')


OVERLAP = {'identical': lambda a, b: 1.0, 'labels': lambda a, b: 1.0 if (a or {}) == (b or {}) else 0.0, 'half': lambda a, b: 1.0 if (a or {}) == (b or {}) else 0.6}


def probabilities(g, m):
    """detection probabilities of a group of single components: sum over pairs of columns of permanents of overlaps"""
    if not m.cols or not all(c.states and c.single() and all(close(next(iter(s.oc.values())), 1) for s in c.states) for c in m.cols):
        return
    if any(max(c.total()) >= L or any(sum(s.first()) > 1 for s in c.states) for c in m.cols):
        return
    for which, f in OVERLAP.items():
        want = {}
        for a in m.cols:
            for b in m.cols:
                if a.total() != b.total():
                    continue
                x = 1
                for ch in range(N):
                    pa = [i for k, i in a.photons() if k == ch]
                    pb = [i for k, i in b.photons() if k == ch]
                    x *= ref.permanent([[f(p, q) for q in pb] for p in pa]) 
                want[a.total()] = want.get(a.total(), 0) + complex(a.a['column_amplitude']) * complex(b.a['column_amplitude']).conjugate() * x / (a.a['column_boson_factor'] * b.a['column_boson_factor'])
        h = duplicate(g)
        h.photon_probability_function = f
        out = h.total_probability_for_group_all_outcomes()
        expect(set(out) == {name(k) for k in want}, 'outcomes %r, expected %r' % (sorted(out), sorted(want)))
        for k, p in want.items():
            expect(close(out[name(k)], abs(p)), '%s photons: probability of outcome %r is %r, expected %r' % (which, k, out[name(k)], abs(p)))
        pick = [name(k) for k in list(want)[:1]] + [name((3, 3))]
        out = h.total_probability_for_group_all_outcomes(list_of_projections=pick)
        expect(set(out) == set(pick) and close(out[pick[0]], abs(want[next(iter(want))])) and ((3, 3) in want or close(out[pick[1]], 0)), '%s photons: probabilities for %r are %r' % (which, pick, out))
        h.rescale_boson_factors()
        for c in h.by_column():
            one = fsc.InterferenceGroup(list_of_state_columns=[c.copy()])
            one.photon_probability_function = f
            tot = sum(one.total_probability_for_group_all_outcomes().values())
            expect(close(tot, abs(complex(c.column_amplitude)) ** 2), '%s photons: after rescaling of the boson factors a column alone has probability %r, expected %r' % (which, tot, abs(c.column_amplitude) ** 2))


def observe(g, m, deep=True):
    same_group(g, m)
    if not deep:
        return
    for c in m.cols:
        col = g.extract_column_by_identifier(c.a['column_identifier'])
        independent(col, c)
        generated(col, c)
    regrouped(g, m)
    probabilities(g, m)
    same_group(g, m, 'group after it was read')


SHARED = [None]     # the collection that the states belong to


def duplicate(g):
    """a copy of the group as it is; the collection that the states belong to is shared"""
    return copylib.deepcopy(g, {id(SHARED[0]): SHARED[0]})


# ------------------------------------------------------------------ operations
INFO_A, INFO_B = {'time_delay': 0, 'pulse_width': 1}, {'time_delay': 2.5, 'pulse_width': 1}

OPS = [('split',), ('photons',), ('rescale',), ('gid', 7), ('gcp', 0.25)]
OPS += [('state', n, aux, ident) for n, aux, ident in (('sup', None, None), ('one', None, 0), ('two', None, 5), ('eleven', {'column_identifier': 0}, None), ('vac', {'column_identifier': 3, 'column_amplitude': 0.5j, 'column_boson_factor': 2.0}, None),
                                                       ('three', {'column_identifier': 1}, 5), ('one', {'photon_information': INFO_B}, None))]
OPS += [('column', ns, ident) for ns, ident in ((('one', 'vac'), None), (('sup',), 5), (('two',), 0), ((), 3))]
OPS += [('set', k, v) for k, v in (('column_amplitude', 0.3 - 0.4j), ('column_boson_factor', 1.5), ('group_cumulative_probability', 0.5))]
OPS += [('info', INFO_A, None, None), ('info', INFO_B, [[1, 0], (2, 0)], None), ('info', INFO_B, [(0, 1)], INFO_A)]
OPS += [('condense', True), ('condense', False), ('colsplit', 9), ('copy',)]


def target(m):
    """operations on one column act on the one with the lowest identifier"""
    return m.get(min(m.ids()))


def model_op(op, m):
    """returns (new model, how the result is to be compared) or None when the operation is not specified there"""
    m = m.copy()
    t = op[0]
    if t == 'split':
        m.cols = [x for c in m.cols for x in c.split_all()]
        return m, 'any'
    if t == 'photons':
        if not all(c.single() for c in m.cols):
            return m, 'error'
        if not all(close(next(iter(s.oc.values())), 1) for c in m.cols for s in c.states):
            return None
        for c in m.cols:
            c.expand()
        return m, 'same'
    if t == 'rescale':
        tot = math.sqrt(sum(abs(c.a['column_amplitude']) ** 2 for c in m.cols))
        if not m.cols:
            return None
        for c in m.cols:
            c.a['column_amplitude'] = c.a['column_amplitude'] / tot
        return m, 'same'
    if t == 'gid':
        m.gid = op[1]
        for c in m.cols:
            c.a['interference_group_identifier'] = op[1]
        return m, 'same'
    if t == 'gcp':
        m.gcp = op[1]
        for c in m.cols:
            c.a['group_cumulative_probability'] = op[1]
        return m, 'same'
    if t == 'state':
        aux = op[2] or {}
        s = MSt(MENU[op[1]], aux.get('photon_information'))
        ident = op[3] if op[3] is not None else aux.get('column_identifier')
        c = m.get(ident) if ident is not None else None
        if c is not None:
            c.states.append(s)
        else:
            m.add_column(MCol([s], **{k: v for k, v in aux.items() if k in DEF}), ident)
        return m, 'same'
    if t == 'column':
        m.add_column(MCol([MSt(MENU[n]) for n in op[1]]), op[2])
        return m, 'same'
    if not m.cols:
        return None
    c = target(m)
    if t == 'set':
        c.a[op[1]] = op[2]
        return m, 'same'
    if t == 'info':
        for s in c.states:
            if op[2] is None or s.first() in [tuple(v) for v in op[2]]:
                s.info = op[1]
            elif op[3] is not None:
                s.info = op[3]
        if op[2] is not None and any(len(s.oc) != 1 for s in c.states):
            return None
        return m, 'same'
    if t == 'condense':
        if not c.states or max(c.total()) >= L or not c.single() or len({(repr(s.info), s.cl, s.cum) for s in c.states}) != 1:
            return None
        c.condense(op[1])
        return m, 'same'
    if t == 'colsplit':
        if op[1] in m.ids() or any(len(s.oc) == 1 and not close(next(iter(s.oc.values())), 1) for s in c.states):
            return None
        for n, s in enumerate(c.states):
            if len(s.oc) > 1:
                break
        else:
            return m, 'same'
        (v, a), rest = next(iter(s.oc.items())), dict(list(s.oc.items())[1:])
        new = c.copy()
        new.states[n].oc = {v: 1}
        new.a['column_amplitude'] = new.a['column_amplitude'] * a
        r = next(iter(rest.values())) if len(rest) == 1 else math.sqrt(sum(abs(x) ** 2 for x in rest.values()))
        s.oc = {k: x / r for k, x in rest.items()}
        c.a['column_amplitude'] = c.a['column_amplitude'] * r
        new.a['column_identifier'] = op[1]
        m.cols.append(new)
        return m, 'same'
    if t == 'copy':
        k = c.copy()
        m.add_column(k)
        return m, 'same'
    raise AssertionError(op)


def real_op(op, g, coll):
    t = op[0]
    low = lambda: g.extract_column_by_identifier(min(c.column_identifier for c in g.by_column()))
    if t == 'split':
        g.split_columns()
    elif t == 'photons':
        g.single_photon_states()
    elif t == 'rescale':
        g.rescale_column_amplitudes()
    elif t == 'gid':
        g.interference_group_identifier = op[1]
    elif t == 'gcp':
        g.group_cumulative_probability = op[1]
    elif t == 'state':
        kw = {} if op[3] is None else dict(column_identifier=op[3])
        g.add_state(real_state(coll, MSt(MENU[op[1]]), op[2]), **kw)
    elif t == 'column':
        kw = {} if op[2] is None else dict(column_identifier=op[2])
        g.add_column(fsc.ColumnOfStates(list_of_states=[real_state(coll, MSt(MENU[n])) for n in op[1]]), **kw)
    elif t == 'set':
        setattr(low(), op[1], op[2])
    elif t == 'info':
        if op[2] is None:
            low().set_photon_information(dict(op[1]))
        else:
            low().set_photon_information(dict(op[1]), filter_for_optical_values=op[2], default_photon_information=None if op[3] is None else dict(op[3]))
    elif t == 'condense':
        low().condense_column_to_single_state(use_group_cumulative_probability_for_state=op[1])
    elif t == 'colsplit':
        new = low().split(new_column_identifier=op[1])
        if new is not None:
            expect(new.column_identifier == op[1], 'split column has identifier %r, expected %r' % (new.column_identifier, op[1]))
            g.add_column(new, column_identifier=op[1])
    elif t == 'copy':
        g.add_column(low().copy())
    else:
        raise AssertionError(op)


STARTS = [('state', n) for n in MENU] + [('aux', 'sup', dict(DEF, column_identifier=4, column_amplitude=0.5, interference_group_identifier=3, group_cumulative_probability=0.5)), ('empty', None), ('empty', 2), ('columns', ('sup', 'two')), ('columns', ('one', 'noon')),
                                             ('group', 'dense', 6)]


def model_start(st):
    if st[0] == 'state':
        return MGroup([MCol([MSt(MENU[st[1]], cum=0.75)], group_cumulative_probability=0.75)], 0, 0.75)
    if st[0] == 'aux':
        return MGroup([MCol([MSt(MENU[st[1]], cum=0.75)], **dict(st[2], group_cumulative_probability=0.75))], 3, 0.75)
    if st[0] == 'empty':
        return MGroup([], 0 if st[1] is None else st[1], 1)
    if st[0] == 'columns':
        return MGroup([MCol([MSt(MENU[n])], column_identifier=k, column_amplitude=R2, interference_group_identifier=2, group_cumulative_probability=0.5) for k, n in enumerate(st[1])], 2, 0.5)
    if st[0] == 'group':
        return MGroup([MCol([MSt(MENU[st[1]], cum=0.75)], interference_group_identifier=st[2], group_cumulative_probability=0.75)], st[2], 0.75)


def real_start(st, coll):
    if st[0] == 'state':
        return fsc.InterferenceGroup(state=real_state(coll, MSt(MENU[st[1]], cum=0.75)))
    if st[0] == 'aux':
        return fsc.InterferenceGroup(state=real_state(coll, MSt(MENU[st[1]], cum=0.75), st[2]))
    if st[0] == 'empty':
        return fsc.InterferenceGroup() if st[1] is None else fsc.InterferenceGroup(interference_group_identifier=st[1])
    if st[0] == 'columns':
        return fsc.InterferenceGroup(list_of_state_columns=[fsc.ColumnOfStates(state=real_state(coll, MSt(MENU[n])), column_information=dict(column_identifier=k, column_amplitude=R2, interference_group_identifier=2, group_cumulative_probability=0.5))
                                                            for k, n in enumerate(st[1])])
    if st[0] == 'group':
        return fsc.InterferenceGroup(state=real_state(coll, MSt(MENU[st[1]], cum=0.75)), interference_group_identifier=st[2])


MAXCOLS, MAXSTATES = 40, 12


def small(m):
    return len(m.cols) <= MAXCOLS and all(len(c.states) <= MAXSTATES for c in m.cols)


def explore(rep, st, depth, first=None):
    c = circuit()
    coll = fsc.CollectionOfStates(c)
    coll.clear()
    SHARED[0] = coll

    def go(g, m, path):
        if len(path) == depth:
            return
        for op in (OPS if path or first is None else [OPS[first]]):
            r = model_op(op, m)
            if r is None:
                continue
            m2, how = r
            if not small(m2):
                rep.count('too_many_columns')
                continue
            case = dict(start=st, operations=path + [op])
            rep.step()
            ok = False
            with rep.guard('group-' + op[0], case):
                h = duplicate(g)
                try:
                    if how == 'error':
                        try:
                            real_op(op, h, coll)
                        except Exception:
                            rep.count('refused')
                            continue
                        raise Wrong('states with several components are expanded into photons without an error')
                    real_op(op, h, coll)
                    if how == 'any':
                        adopt(h, m2)
                    new = rep.state(repr((st, m2.key())))
                    observe(h, m2, deep=new)
                    ok = True
                except Wrong as e:
                    rep.violation('group-' + op[0], case, str(e))
                rep.trace(case)
            if ok and (new or len(path) + 1 < depth):
                go(h, m2, path + [op])

    with rep.guard('group-start', dict(start=st)):
        g, m = real_start(st, coll), model_start(st)
        try:
            observe(g, m)
        except Wrong as e:
            rep.violation('group-start', dict(start=st), str(e))
            return
        rep.state(repr((st, m.key())))
        go(g, m, [])


# ------------------------------------------------------------------ constructors of columns
def constructors(rep, part):
    c = circuit()
    coll = fsc.CollectionOfStates(c)
    coll.clear()
    SHARED[0] = coll
    values = dict(column_amplitude=0.6j, column_boson_factor=1.25, column_identifier=4, group_cumulative_probability=0.3, interference_group_identifier=2)
    other = dict(column_amplitude=-0.5, column_boson_factor=3.0, column_identifier=8, group_cumulative_probability=0.7, interference_group_identifier=5)
    subsets = [tuple(k for n, k in enumerate(KEYS) if mask >> n & 1) for mask in range(32)]
    for a, b in itertools.product(subsets[part::4], subsets):
        aux, info = {k: values[k] for k in a}, {k: other[k] for k in b}
        for form in ('state', 'list', 'list2', 'empty'):
            case = dict(form=form, state_information=aux, column_information=info)
            if form == 'empty' and aux:
                continue
            rep.step()
            rep.state((form, a, b))
            with rep.guard('column-constructor', case):
                try:
                    kw = dict(column_information=dict(info)) if info else {}
                    want = dict(DEF, **aux) | info
                    s1, s2 = MSt(MENU['sup'], INFO_A if 'column_amplitude' in a else None), MSt(MENU['two'])
                    ax = dict(aux, photon_information=INFO_A) if s1.info else aux
                    r1 = real_state(coll, s1, ax if ax else None)
                    if form == 'state':
                        col, m = fsc.ColumnOfStates(state=r1, **kw), MCol([s1], **want)
                    elif form == 'list':
                        col, m = fsc.ColumnOfStates(list_of_states=[r1], **kw), MCol([s1], **want)
                    elif form == 'list2':
                        # only the first state in the list is evaluated
                        col, m = fsc.ColumnOfStates(list_of_states=[r1, real_state(coll, s2, dict(values, column_amplitude=0.1) if len(b) % 2 else None)], **kw), MCol([s1, s2], **want)
                    else:
                        col, m = fsc.ColumnOfStates(**kw), MCol([], **want)
                    same_column(col, m, 'new column')
                    independent(col, m)
                    new = MSt(MENU['one'])
                    col.add_state(real_state(coll, new, dict(values) if len(a) % 2 else None))
                    m.states.append(new)
                    same_column(col, m, 'column after a state was added')
                    for n, k in enumerate(KEYS):
                        setattr(col, k, [11, 0.25 - 0.5j, 0.125, 12, 0.0625][n])
                        m.a[k] = [11, 0.25 - 0.5j, 0.125, 12, 0.0625][n]
                        same_column(col, m, 'column after %s was set' % k)
                    fresh = fsc.ColumnOfStates()
                    same_column(fresh, MCol([]), 'the next column')
                except Wrong as e:
                    rep.violation('column-constructor', case, str(e))
                rep.trace(case)
    with rep.guard('both', dict()):
        for f, kw in ((fsc.ColumnOfStates, dict(list_of_states=[real_state(coll, MSt(MENU['one']))], state=real_state(coll, MSt(MENU['one'])))),
                      (fsc.InterferenceGroup, dict(list_of_state_columns=[fsc.ColumnOfStates()], state=real_state(coll, MSt(MENU['one']))))):
            try:
                f(**kw)
            except Exception:
                continue
            rep.violation('both', dict(kind=f.__name__), 'a state and a list are accepted together')


# ------------------------------------------------------------------ collections of columns
CSTARTS = [
    [('a', 'sup', None)],
    [('a', 'one', None), ('a', 'noon', None), ('b', 'dense', None)],
    [('b', 'three', None), ('a', 'minus', None), ('b', 'vac', None), ('c', 'sup', None)],
    # (identifier of the group, of the column)
    [('a', 'one', (0, 0)), ('a', 'two', (0, 0)), ('a', 'sup', (0, 1)), ('a', 'eleven', (1, 0)), ('b', 'noon', (1, 3))],
    [('b', 'sup', (5, 2)), ('a', 'sup', (5, 2)), ('a', 'vac', (5, 2)), ('a', 'one', (2, 2)), ('a', 'three', (5, 0))],
    [],
]
COPS = ['split', 'photons', 'renew', 'regenerate', 'number', 'probability', 'move', 'function']


class MColl:
    def __init__(self):
        self.d = {}

    def copy(self):
        m = MColl()
        m.d = {l: {g: x.copy() for g, x in gs.items()} for l, gs in self.d.items()}
        return m

    def groups(self):
        return [(l, g, x) for l, gs in self.d.items() for g, x in gs.items()]

    def key(self):
        return tuple((l, tuple(x.key() for x in gs.values())) for l, gs in self.d.items())

    def regroup(self):
        """as built again from what the states carry"""
        new = {}
        for l, gs in self.d.items():
            for x in gs.values():
                for c in x.cols:
                    for s in c.states:
                        t = new.setdefault(l, {})
                        gid = c.a['interference_group_identifier']
                        if gid not in t:
                            t[gid] = MGroup([], gid, c.a['group_cumulative_probability'])
                        col = t[gid].get(c.a['column_identifier'])
                        if col is None:
                            col = MCol([], **c.a)
                            t[gid].cols.append(col)
                        col.states.append(s.copy())
        self.d = new


def collection_start(c, spec):
    coll = fsc.CollectionOfStates(c)
    coll.clear()
    m = MColl()
    for n, (label, st, ids) in enumerate(spec):
        cum = [0.5, 0.25, 0.125][n % 3]
        s = MSt(MENU[st], label=label, cum=cum, cl=(n,))
        gs = m.d.setdefault(label, {})
        if ids is None:
            coll.add_state(real_state(coll, s))
            gs[len(gs)] = MGroup([MCol([s], interference_group_identifier=len(gs), group_cumulative_probability=cum)], len(gs), cum)
        else:
            a = dict(DEF, interference_group_identifier=ids[0], column_identifier=ids[1], column_amplitude=[1, 0.6, 0.8j][ids[1] % 3], group_cumulative_probability=[0.5, 0.25][ids[0] % 2])
            coll.add_state(real_state(coll, s, a))
            if ids[0] not in gs:
                gs[ids[0]] = MGroup([], ids[0], a['group_cumulative_probability'])
            col = gs[ids[0]].get(ids[1])
            if col is None:
                col = MCol([], **a)
                gs[ids[0]].cols.append(col)
            col.states.append(s)
    return coll, m


def same_columns(cc, m, how='same'):
    d = cc.as_dictionary()
    expect(set(d) == set(m.d), 'initial states %r, expected %r' % (sorted(d), sorted(m.d)))
    groups = list(cc.by_group())
    cols = list(cc.by_column())
    states = list(cc.by_state())
    expect(sorted(map(id, cols)) == sorted(id(x) for g in groups for x in g.by_column()), 'by_column and by_group disagree')
    expect(sorted(map(id, states)) == sorted(id(s) for x in cols for s in x), 'by_state and by_column disagree')
    expect(len(set(map(id, states))) == len(states), 'a state appears twice')
    expect(len(groups) == len(m.groups()), '%d groups, expected %d' % (len(groups), len(m.groups())))
    for l, gs in m.d.items():
        expect(set(d[l]) == set(gs), 'groups %r for %r, expected %r' % (sorted(d[l]), l, sorted(gs)))
        free = 0
        while free in gs:
            free += 1
        expect(cc.find_next_free_interference_group_identifier(l) == free, 'next free group identifier for %r' % l)
        for gid, x in gs.items():
            expect(any(d[l][gid] is g for g in groups), 'as_dictionary and by_group disagree')
            (adopt if how == 'any' else same_group)(d[l][gid], x, 'group %r of %r' % (gid, l))


def collections(rep, spec, depth):
    c = circuit()

    def build(path):
        coll, m = collection_start(c, spec)
        cc = fsc.CollectionOfStateColumns(coll)
        how = 'same'
        for k, op in enumerate(path):
            how = 'same'
            if op == 'split':
                cc.split()
                for l, g, x in m.groups():
                    x.cols = [y for col in x.cols for y in col.split_all()]
                how = 'any'
            elif op == 'photons':
                if not all(col.single() and all(close(next(iter(s.oc.values())), 1) for s in col.states) for l, g, x in m.groups() for col in x.cols):
                    return None
                cc.single_photon_states()
                for l, g, x in m.groups():
                    for col in x.cols:
                        col.expand()
            elif op in ('renew', 'regenerate'):
                if op == 'renew':
                    new = cc.new_instance_from_state_information()
                    expect(new is not cc, 'not a new instance')
                else:
                    gen = cc.generate_collection_of_states()
                    got, want = list(gen), list(cc.by_state())
                    expect(len(got) == len(want), 'the collection has %d states, expected %d' % (len(got), len(want)))
                    for a, b in zip(got, want):
                        expect(a is not b, 'the collection shares states with the columns')
                        same_state(a, read_state(b), 'state of the collection')
                        ia, ib = a.auxiliary_information['photon_resolution'], b.auxiliary_information['photon_resolution']
                        expect(all(close(ia[q], ib[q]) for q in KEYS), 'the states of the collection carry other information than those of the columns')
                    new = fsc.CollectionOfStateColumns(gen)
                expect(not {id(s) for s in new.by_state()} & {id(s) for s in cc.by_state()}, 'the new instance shares states')
                old, before = cc, m.copy()
                cc = new
                m.regroup()
                same_columns(cc, m)
                # the one it was made from is not changed by what happens to the new one
                for s in cc.by_state():
                    s.cumulative_probability = s.cumulative_probability / 2
                for l, g, x in m.groups():
                    for col in x.cols:
                        for s in col.states:
                            s.cum /= 2
                if not any(q == 'move' for q in path[:k]) or 'renew' in path[:k] or 'regenerate' in path[:k]:
                    same_columns(old, before)
            elif op == 'number':
                for n, g in enumerate(cc.by_group()):
                    for l, i, x in m.groups():
                        if cc.as_dictionary()[l][i] is g:
                            g.interference_group_identifier = 20 + n
                            x.gid = 20 + n
                            for col in x.cols:
                                col.a['interference_group_identifier'] = 20 + n
            elif op == 'probability':
                for l, i, x in m.groups():
                    cc.as_dictionary()[l][i].group_cumulative_probability = x.gcp * 0.5
                    x.gcp *= 0.5
                    for col in x.cols:
                        col.a['group_cumulative_probability'] = x.gcp
            elif op == 'move':
                # the states of one column are told to belong to a group of their own, then the collection is renewed
                if not m.groups():
                    return None
                l, i, x = m.groups()[0]
                if len(x.cols) < 2:
                    return None
                col = x.cols[-1]
                for s in cc.as_dictionary()[l][i].extract_column_by_identifier(col.a['column_identifier']):
                    s.auxiliary_information['photon_resolution']['interference_group_identifier'] = 50 + k
                col.a['interference_group_identifier'] = 50 + k
                cc = cc.new_instance_from_state_information()
                m.regroup()
            elif op == 'function':
                f = lambda a, b: 0.5
                fresh = fsc.CollectionOfStateColumns(cc.generate_collection_of_states())
                try:
                    fresh.photon_probability_function
                except Exception:
                    pass
                else:
                    raise Wrong('photon_probability_function is not set, no error')
                fresh.photon_probability_function = f
                expect(fresh.photon_probability_function is f and all(g.photon_probability_function is f for g in fresh.by_group()), 'photon_probability_function does not reach all groups')
            if k == len(path) - 1 or how == 'any':
                same_columns(cc, m, how)
        if not path:
            same_columns(cc, m)
        return cc, m

    def go(path):
        case = dict(states=spec, operations=path)
        key = 'collection-' + (path[-1] if path else 'start')
        rep.step()
        r = None
        with rep.guard(key, case):
            try:
                r = build(path)
                if r is None:
                    return
                rep.state((str(spec), r[1].key()))
            except Wrong as e:
                rep.violation(key, case, str(e))
            rep.trace(case)
        if r is not None and len(path) < depth:
            for op in COPS:
                go(path + [op])
    go([])


def many_components(rep, n):
    """states with many components are split like those with few"""
    c = fsc.FockStateCircuit(length_of_fock_state=n, no_of_optical_channels=2, no_of_classical_channels=0)
    coll = fsc.CollectionOfStates(c)
    coll.clear()
    s = fsc.State(coll)
    vals = ref.all_values(n, 2)
    vec = generic_vector(vals)
    s.optical_components = [(ref.name_of(v, n), a) for v, a in vec.items()]
    coll.add_state(s)
    case = dict(components=len(vals))
    rep.step()
    rep.state(('many', n))
    with rep.guard('many', case):
        try:
            cc = fsc.CollectionOfStateColumns(coll)
            cc.split()
            got = {}
            for col in cc.by_column():
                expect(len(col) == 1 and len(col[0].optical_components) == 1, 'not a single component')
                got[tuple(col.generate_optical_component_corresponding_to_column(return_values_instead_of_component_name_as_string=True))] = col.column_amplitude
            expect(set(got) == set(vec) and all(close(got[k], vec[k]) for k in vec), 'after the split %d components, expected %d with the same amplitudes' % (len(got), len(vec)))
        except Wrong as e:
            rep.violation('many', case, str(e))
        rep.trace(case)


def shards(tier):
    depth = 2 if tier == 'quick' else 3
    res = [('group', n, depth, k) for n in range(len(STARTS)) for k in range(len(OPS))]
    res += [('construct', k) for k in range(4)]
    res += [('collection', k, 4 if tier == 'quick' else 5) for k in range(len(CSTARTS))]
    res += [('many', 34)]
    return res


def run(item, rep):
    if item[0] == 'group':
        explore(rep, STARTS[item[1]], item[2], item[3])
    elif item[0] == 'construct':
        constructors(rep, item[1])
    elif item[0] == 'many':
        many_components(rep, item[1])
    else:
        collections(rep, CSTARTS[item[1]], item[2])
