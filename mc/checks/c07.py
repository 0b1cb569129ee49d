"""C07: evaluation, inspection, copying: a heap model of collections explored over all short histories of operations."""
import itertools, math, copy, re
import numpy as np
import fock_state_circuit as fsc
from fock_state_circuit.quantum_operator_functionality.quantum_operators import Hamiltonian
from mc import ref, impl
from mc.common import *

LEVEL = 'model_checking'
RULE = ('state = history of operations (evaluate program P on slot i, copy slot i, inspect slot i, mutate slot i); after every operation the deep content of every slot '
        'that the operation may not change is compared with its recorded content, and evaluating equal content with an equal program must give equal results')
ASSUMPTIONS = ['user functions in generic nodes work on copies (they are supplied by the user)', 'circuits have at least one node']

L, N, C = 3, 4, 4
THR7 = 1e-6
PR = [{'channels_Ah_Av_Bh_Bv': [0, 1, 2, 3], 'quantumness_indicator': 1}]


def _bridge(c, n=N, cc=C, l=L, left=True):
    d = fsc.FockStateCircuit(length_of_fock_state=l, no_of_optical_channels=n, no_of_classical_channels=cc, channel_0_left_in_state_name=left, threshold_probability_for_setting_to_zero=THR7)
    d.mix_50_50(0, 1)
    d.bridge  # noqa
    c.bridge(d)


def _ham(c):
    c.hamiltonian_operator_gate([1, 0], [Hamiltonian([('+0-0', 0.4), ('-0+0', -0.4)], [0, 0, 1, 1])])


PROGS = {
    'wp': lambda c: c.wave_plate(0, 1, 0.4, 1.1),
    'ps': lambda c: c.phase_shift_single_channel(2, 0.3),
    'swap': lambda c: c.swap(2, 0),
    'opt2': lambda c: (c.mix_50_50(1, 2), c.polarizing_beamsplitter((0, 1), (2, 3))),
    'custom': lambda c: c.custom_optical_node(np.array([[0.6, 0.8j], [0.8j, 0.6]]), [0, 3]),
    'fock': lambda c: c.custom_fock_state_node(ref.fock_matrix('four', L, N)),
    'shift': lambda c: c.shift([0, 1], [1, 2]),
    'shiftd': lambda c: c.shift_direct([0, 1], [1, 2]),
    'cshift': lambda c: c.c_shift([0], [1]),
    'cshiftd': lambda c: c.c_shift_direct([0], [1]),
    'coup': lambda c: c.channel_coupling([0], [1], 0.4),
    'setc': lambda c: c.set_classical_channels([5, 6], [0, 2]),
    'cfun': lambda c: c.classical_channel_function(ref.CLASSICAL_FUNCS['reverse'], affected_channels=[0], new_input_values=[1]),
    'cfun_inplace': lambda c: c.classical_channel_function(_inplace, affected_channels=[1], new_input_values=[8]),
    'psc': lambda c: c.phase_shift_single_channel_classical_control(1, 0),
    'wpc': lambda c: c.wave_plate_classical_control(0, 1, 2, 3),
    'wph': lambda c: c.wave_plate_from_hamiltonian(0, 1, 0.4, 1.1),
    'wphc': lambda c: c.wave_plate_from_hamiltonian_classical_control(0, 1, 0, 1),
    'ham': _ham,
    'meas1': lambda c: c.measure_optical_to_classical([0], [1]),
    'meas4': lambda c: c.measure_optical_to_classical([0, 1, 2, 3], [3, 2, 1, 0]),
    'meas-set': lambda c: (c.measure_optical_to_classical([1], [0]), c.set_classical_channels([7], [0])),
    'gen': lambda c: c.generic_function_on_collection(impl.generic('flip0', L, N), parameters=[]),
    'delay': lambda c: c.time_delay([0], 0.7, 1.0),
    'delayc': lambda c: c.time_delay_classical_control([0], 1, 1.0),
    'delayfull': lambda c: c.time_delay_full([1], 0.7, 1.0),
    'delayfullc': lambda c: c.time_delay_classical_control_full([1], 1, 1.0),
    'pulse': lambda c: c.set_pulse_width([0, 1], 2.0),
    'delay-meas': lambda c: (c.time_delay([0], 0.7, 1.0), c.mix_50_50(0, 1), c.measure_optical_to_classical([0, 1], [0, 1])),
    'pr': lambda c: c.popescu_rohrlich_correlation_gate(pr_correlation=PR),
    'pr-meas': lambda c: (c.popescu_rohrlich_correlation_gate(pr_correlation=PR), c.half_wave_plate(0, 1, 0.3), c.measure_optical_to_classical([0, 1, 2, 3], [0, 1, 2, 3])),
    'nsbox': lambda c: c.create_no_signalling_boxes(ns_boxes=PR),
    'bridge': lambda c: (c.swap(0, 1), _bridge(c)),
    'bridge-small': lambda c: _bridge(c, 3, 3),
    'bridge-large': lambda c: _bridge(c, 5, 5, 4),
    'bridge-only': lambda c: _bridge(c, 4, 4, 3, False),
}
SLOW = {'delayfull', 'delayfullc', 'delay-meas', 'pr-meas'}


def _inplace(cur, new, aff):
    for i, ch in enumerate(aff):
        cur[ch] = new[i]
    return cur


def m_amp(x):
    s = first(x)
    k = next(iter(s.optical_components))
    s.optical_components[k]['amplitude'] = 0.123
    s.optical_components[k]['probability'] = 0.015129


def m_delcomp(x):
    s = first(x)
    s.optical_components.pop(next(iter(s.optical_components)))


def m_addcomp(x):
    s = last(x)
    s.optical_components['0' * (x._no_of_optical_channels * len(str(x._length_of_fock_state - 1)))] = {'amplitude': 0.5, 'probability': 0.25}


def m_aux(x):
    s = first(x)
    if 'note' in s.auxiliary_information:
        s.auxiliary_information['note'].append(3)
    else:
        s.auxiliary_information['new'] = 1


def m_auxdeep(x):
    for v in first(x).auxiliary_information.values():
        if isinstance(v, dict):
            for w in list(v.values()):
                if isinstance(w, list):
                    w.append(99)
                elif isinstance(w, dict):
                    w['zz'] = 9
            v['zz'] = 8


def m_hist(x):
    for s in x:
        if s.measurement_results:
            s.measurement_results[0]['measurement_results'][0] = 55


def m_histprob(x):
    for s in x:
        if s.measurement_results:
            s.measurement_results[-1]['probability'] = 0.01


def m_addstate(x):
    s = first(x).copy()
    s.initial_state = 'added'
    x.add_state(s)


def first(x):
    for s in x:
        return s


def last(x):
    for s in x:
        pass
    return s


MUTS = {
    'amp': m_amp, 'delcomp': m_delcomp, 'addcomp': m_addcomp,
    'cl': lambda x: first(x).classical_channel_values.__setitem__(0, 99),
    'cl2': lambda x: last(x).classical_channel_values.__setitem__(1, 98),
    'histval': m_hist, 'histprob': m_histprob,
    'histapp': lambda x: last(x).measurement_results.append({'measurement_results': [0] * x._no_of_classical_channels, 'probability': 0.5}),
    'cum': lambda x: setattr(first(x), 'cumulative_probability', 0.111),
    'init': lambda x: setattr(last(x), 'initial_state', 'zz'),
    'aux': m_aux, 'auxdeep': m_auxdeep,
    'delstate': lambda x: x.delete_state(identifier=x.state_identifiers_as_list()[0]),
    'addstate': m_addstate,
    'clear': lambda x: x.clear(),
    'filter': lambda x: x.filter_on_identifier([x.state_identifiers_as_list()[0]]),
    'cleanup': lambda x: x.clean_up(),
    'extend': lambda x: x.extend(extra_optical_channels=1, extra_classical_channels=1),
    'reduce': lambda x: x.reduce(optical_channels_to_keep=[0, 1]),
    'adjust': lambda x: x.adjust_length_of_fock_state(4),
    'setvec': lambda x: first(x).set_state_components_from_vector([0] + [1] + [0] * (x._length_of_fock_state ** x._no_of_optical_channels - 2)),
    'oclist': lambda x: setattr(first(x), 'optical_components', [(next(iter(first(x).optical_components)), 1.0)]),
}

INSPECT = {
    'str': lambda x, c: (str(x), repr(x), [str(s) for s in x]),
    'print': lambda x, c: [s.print_optical_components() for s in x],
    'listing': lambda x, c: (len(x), list(x.items()), list(x.keys()), list(x.values()), bool(x), x.state_identifiers_as_list(), x.initial_states_as_list()),
    'density': lambda x, c: [x.density_matrix(initial_state=s.initial_state) for s in x] and x.density_matrix(),
    'plot1': lambda x, c: x.plot(classical_channels=[1, 0], histo_output_instead_of_plot=True),
    'plot0': lambda x, c: x.plot(histo_output_instead_of_plot=True),
    'plot2': lambda x, c: x.plot(classical_channels=[0], initial_states=[first(x).initial_state], histo_output_instead_of_plot=True) if x else None,
    'corr': lambda x, c: x.plot_correlations(channel_combis_for_correlation=[(0, 1)], correlation_output_instead_of_plot=True),
    'photons': lambda x, c: [s.photon_number() for s in x if s.optical_components],
    'inner': lambda x, c: [s.inner(t) for s in x for t in x],
    'outer': lambda x, c: [s.outer(s) for s in x],
    'tensor': lambda x, c: [s.tensor(t) for s in x for t in x],
    'vector': lambda x, c: [s.translate_state_components_to_vector()[0].__imul__(0) for s in x],
    'statecopy': lambda x, c: [_wreck(s.copy()) for s in x],
    'get': lambda x, c: [x.get_state(identifier=i) for i in x.state_identifiers_as_list()],
    'flags': lambda x, c: (x.is_photon_resolved(), x.has_pr_correlations()) if len(x) else None,
    'init': lambda x, c: [s.create_initialized_state() for s in x],
    'template': lambda x, c: x.copy(empty_template=True),
    'circuit': lambda x, c: (str(c), list(c.basis().items()), c.get_fock_state_matrix([0]) if c.node_list[0]['node_type'] == 'optical' else 0),
}


def _wreck(s):
    """destroy everything reachable from a copied state"""
    for v in s.optical_components.values():
        v['amplitude'] = 9
    s.optical_components.clear()
    s.classical_channel_values[:] = [77] * len(s.classical_channel_values)
    for h in s.measurement_results:
        if isinstance(h['measurement_results'], list):
            h['measurement_results'][:] = [66]
        h['probability'] = 5
    s.measurement_results.clear()
    for v in s.auxiliary_information.values():
        if hasattr(v, 'clear'):
            v.clear()
    s.auxiliary_information.clear()


def deep(x):
    if isinstance(x, dict):
        return tuple((k, deep(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return tuple(deep(v) for v in x)
    if isinstance(x, np.ndarray):
        return ('array', x.tolist().__repr__())
    if isinstance(x, fsc.State):
        return ('state', deep(x.state))
    return repr(x)


def fingerprint(coll):
    return (coll._length_of_fock_state, coll._no_of_optical_channels, coll._no_of_classical_channels, coll._channel_0_left_in_state_name,
            tuple((i, deep({k: v for k, v in coll.get_state(identifier=i).state.items() if not (k == 'auxiliary_information' and not v)})) for i in coll.state_identifiers_as_list()))


NUM = re.compile(r'-?\d+\.\d+(?:e-?\d+)?|-?\d+e-\d+')


def canon(coll):
    """content without identifiers, for comparing repeated evaluations"""
    res = []
    for s in coll:
        m = impl.read_state(s, coll._length_of_fock_state, coll._channel_0_left_in_state_name)
        aux = NUM.sub(lambda t: '%.5f' % (float(t.group()) + 0.0), repr(deep(s.auxiliary_information)))
        aux = re.sub(r'-0\.00000', '0.00000', aux)
        aux = re.sub(r'\d{8,}', 'ID', aux)
        res.append((repr(m.key()), len(aux)))
    return tuple(sorted(res))


def base():
    c = fsc.FockStateCircuit(length_of_fock_state=L, no_of_optical_channels=N, no_of_classical_channels=C, threshold_probability_for_setting_to_zero=THR7)
    coll = [ref.MS('p', 0.5, {(1, 1, 0, 0): 0.6 + 0j, (0, 1, 1, 0): 0.8j}, (0.2, 0.5, 1, 2), (((0, 1, 2, 3), 0.5),)),
            ref.MS('q', 0.25, {(1, 0, 0, 1): 1.0 + 0j}, (0.3, 0.1, 0, 1), (((1, 1, 1, 1), 0.5), ((2, 2, 2, 2), 0.5)))]
    x = impl.collection(c, coll, L, True)
    for s in x:
        s.auxiliary_information = {'note': [1, 2], 'sub': {'a': [1], 'b': {'c': 2}}}
    return c, x


class World:
    def __init__(self, rep, case):
        self.rep, self.case = rep, case
        self.c0, x = base()
        self.slots = [x]
        self.prints = [fingerprint(x)]
        self.circuits = {}
        self.memo = {}

    def circuit(self, p):
        if p not in self.circuits:
            c = fsc.FockStateCircuit(length_of_fock_state=L, no_of_optical_channels=N, no_of_classical_channels=C, threshold_probability_for_setting_to_zero=THR7)
            PROGS[p](c)
            self.circuits[p] = c
        return self.circuits[p]

    def compatible(self, x):
        return x._length_of_fock_state == L and x._no_of_optical_channels == N and x._no_of_classical_channels == C and x._channel_0_left_in_state_name and len(x) > 0

    def do(self, op):
        kind, what, i = op
        x = self.slots[i]
        mutated = None
        if kind == 'eval':
            c = self.circuit(what)
            key = (what, self.prints[i])
            out = impl.evaluate(c, x)
            got = canon(out)
            if self.memo.setdefault(key, got) != got:
                self.bad('re-evaluation', 'evaluating the same program on the same content gives another result')
            self.slots.append(out)
            self.prints.append(fingerprint(out))
        elif kind == 'copy':
            y = x.copy()
            self.slots.append(y)
            self.prints.append(fingerprint(y))
            if self.prints[-1] != self.prints[i]:
                self.bad('copy', 'copy() has other content than the original')
        elif kind == 'inspect':
            INSPECT[what](x, self.circuit('opt2'))
        else:
            mutated = i
            MUTS[what](x)
            self.prints[i] = fingerprint(x)
        for j, y in enumerate(self.slots):
            if j != mutated:
                f = fingerprint(y)
                if f != self.prints[j]:
                    self.bad('%s-%s' % (kind, what), 'operation %r changed collection %d:\n%s\n->\n%s' % (op, j, self.prints[j], f))
                    self.prints[j] = f

    def bad(self, key, text):
        self.rep.violation(key, self.case, text)


def enabled(x, w):
    """operations that make sense on this collection"""
    ops = []
    if w.compatible(x):
        ops += [('eval', p) for p in PROGS]
    ops += [('copy', '')]
    ops += [('inspect', f) for f in INSPECT]
    return ops


def _user(collection, parameters):
    out = collection.copy()
    for s in out:
        s.classical_channel_values = [float(parameters[0])] * C
    return out


# nodes with the arguments a caller keeps in its own lists, matrices and dictionaries
ARGS = [
    ('custom_optical_node', lambda: dict(matrix_optical=np.array([[0.6, 0.8j], [0.8j, 0.6]]), optical_channels=[0, 1])),
    ('custom_optical_node', lambda: dict(matrix_optical=[[0.6, -0.8], [0.8, 0.6]], optical_channels=[1, 0])),
    ('custom_fock_state_node', lambda: dict(custom_fock_matrix=ref.fock_matrix('four', L, N))),
    ('custom_fock_state_node', lambda: dict(custom_fock_matrix=ref.fock_matrix('rev', L, N))),
    ('shift', lambda: dict(target_channels=[1, 2], shift_per_channel=[2, 1])),
    ('shift_direct', lambda: dict(target_channels=[1, 2], shift_per_channel=[2, 1])),
    ('c_shift', lambda: dict(control_channels=[0, 1], target_channels=[1, 2])),
    ('c_shift_direct', lambda: dict(control_channels=[0, 1], target_channels=[1, 2])),
    ('channel_coupling', lambda: dict(control_channels=[0], target_channels=[1], coupling_strength=0.4)),
    ('set_classical_channels', lambda: dict(list_of_values_for_classical_channels=[3, 2], list_of_classical_channel_numbers=[0, 1])),
    ('classical_channel_function', lambda: dict(function=_inplace, affected_channels=[0, 1], new_input_values=[2, 3])),
    ('measure_optical_to_classical', lambda: dict(optical_channels_to_be_measured=[0, 1], classical_channels_to_be_written=[1, 2])),
    ('non_polarizing_beamsplitter', lambda: dict(input_channels_a=[0, 1], input_channels_b=[2, 3], reflection=0.3, transmission=0.7)),
    ('polarizing_beamsplitter', lambda: dict(input_channels_a=[0, 1], input_channels_b=[2, 3])),
    ('set_pulse_width', lambda: dict(affected_channels=[0, 1], pulse_width=2.0)),
    ('time_delay', lambda: dict(affected_channels=[0, 1], delay=0.4, pulse_width=2.0)),
    ('time_delay_classical_control', lambda: dict(affected_channels=[0], classical_channel_for_delay=0, pulse_width=2.0)),
    ('time_delay_full', lambda: dict(affected_channels=[0, 1], delay=0.4, pulse_width=2.0)),
    ('time_delay_classical_control_full', lambda: dict(affected_channels=[0], classical_channel_for_delay=0, pulse_width=2.0)),
    ('popescu_rohrlich_correlation_gate', lambda: dict(pr_correlation=[{'channels_Ah_Av_Bh_Bv': [0, 1, 2, 3], 'quantumness_indicator': 2}])),
    ('create_no_signalling_boxes', lambda: dict(ns_boxes=[{'channels_Ah_Av_Bh_Bv': [3, 0, 1, 2], 'quantumness_indicator': 2}])),
    ('hamiltonian_operator_gate', lambda: dict(channels=[1, 0], operators=[Hamiltonian([('+0-0', 0.4), ('-0+0', -0.4)], [0, 0, 1, 1])])),
    ('generic_function_on_collection', lambda: dict(function=_user, affected_optical_channels=[0, 1], affected_classical_channels=[0], parameters=[2])),
]


def _each(x):
    if isinstance(x, (list, dict, np.ndarray)):
        yield x
        for y in (x.values() if isinstance(x, dict) else x if isinstance(x, list) else ()):
            yield from _each(y)


def _turn(x):
    for y in _each(x):
        if isinstance(y, np.ndarray):
            y[...] = np.roll(y, 1, axis=0)
        elif isinstance(y, list):
            y[:] = y[1:] + y[:1]


def _next(x):
    for y in _each(x):
        if isinstance(y, np.ndarray):
            y *= 1j
        elif isinstance(y, list):
            y[:] = [(v + 1) % 4 if type(v) is int else 1j * v if isinstance(v, complex) else v for v in y]
        else:
            for k, v in y.items():
                if type(v) is int:
                    y[k] = v + 3


def _empty(x):
    for y in list(_each(x))[::-1]:
        if isinstance(y, np.ndarray):
            y[...] = 0
        else:
            y.clear()


CALLER = {'turn': _turn, 'next': _next, 'empty': _empty}


def arguments(rep, n, left):
    """the caller goes on using the lists, matrices and dictionaries it created a node with; the circuit keeps the values of that moment"""
    name, make = ARGS[n]
    _, x = base()

    def circuit():
        c = fsc.FockStateCircuit(length_of_fock_state=L, no_of_optical_channels=N, no_of_classical_channels=C, threshold_probability_for_setting_to_zero=THR7, channel_0_left_in_state_name=left)
        return c

    def result(c):
        coll = impl.collection(c, [m for m in impl.read(x, L, True)], L, left)
        return canon(impl.evaluate(c, coll))

    def parts(a):
        # parameters of a user function are passed as they are
        return [k for k, v in a.items() if isinstance(v, (list, dict, np.ndarray)) and k != 'parameters']
    for how, twice, extra in itertools.product(CALLER, (False, True), (False, True)):
        for which in [[k] for k in parts(make())] + [parts(make())]:
            case = dict(node=name, arguments=repr(make())[:300], changed_afterwards=which, change=how, used_again=twice, measurement_behind=extra, channel_0_left=left)
            rep.state(('arguments', n, left, how, twice, extra, tuple(which)))
            with rep.guard('arguments', case):
                same, c = circuit(), circuit()
                given = make()
                getattr(same, name)(**make())
                getattr(c, name)(**given)
                for k in which:
                    CALLER[how](given[k])
                if twice and how != 'empty':
                    # the changed values go into a second node of the same kind, if that node accepts them
                    now = copy.deepcopy(given)
                    try:
                        getattr(same, name)(**now)
                    except Exception:
                        continue
                    getattr(c, name)(**given)
                    for k in which:
                        CALLER['empty'](given[k])
                if extra:
                    for y in (same, c):
                        y.mix_50_50(0, 2)
                        y.measure_optical_to_classical([0, 1, 2, 3], [0, 1, 2, 3])
                try:
                    want = result(same)
                except Exception:
                    continue
                if result(c) != want:
                    rep.violation('arguments', case, 'the node works with values its arguments got after it was created')
                if result(c) != want:
                    rep.violation('arguments', case, 're-evaluation differs')
                rep.step(3)
                rep.trace(case)
    # what the circuit hands out is not the circuit itself
    case = dict(node=name, handed_out='get_fock_state_matrix()', channel_0_left=left)
    with rep.guard('arguments', case):
        c = circuit()
        getattr(c, name)(**make())
        want = result(c)
        for k in range(len(c.node_list)):
            try:
                M = c.get_fock_state_matrix([k])
            except Exception:
                continue
            M[...] = 5
        if result(c) != want:
            rep.violation('arguments', case, 'changing what was handed out changed the circuit')
        rep.step(2)
        rep.trace(case)


def shards(tier):
    first_ones = ['bridge-large', 'coup', 'shift', 'cshift', 'wphc']
    items = [('alias', p, i, tier) for p in first_ones + [q for q in PROGS if q not in first_ones] + [''] for i in (0, 1)]
    items += [('chain', p, tier) for p in PROGS]
    items += [('inspect', p) for p in list(PROGS) + ['']]
    items += [('draw', p) for p in PROGS]
    items += [('arguments', n, left) for n in range(len(ARGS)) for left in (True, False)]
    return items


def run(item, rep):
    what = item[0]
    if what == 'arguments':
        return arguments(rep, *item[1:])
    if what == 'alias':
        # evaluate (or copy), then every pair of mutations on source and result, then evaluate and inspect again
        p = item[1]
        a = ('eval', p, 0) if p else ('copy', '', 0)
        muts = list(MUTS)
        second = muts[:8] if item[3] == 'quick' and p in ('bridge-large', 'coup', 'shift') else muts
        for m1, i1 in itertools.product(muts, (item[2],)):
            for m2, i2 in [(None, 0)] + [(m, i) for m in second for i in (0, 1)] if p not in SLOW else [(None, 0)]:
                hist = [a, ('mut', m1, i1)] + ([('mut', m2, i2)] if m2 else [('again', '', 0)])
                case = dict(history=hist)
                rep.state((p, m1, i1, m2, i2))
                w = World(rep, case)
                w.rep = rep
                with rep.guard('alias-' + (p or 'copy'), case):
                    w.do(a)
                    for op in hist[1:]:
                        rep.step()
                        if op[0] == 'again':
                            # the untouched source must still give the same result, also through the same circuit object
                            if i1 == 1:
                                w.do(a)
                            else:
                                w.do(('inspect', 'listing', 1))
                            continue
                        try:
                            w.do(op)
                        except Exception as e:
                            # a mutation may not be possible any more after another one (e.g. empty collection)
                            if op == hist[1] and not len(w.slots[op[2]].state_identifiers_as_list()) == 0 and op[1] not in ('delcomp', 'amp', 'histval', 'reduce', 'cleanup'):
                                raise
                            break
                    rep.trace(case)
                if rep.nviol > 20:
                    return
    elif what == 'chain':
        # evaluate two programs in a row and again, in both orders, with all collections watched
        _, p, tier = item
        others = [q for q in PROGS if q not in SLOW] if tier == 'quick' else list(PROGS)
        for q in others:
            for k in (0, 1):
                hist = [('eval', p, 0), ('eval', q, k), ('eval', p, 0), ('copy', '', 1), ('eval', q, k)]
                case = dict(history=hist)
                rep.state(('chain', p, q, k))
                w = World(rep, case)
                with rep.guard('chain-%s' % p, case):
                    for op in hist:
                        if op[0] == 'eval' and op[2] == 1 and not usable(w, q):
                            continue
                        rep.step()
                        w.do(op)
                    rep.trace(case)
                if rep.nviol > 20:
                    return
    elif what == 'inspect':
        p = item[1]
        for f in INSPECT:
            for g in list(INSPECT):
                hist = ([('eval', p, 0)] if p else []) + [('inspect', f, 1 if p else 0), ('inspect', g, 0)]
                case = dict(history=hist)
                rep.state((p, f, g))
                w = World(rep, case)
                with rep.guard('inspect-%s' % f, case):
                    for op in hist:
                        rep.step()
                        try:
                            w.do(op)
                        except Exception:
                            if op[0] == 'inspect' and op[2] == 1:
                                break   # this inspection is not defined for this kind of collection
                            raise
                    rep.trace(case)
                if p in SLOW or p.startswith('bridge'):
                    break
    else:
        p = item[1]
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.pyplot as plt
        case = dict(history=[('eval', p), ('draw', p), ('plot', p), ('eval', p)])
        w = World(rep, case)
        rep.state(('draw', p))
        with rep.guard('draw', case):
            w.do(('eval', p, 0))
            w.circuit(p).draw()
            plt.close('all')
            w.slots[0].plot(classical_channels=[0, 1])
            plt.close('all')
            f = fingerprint(w.slots[0])
            if f != w.prints[0]:
                rep.violation('draw', case, 'drawing changed the input collection')
            w.do(('eval', p, 0))
            rep.step(4)
            rep.trace(case)


def usable(w, q):
    return w.compatible(w.slots[1]) and not any('photon_resolution' in s.auxiliary_information or 'popescu_rohrlich_correlation' in s.auxiliary_information for s in w.slots[1]) \
        or (w.compatible(w.slots[1]) and q not in ('delay', 'delayc', 'delayfull', 'delayfullc', 'pulse', 'pr', 'nsbox', 'pr-meas', 'delay-meas', 'meas1', 'meas4', 'meas-set', 'reduce', 'bridge-small'))
