"""C23: the printed text of states, collections and circuits shows what they contain."""
import ast, itertools, re
import numpy as np
import fock_state_circuit as fsc
from mc import ref, impl
from mc.common import *

LEVEL = 'model_checking'
RULE = ('state = (contents of a state or collection from menus of identifiers, labels, probabilities, classical values, histories, amplitudes of every sign and numeric type, setting of print_only_last_measurement); every combination is printed and the '
        'text is parsed back; operation sequences (setting, evaluation, copy, filter, clean up, reshape, adding states) up to the bound are explored and the text is parsed after every operation')
ASSUMPTIONS = ['numbers are compared to half a unit of the second decimal', 'the setting is kept by copies; for the result of an evaluation it is left open until it is set']

NUM = r'-?\d+(?:\.\d+)?'
HALF = 0.0051


class Wrong(Exception):
    pass


def expect(ok, msg):
    if not ok:
        raise Wrong(msg)


def near(a, b):
    return abs(float(a) - float(b)) <= HALF


def numbers(text):
    """the numbers of a printed list, each with two decimals"""
    lst = re.search(r'\[(.*?)\]', text)
    expect(lst, 'no list in %r' % text)
    return re.findall(NUM, lst.group(1))


def decimals(words):
    expect(all(re.fullmatch(r'-?\d+\.\d\d', w) for w in words), 'not rounded to two decimals: %r' % (words,))
    return [float(w) for w in words]


def literal(text, what):
    try:
        return ast.literal_eval(text.strip())
    except Exception:
        raise Wrong('%s is printed as %r' % (what, text))


def amplitude(text):
    m = re.search(r'Amplitude:\s*\(\s*(%s)\s*([+-])\s*(%s)i\s*\)' % (NUM, NUM), text)
    expect(m, 'no amplitude in %r' % text)
    decimals([m.group(1), m.group(3)])
    return float(m.group(1)), float(m.group(3)) * (1 if m.group(2) == '+' else -1)


def components(pieces, oc, with_probability):
    expect(len(pieces) == len(oc), '%d optical components printed, the state has %d' % (len(pieces), len(oc)))
    for piece, (name, v) in zip(pieces, oc.items()):
        m = re.match(r"\s*Component:\s*('(?:[^'\\]|\\.)*')", piece)
        expect(m and literal(m.group(1), 'component') == name, 'component %r printed as %r' % (name, piece))
        re_, im = amplitude(piece)
        a = complex(v['amplitude'])
        expect(near(re_, a.real) and near(im, a.imag), 'amplitude %r printed as %r' % (a, piece))
        if with_probability:
            p = re.search(r'Probability:\s*(%s)' % NUM, piece)
            expect(p and near(decimals([p.group(1)])[0], v['probability']), 'probability %r printed as %r' % (v['probability'], piece))


def read_state(text, s, mode):
    """mode 'last', 'full' or None (either)"""
    lines = text.split('\n')
    get = lambda start: [l for l in lines if l.startswith(start)]
    lab = get('Initial state:')
    expect(len(lab) == 1 and literal(lab[0][len('Initial state:'):], 'label') == s.initial_state, 'label %r printed as %r' % (s.initial_state, lab))
    cum = get('Cumulative probability:')
    expect(len(cum) == 1 and near(decimals([cum[0].split(':')[1].strip()])[0], s.cumulative_probability), 'cumulative probability %r printed as %r' % (s.cumulative_probability, cum))
    cl = get('Classical values:')
    if s.classical_channel_values:
        expect(len(cl) == 1, 'classical values printed as %r' % cl)
        got = decimals(numbers(cl[0]))
        expect(len(got) == len(s.classical_channel_values) and all(map(near, got, s.classical_channel_values)), 'classical values %r printed as %r' % (s.classical_channel_values, cl))
    else:
        expect(not cl or not numbers(cl[0]), 'there are no classical channels: %r' % cl)
    heads = [n for n, l in enumerate(lines) if l.startswith('Last measurement result') or l.startswith('Measurement results (last result first)')]
    opt = [n for n, l in enumerate(lines) if l.startswith('Optical components')]
    expect(len(opt) == 1, 'optical components are announced %d times' % len(opt))
    hist = s.measurement_results
    if not hist:
        expect(not heads, 'a measurement is printed for a state without measurements')
    else:
        expect(len(heads) == 1 and heads[0] < opt[0], 'the measurement history is announced %d times' % len(heads))
        rows = [l for l in lines[heads[0] + 1:opt[0]] if l.strip()]
        shown = 'last' if lines[heads[0]].startswith('Last') else 'full'
        expect(mode in (None, shown), 'history printed as %r, the setting is %r' % (shown, mode))
        want = hist[-1:] if shown == 'last' else hist[::-1]
        expect(len(rows) == len(want), '%d results printed, expected %d of %d' % (len(rows), len(want), len(hist)))
        for row, h in zip(rows, want):
            p = re.search(r'Probability:\s*(%s)\s*$' % NUM, row)
            got = decimals(numbers(row))
            expect(p and near(decimals([p.group(1)])[0], h['probability']) and len(got) == len(h['measurement_results']) and all(map(near, got, h['measurement_results'])),
                   'measurement %r printed as %r' % (h, row))
    comp = [l for l in lines[opt[0] + 1:] if l.strip().startswith('Component:')]
    expect(comp == [l for l in lines if l.strip().startswith('Component:')], 'components outside their list')
    components(comp, s.optical_components, True)
    aux = s.state.get('auxiliary_information') or {}
    if aux:
        tail = text[text.rindex('Auxiliary information'):] if 'Auxiliary information' in text else ''
        expect(all(len(re.findall(r'\b%s\b' % re.escape(k), tail)) == 1 for k in aux), 'auxiliary information %r printed as %r' % (list(aux), tail))
    else:
        expect('Auxiliary information' not in text, 'there is no auxiliary information')
    expect('Warning' not in text , 'unexpected text: %r' % text)


def read_collection(coll, mode):
    text = str(coll)
    parts = re.split(r'(?m)^Identifier: ', text)
    n = re.findall(r'Number of states in collection:\s*(\d+)', parts[0])
    expect(n == [str(len(coll))], 'number of states %d printed as %r' % (len(coll), n))
    items = list(coll.items())
    expect(len(parts) - 1 == len(items), '%d states printed, the collection has %d' % (len(parts) - 1, len(items)))
    for part, (ident, s) in zip(parts[1:], items):
        first, _, rest = part.partition('\n')
        expect(literal(first, 'identifier') == ident, 'identifier %r printed as %r' % (ident, first))
        read_state(rest, s, mode)


def read_short(s):
    text = s.print_optical_components()
    pieces = re.findall(r"Component:.*?\)", text, re.S)
    components(pieces, s.optical_components, False)


def attempt(rep, key, case, f):
    rep.step()
    with rep.guard(key, case):
        try:
            f()
        except Wrong as e:
            rep.violation(key, case, str(e))
        rep.trace(case)


NAMES = ['a', '00', "it's", 'say "x"', '', 'Identifier: b', 'line\nbreak', 'Component: c', 'ü', 'x' * 60]
CUMS = [1.0, 0.5, 0.125, 0.0, 0.999, 0.004, 0.0061, 1 / 3, np.float64(0.25), np.float32(0.75), 1]
CLVALS = [0, 1, 12, -3, 0.25, -0.004, 2.5, 1e3, np.float64(1.75), np.int64(7), 3.14159]
SHAPES = [(2, 2, 0, True), (2, 2, 2, False), (3, 2, 1, True), (3, 3, 3, False), (11, 2, 2, True), (101, 2, 12, False)]


def histories(C):
    e = lambda k: {'measurement_results': [CLVALS[(k + j) % len(CLVALS)] for j in range(C)], 'probability': [1.0, 0.5, 0.25, np.float64(0.3), 0.004][k % 5]}
    return [[e(k + 3 * n) for n in range(m)] for m, k in ((0, 0), (1, 0), (1, 1), (2, 2), (2, 0), (3, 1), (7, 3))]


AXIS = [0.0, -0.0, 0.001, -0.001, 0.004, -0.004, 0.006, -0.006, 0.1, -0.1, 0.25, -0.25, 0.5, -0.5, 2 ** -0.5, -2 ** -0.5, 0.996, -0.996, 1.0, -1.0]
TYPES = [complex, np.cdouble, np.csingle, np.complex64]


def amplitudes():
    res = [t(complex(a, b)) for a in AXIS for b in AXIS if a * a + b * b <= 1.001 for t in TYPES]
    return res + [t(a) for a in AXIS for t in (float, np.float64, np.float32)] + [0, 1, -1]


DEPTH = {'quick': 4, 'thorough': 5}
OPS = ['full', 'last', 'eval', 'copy', 'filter', 'clean', 'extend', 'reduce', 'adjust', 'add']


def shards(tier):
    items = [('fields', s, n, tier) for s in SHAPES for n in range(4)]
    items += [('amps', s, n, tier) for s in SHAPES[:4] + [(11, 2, 2, True)] for n in range(4)]
    items += [('names', s, tier) for s in SHAPES]
    items += [('circuit', tier)]
    items += [('ops', left, a, b, tier) for left in (True, False) for a in OPS for b in OPS]
    return items


def fresh(shape):
    L, N, C, left = shape
    return fsc.CollectionOfStates(fsc.FockStateCircuit(length_of_fock_state=L, no_of_optical_channels=N, no_of_classical_channels=C, channel_0_left_in_state_name=left), dict([]))


def run(item, rep):
    kind = item[0]
    tier = item[-1]
    if kind == 'fields':
        shape, part = item[1:3]
        L, N, C, left = shape
        coll = fresh(shape)
        names = [ref.name_of(v, L, left) for v in ref.all_values(L, N)]
        names = names[:4] + names[-2:]
        ocs = [{names[n]: {'amplitude': 1.0 + 0j, 'probability': 1.0}} for n in (0, -1)]
        ocs += [{a: {'amplitude': 0.6, 'probability': 0.36}, b: {'amplitude': -0.8j, 'probability': 0.64}} for a, b in itertools.permutations(names[:4], 2)][:6]
        ocs += [{n: {'amplitude': (0.3 + 0.1 * k) * (-1j) ** k, 'probability': (0.3 + 0.1 * k) ** 2} for k, n in enumerate(names[::-1])}]
        vals = [[CLVALS[(k * 2 + j * (k + 1)) % len(CLVALS)] for j in range(C)] for k in range(6)] if C else [[]]
        for n, (cum, oc, cl, h) in enumerate(itertools.product(CUMS, ocs, vals, histories(C))):
            if n % 4 != part:
                continue
            for mode in ('last', 'full'):
                case = dict(shape=shape, cumulative_probability=cum, components=oc, classical=cl, history=h, mode=mode)
                rep.state(('fields', shape, n, mode))

                def go():
                    coll.clear()
                    coll.print_only_last_measurement = mode == 'last'
                    s = fsc.State(coll)
                    s.initial_state = 'label'
                    s.cumulative_probability = cum
                    s.optical_components = {k: dict(v) for k, v in oc.items()}
                    s.classical_channel_values = list(cl)
                    s.measurement_results = [dict(e) for e in h]
                    coll.add_state(s, identifier='one')
                    read_state(str(s), s, mode)
                    read_collection(coll, mode)
                    read_short(s)
                    coll.print_only_last_measurement = mode != 'last'
                    read_collection(coll, 'full' if mode == 'last' else 'last')
                attempt(rep, 'fields', case, go)
        return
    if kind == 'amps':
        shape, part = item[1:3]
        L, N, C, left = shape
        coll = fresh(shape)
        names = [ref.name_of(v, L, left) for v in ref.all_values(L, N)]
        al = amplitudes()
        for n in range(part, len(al), 4):
            for k, combo in enumerate(((al[n],), (al[n], al[(n * 7 + 5) % len(al)]), (al[(n * 5 + 3) % len(al)], al[n], al[(n * 11) % len(al)]))):
                case = dict(shape=shape, amplitudes=[repr(a) for a in combo])
                rep.state(('amps', shape, n, k))

                def go():
                    s = fsc.State(coll)
                    s.optical_components = {name: {'amplitude': a, 'probability': abs(a) ** 2} for name, a in zip(names[1:4], combo)}
                    read_state(str(s), s, 'last')
                    read_short(s)
                attempt(rep, 'amplitudes', case, go)
        return
    if kind == 'names':
        shape = item[1]
        for idents in [p for k in (0, 1, 2) for p in itertools.permutations(NAMES, k)] + [tuple(NAMES), tuple(NAMES[::-1])]:
            for shift in (0, 1, 4):
                case = dict(shape=shape, identifiers=idents, shift=shift)
                rep.state(('names', shape, idents, shift))

                def go():
                    coll = fresh(shape)
                    for n, i in enumerate(idents):
                        s = fsc.State(coll)
                        s.initial_state = NAMES[(n + shift) % len(NAMES)]
                        s.measurement_results = histories(shape[2])[(n + shift) % 7]
                        if n % 3 == 1:
                            s.auxiliary_information = {'first_key': 1, 'other_key': [2]} if n % 2 else {'single_key': {}}
                        coll.add_state(s, identifier=i)
                    read_collection(coll, 'last')
                    coll.print_only_last_measurement = False
                    read_collection(coll, 'full')
                attempt(rep, 'names', case, go)
        return
    if kind == 'circuit':
        for L, N, C, name in itertools.product((2, 3, 10, 11), (2, 3, 5, 7), (0, 1, 2, 13), (None, 'my circuit', 'Length of Fock state: 5')):
            case = dict(L=L, N=N, C=C, name=name)
            rep.state(('circuit', L, N, C, name))
            if L ** N > 5000:
                continue

            def go():
                c = impl.circuit(L, N, C, True, 1e-4, False, (), name)
                text = str(c)
                rest = text.split('\n', 1)[1]
                expect(name is None or name in text.split('\n', 1)[0], 'name printed as %r' % text)
                for word, val in (('Optical Channels', N), ('Classical Channels', C), ('Length of Fock state', L)):
                    expect(re.findall(r'(?m)^%s:\s*(\d+)\s*$' % word, rest) == [str(val)], '%s is %d: %r' % (word, val, text))
            attempt(rep, 'circuit', case, go)
        return
    left, a, b = item[1:4]
    depth = DEPTH[tier]
    L, N, C = 3, 2, 2
    for seq in itertools.product(OPS, repeat=depth - 2):
        seq = (a, b) + seq
        if seq.count('eval') > 2 or seq.count('extend') > 1 or seq.count('adjust') > 1:
            continue
        case = dict(channel_0_left=left, operations=seq)
        rep.state(('ops', left, seq))

        def go():
            size = [L, C]
            circuit = lambda: impl.circuit(size[0], N, size[1], left, 1e-10, False, [('mix', 0, 1), ('meas', (0,), (0,)), ('hwp', 0, 1, 0.3), ('meas', (1, 0) if size[1] > 1 else (1,), (0, 1) if size[1] > 1 else (0,))])
            c0 = impl.circuit(L, N, C, left, 1e-10)
            coll = fsc.CollectionOfStates(c0)
            coll.filter_on_identifier(coll.state_identifiers_as_list()[1:3])
            for n, s in enumerate(coll):
                s.cumulative_probability = 0.4
                s.measurement_results = histories(C)[3 + n]
            mode, firm = 'last', True       # firm: the setting of the collection itself is known to be that of its states
            for n, op in enumerate(seq):
                if op in ('full', 'last'):
                    coll.print_only_last_measurement = op == 'last'
                    mode, firm = op, True
                elif op == 'eval':
                    coll = circuit().evaluate_circuit(coll)
                    mode, firm = None, False
                elif op == 'copy':
                    coll = coll.copy()
                elif op == 'filter':
                    coll.filter_on_identifier(coll.state_identifiers_as_list()[:-1] or coll.state_identifiers_as_list())
                elif op == 'clean':
                    coll.clean_up()
                elif op == 'extend':
                    coll.extend(extra_classical_channels=1)
                    size[1] += 1
                elif op == 'reduce':
                    size[1] = max(1, size[1] - 1)
                    coll.reduce(classical_channels_to_keep=list(range(size[1])))
                elif op == 'adjust':
                    size[0] += 1
                    coll.adjust_length_of_fock_state(size[0])
                elif op == 'add':
                    s = fsc.State(coll)
                    s.cumulative_probability = 0.001
                    s.measurement_results = histories(size[1])[4]
                    coll.add_state(s, identifier='added%d' % n)
                if op in ('extend', 'reduce', 'adjust', 'add') and not firm:
                    mode = None
                rep.step()
                try:
                    read_collection(coll, mode)
                except Wrong as e:
                    raise Wrong('after %s: %s' % (list(seq[:n + 1]), e))
        attempt(rep, 'operations', case, go)

