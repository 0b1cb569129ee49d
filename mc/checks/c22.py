"""C22: drawings show the circuit that is evaluated."""
import itertools, re
import numpy as np
import fock_state_circuit as fsc
from mc import canvas
from mc.common import *

LEVEL = 'model_checking'
RULE = ('state = (shape of the circuits, nodes per line, sequence of nodes as sets of channels with group and kind, bridges, stations); all node sequences up to the bound are drawn and the record of every page is decoded: '
        'node markers, lines, boxes, labels and hidden areas are compared with the node list; built-in nodes are drawn for all choices of channels; drawings of stations are compared with the nodes selected by an independent rule; '
        'pairs of drawings are compared with the drawings made alone; the recording canvas is compared with real figures')
ASSUMPTIONS = ['between 1 and 20 nodes on a line', 'nodes carry the channels they act on, as all nodes of the package do']
EPS = 1e-6


# ---------------------------------------------------------------- building

def build(specs, label='N'):
    """specs: list of (No, Nc, nodes); node = (optical channels, classical channels, group, kind). Returns the first circuit."""
    circuits, n = [], 0
    for i, (No, Nc, nodes) in enumerate(specs):
        c = fsc.FockStateCircuit(length_of_fock_state=2, no_of_optical_channels=No, no_of_classical_channels=Nc, circuit_name='circuit%d' % i)
        for node in nodes:
            add(c, node, n, label)
            n += 1
        circuits.append(c)
    for a, b in zip(circuits[:-1], circuits[1:]):
        a.bridge(next_fock_state_circuit=b)
    return circuits[0]


def add(c, node, n, label='N'):
    o, cl, group, kind = node
    info = {'label': '%s%d' % (label, n), 'marker_text': ['$%d:o%d$' % (n, ch) for ch in o], 'classical_marker_text': ['$%d:c%d$' % (n, ch) for ch in cl]}
    if group:
        info['combined_gate'] = group
    if kind == 'meas':
        c.measure_optical_to_classical(list(o), list(cl), node_info=info)
    elif kind == 'set':
        c.set_classical_channels([0] * len(cl), list(cl), node_info=info)
    elif kind == 'swap':
        # the marker texts follow the channels in the order in which the node lists them
        c.swap(o[0], o[1], node_info=info)
        c.node_list[-1]['node_info']['marker_text'] = ['$%d:o%d$' % (n, ch) for ch in c.node_list[-1]['node_info']['channels_optical']]
    else:
        c.generic_function_on_collection(function=identity, affected_optical_channels=list(o), affected_classical_channels=list(cl), parameters=[], node_info=info)


def identity(collection, parameters):
    return collection


# ---------------------------------------------------------------- decoding

class Page:
    def __init__(self, items):
        self.items = items
        self.lines, self.marks, self.symbols, self.texts, self.boxes, self.segments, self.rects, self.titles = [], [], [], [], [], [], [], []
        for pos, it in enumerate(items):
            if it[0] == 'line':
                _, x, y, marker, alpha, color = it
                if alpha == 0 or color == 'white' and marker in ('None', 'none', ''):
                    continue
                if len(x) == 1 or len(set(x)) == 1 and len(set(y)) == 1 and marker not in ('None', 'none', ''):
                    if re.fullmatch(r'\$.*\$', marker):
                        self.symbols.append((x[0], y[0], marker[1:-1], pos))
                    elif marker not in ('None', 'none', ''):
                        self.marks.append((x[0], y[0], pos))
                elif len(x) == 2 and y[0] == y[1]:
                    self.lines.append((min(x), max(x), y[0], color, pos))
                elif len(set(x)) == 1:
                    self.segments.append((x[0], min(y), max(y)))
                elif len(x) == 5:
                    self.boxes.append((min(x), max(x), min(y), max(y), pos))
            elif it[0] == 'text':
                self.texts.append((it[1], it[2], it[3], pos))
            elif it[0] == 'rect':
                self.rects.append((it[1], it[2], it[1] + it[3], it[2] + it[4], pos))
            elif it[0] == 'title':
                self.titles.append(it[1])

    def hidden(self, x, y, pos):
        return any(p > pos and x0 + EPS < x < x1 - EPS and y0 - EPS <= y <= y1 + EPS for x0, y0, x1, y1, p in self.rects)


def levels(pages, color):
    return sorted({round(l[2], 6) for p in pages for l in p.lines if l[3] == color}, reverse=True)


def judge(shown, specs, line=10, label='N', labels=None, default_labels=True, names=None, max_len=15, check_names=True):
    """list of deviations of a drawing from the circuits it shows"""
    if len(shown) != 1:
        return ['%d figures shown instead of one' % len(shown)]
    pages = [Page(items) for items in shown[0]]
    bad = []
    No, Nc = max(s[0] for s in specs), max(s[1] for s in specs)
    ys = {}
    for kind, n, color in (('o', No, 'blue'), ('c', Nc, 'black')):
        lv = levels(pages, color)
        if len(lv) != n:
            return ['%d lines for %d channels of kind %s' % (len(lv), n, kind)]
        for k, y in enumerate(lv):
            ys[kind, k] = y
    if len(set(ys.values())) != len(ys):
        return ['lines of different channels coincide']
    color = {'o': 'blue', 'c': 'black'}
    # labels of the lines
    for pi, p in enumerate(pages):
        seen = set()
        for text, x, y, pos in p.texts:
            for (kind, k), yk in ys.items():
                want = labels[kind][k][:max_len] if labels else '%s %d' % ({'o': 'optical', 'c': 'classical'}[kind], k)
                if text == want and (abs(y - yk) < EPS):
                    seen.add((kind, k))
                elif not labels and text == want:
                    bad.append('label %r not at its line' % text)
        if len(specs) == 1 and seen != set(ys):
            bad.append('page %d: lines labelled %s, expected %s' % (pi, sorted(seen), sorted(ys)))
    # nodes
    flat = [(ci, node) for ci, s in enumerate(specs) for node in s[2]]
    symbols = {}
    for pi, p in enumerate(pages):
        for x, y, text, pos in p.symbols:
            m = re.fullmatch(r'(\d+):([oc])(\d+)', text)
            if m:
                symbols.setdefault((int(m.group(1)), m.group(2), int(m.group(3))), []).append((pi, x, y, pos))
    want = {(n, k, ch) for n, (ci, node) in enumerate(flat) for k, chans in (('o', node[0]), ('c', node[1])) for ch in chans}
    if set(symbols) != want:
        return bad + ['markers: missing %s, unexpected %s' % (sorted(want - set(symbols))[:4], sorted(set(symbols) - want)[:4])]
    place = {}
    for (n, k, ch), lst in symbols.items():
        if len(lst) != 1:
            return bad + ['node %d drawn %d times on %s%d' % (n, len(lst), k, ch)]
        pi, x, y, pos = lst[0]
        p = pages[pi]
        if abs(y - ys[k, ch]) > EPS:
            bad.append('marker of channel %s%d of node %d is on another line' % (k, ch, n))
        if place.setdefault(n, (pi, round(x, 6))) != (pi, round(x, 6)):
            bad.append('markers of node %d are not in one column' % n)
        if p.hidden(x, y, pos):
            bad.append('marker of node %d is hidden' % n)
        if not any(abs(mx - x) < EPS and abs(my - y) < EPS and mp < pos for mx, my, mp in p.marks):
            bad.append('no symbol under the text of node %d on %s%d' % (n, k, ch))
        if not any(x0 - EPS <= x <= x1 + EPS and abs(yl - y) < EPS and c == color[k] for x0, x1, yl, c, lp in p.lines):
            bad.append('no line under the marker of node %d on %s%d' % (n, k, ch))
    # no marker without a node: symbols of nodes sit in the columns of nodes
    for pi, p in enumerate(pages):
        for x, y, pos in p.marks:
            for n, (pn, xn) in place.items():
                if pn == pi and abs(x - xn) < EPS:
                    if not any(abs(sx - x) < EPS and abs(sy - y) < EPS for sx, sy, t, sp in p.symbols):
                        bad.append('marker without text in the column of node %d' % n)
                        break
    span = {}
    for n, (ci, node) in enumerate(flat):
        yy = [ys['o', ch] for ch in node[0]] + [ys['c', ch] for ch in node[1]]
        span[n] = min(yy), max(yy)
        pi, x = place[n]
        lo = span[n][0]
        for a, b in sorted((a, b) for sx, a, b in pages[pi].segments if abs(sx - x) < EPS):
            if a <= lo + EPS:
                lo = max(lo, b)
        if lo < span[n][1] - EPS:
            bad.append('channels of node %d are not connected' % n)
    # order
    for i, j in itertools.combinations(range(len(flat)), 2):
        (ci, a), (cj, b) = flat[i], flat[j]
        if (ci != cj or set(a[0]) & set(b[0]) or set(a[1]) & set(b[1])) and place[i] >= place[j]:
            bad.append('node %d is drawn before node %d' % (j, i))
    # boxes: groups of consecutive nodes of one circuit with the same name of a combined gate share a box
    groups = []
    for n, (ci, node) in enumerate(flat):
        if node[2] and groups and groups[-1][1] == (ci, node[2]) and groups[-1][0][-1] == n - 1:
            groups[-1][0].append(n)
        else:
            groups.append(([n], (ci, node[2])))
    # a gate that does not fit on a line, two nodes in a column, is drawn as individual nodes
    groups = [x for g, k in groups for x in ([(g, k)] if len(g) <= 2 * line else [([n], k) for n in g])]
    boxes = [(pi, b) for pi, p in enumerate(pages) for b in p.boxes]
    if len(boxes) != len(groups):
        bad.append('%d boxes for %d gates' % (len(boxes), len(groups)))
    owner = {}
    for bi, (pi, (x0, x1, y0, y1, pos)) in enumerate(boxes):
        inside = sorted(n for n, (pn, x) in place.items() if pn == pi and x0 - EPS <= x <= x1 + EPS and y0 - EPS <= span[n][0] and span[n][1] <= y1 + EPS)
        owner[bi] = inside
        for bj in range(bi):
            pj, (u0, u1, v0, v1, _) = boxes[bj]
            if pj == pi and min(x1, u1) - max(x0, u0) > EPS and min(y1, v1) - max(y0, v0) > EPS:
                bad.append('boxes of %s and %s overlap' % (owner[bj], inside))
    if sorted(owner.values()) != sorted(g for g, _ in groups):
        bad.append('boxes contain the nodes %s, expected %s' % (sorted(owner.values()), sorted(g for g, _ in groups)))
    # labels of the gates
    for g, _ in groups:
        pi = place[g[0]][0]
        hits = [(qi, x, y, pos) for qi, q in enumerate(pages) for t, x, y, pos in q.texts if t == '%s%d' % (label, g[0])]
        if len(hits) != 1 or hits[0][0] != pi:
            bad.append('label of node %d shown %d times' % (g[0], len(hits)))
        elif pages[pi].hidden(hits[0][1] + 2 * EPS, hits[0][2], hits[0][3]):
            bad.append('label of node %d hidden' % g[0])
        else:
            # the label is at its own box and not inside the box of another gate
            _, lx, ly, _ = hits[0]
            for bi, (bp, (x0, x1, y0, y1, _)) in enumerate(boxes):
                if bp == pi and owner[bi] != g and x0 - EPS <= lx < x1 - EPS and y0 - EPS <= ly <= y1 + EPS:
                    bad.append('label of node %d is in the box of %s' % (g[0], owner[bi]))
                if bp == pi and owner[bi] == g and not (abs(lx - x0) < EPS and y0 <= ly):
                    bad.append('label of node %d is not at its box' % g[0])
    # names of the circuits
    for ci in range(len(specs) if check_names else 0):
        shown_on = {pi for pi, p in enumerate(pages) if any(t == (names or ['circuit%d' % k for k in range(len(specs))])[ci] for t, x, y, pos in p.texts)}
        need = {place[n][0] for n, (cn, node) in enumerate(flat) if cn == ci}
        if need and min(need) not in shown_on:
            bad.append('name of circuit %d not on its first page' % ci)
    return bad


# ---------------------------------------------------------------- spaces

def subsets(No, Nc):
    chans = [('o', k) for k in range(No)] + [('c', k) for k in range(Nc)]
    for r in range(1, len(chans) + 1):
        for s in itertools.combinations(chans, r):
            yield tuple(k for t, k in s if t == 'o'), tuple(k for t, k in s if t == 'c')


def menu(No, Nc):
    return [(o, c, None, 'gen') for o, c in subsets(No, Nc)]


LAYOUT = {'quick': [(3, 0, 4, (10,)), (3, 0, 4, (2,)), (3, 0, 3, (1,)), (2, 1, 4, (3,)), (2, 1, 4, (2,)), (4, 0, 3, (2,)), (2, 2, 3, (2,)), (2, 3, 3, (10,)), (5, 0, 2, (10,)), (3, 2, 2, (1,))],
          'thorough': [(3, 0, 5, (10,)), (3, 0, 5, (2,)), (3, 0, 4, (1,)), (2, 1, 5, (3,)), (2, 1, 5, (2,)), (4, 0, 4, (10,)), (4, 0, 3, (2,)), (2, 2, 4, (2,)), (2, 3, 3, (10,)), (5, 0, 3, (10,)), (3, 2, 3, (3,))]}
GROUPS = {'quick': [(3, 0, 4, 10), (3, 0, 4, 2), (3, 0, 4, 3), (2, 1, 4, 5)], 'thorough': [(3, 0, 5, 10), (3, 0, 5, 2), (3, 0, 5, 3), (2, 1, 5, 4), (2, 1, 5, 10)]}
SHAPES = [(2, 0), (2, 1), (3, 1), (4, 2), (2, 3)]


def group_menu(No, Nc):
    sets = [((0,), ()), ((0, 1), ()), (tuple(range(No)), tuple(range(Nc))), ((No - 1,), tuple(range(Nc)))]
    return [(o, c, g, 'gen') for o, c in dict.fromkeys(sets) for g in (None, 'A', 'B')]


def shards(tier):
    items = []
    for No, Nc, depth, lines in LAYOUT[tier]:
        for i in range(len(menu(No, Nc))):
            items.append(('layout', No, Nc, depth, lines, i))
    for No, Nc, depth, line in GROUPS[tier]:
        for i in range(len(group_menu(No, Nc))):
            items.append(('groups', No, Nc, depth, line, i))
    items += [('nodes', name, No, Nc) for name in sorted(CALLS) for No, Nc in (((3, 2), (4, 3)) if tier == 'quick' else ((3, 2), (4, 3), (5, 3), (12, 11)))]
    for shapes in itertools.product(SHAPES, repeat=2):
        items.append(('bridge', shapes, tier))
    for shapes in itertools.product(SHAPES, repeat=3):
        items.append(('bridge', shapes, tier))
    items += [('long', N, line, tier) for N in (2, 3, 4) for line in (1, 2, 7, 10, 20)]
    items += [('wide', 12, 11, i) for i in range(4)]
    items += [('labels', No, Nc) for No, Nc in ((2, 1), (3, 0), (2, 2), (12, 11))]
    for i in range(len(STATION_SPLITS)):
        for j in range(len(STATION_MENU)):
            items.append(('stations', i, j, 2 if tier == 'quick' else 3))
    items += [('station_bridge', i) for i in range(len(STATION_SPLITS))]
    items += [('compound', a, b) for a in range(len(SHAPES)) for b in range(len(SHAPES))]
    items += [('history', i) for i in range(len(HISTORY))]
    items += [('real', i) for i in range(8)]
    items += [('style', i) for i in range(len(STYLE_KEYS))]
    return items


def check(rep, key, specs, line=None, settings=None, real=False, **kw):
    s = dict(settings or {})
    if line:
        s['number_of_nodes_on_a_line'] = line
    case = dict(circuits=[(a, b, list(n)) for a, b, n in specs], settings=s)
    rep.state((key, repr(specs), repr(s)))
    rep.step(sum(len(x[2]) for x in specs))
    with rep.guard(key, case):
        c = build(specs)
        shown = canvas.draw(lambda: c.draw(settings_for_drawing_circuit=s) if s else c.draw(), real)
        bad = judge(shown, specs, line or 10, **kw)
        if bad:
            rep.violation(key, case, '; '.join(bad[:4]))
        rep.trace(case)


def run(item, rep):
    globals()['run_' + item[0]](rep, *item[1:])


def run_layout(rep, No, Nc, depth, lines, i):
    m = menu(No, Nc)
    for line in lines:
        for d in range(depth):
            if d < depth - 1 and d > 1:
                continue        # shorter sequences are prefixes; the ends of lengths 1, 2 and the full depth are drawn
            for rest in itertools.product(m, repeat=d):
                check(rep, 'layout', [(No, Nc, (m[i],) + rest)], line)


def run_groups(rep, No, Nc, depth, line, i):
    m = group_menu(No, Nc)
    for d in range(depth):
        for rest in itertools.product(m, repeat=d):
            nodes = (m[i],) + rest
            check(rep, 'groups', [(No, Nc, nodes)], line)


def run_bridge(rep, shapes, tier):
    menus = []
    for k, (No, Nc) in enumerate(shapes):
        allc = (tuple(range(No)), tuple(range(Nc)), None, 'gen')
        first = ((0,), (), None, 'gen') if No else ((), (0,), None, 'gen')
        last = ((), (Nc - 1,), None, 'gen') if Nc else ((No - 1,), (), None, 'gen')
        pair = ((first[0], first[1], 'A', 'gen'), (allc[0], allc[1], 'A', 'gen'))
        seqs = [(allc,), (first,), (first, last), (last, first), pair, (first, last, allc)]
        if len(shapes) == 3:
            seqs = [(allc,), (first, last), pair]
        if k == 0:
            seqs.append(())
        menus.append(seqs)
    for combo in itertools.product(*menus):
        for line in ((10, 2) if len(shapes) == 2 or tier == 'thorough' else (3,)):
            check(rep, 'bridge', [(No, Nc, nodes) for (No, Nc), nodes in zip(shapes, combo)], line)


def run_long(rep, N, line, tier):
    top = 43 if tier == 'quick' else 121
    for n in range(1, top):
        for pattern in (0, 1, 2):
            nodes = []
            for i in range(n):
                if pattern == 0:
                    ch = tuple(range(N))
                elif pattern == 1:
                    ch = (i % N,)
                else:
                    ch = (i * i % N,) if i % 3 else tuple(range(N))
                nodes.append((ch, (), None, 'gen'))
            check(rep, 'long', [(N, 0, tuple(nodes))], line)
    # combined gates of all lengths, alone and after single nodes
    for n in range(1, 2 * line + 4):
        for before in range(0, line + 1):
            for after in (0, 1):
                nodes = [((0,), (), None, 'gen')] * before + [((i % N,), (), 'A', 'gen') for i in range(n)] + [((0,), (), None, 'gen')] * after
                check(rep, 'long', [(N, 0, tuple(nodes))], line)


def run_wide(rep, No, Nc, i):
    for o in itertools.combinations(range(No), 2):
        for c in [(), (0,), (9,), (10,), (9, 10), (0, 10)][i % 2::2]:
            nodes = ((o, c, None, 'gen'), ((o[1],), (), None, 'gen')) if i < 2 else (((o[1], o[0]), c[::-1], None, 'gen'), ((o[0],), (), None, 'gen'), ((11,), (), None, 'gen'))
            check(rep, 'wide', [(No, Nc, nodes)])


def run_labels(rep, No, Nc):
    for style in range(3):
        lo = [['in %d' % k, 'a rather long label number %d' % k, chr(97 + k)][style] for k in range(No)]
        lc = [['bit %d' % k, '%d is the number of this channel' % k, chr(65 + k)][style] for k in range(Nc)]
        nodes = tuple(menu(No, Nc)[i] for i in ((0, -1, 0) if No + Nc < 5 else ()))
        if not nodes:
            nodes = (((11, 2), (10,), None, 'gen'), ((10,), (), None, 'gen'))
        for line in (10, 1):
            for max_len in (None, 4, 40):
                s = {'channel_labels_optical': lo, 'channel_labels_classical': lc}
                if max_len:
                    s['channel_label_string_max_length'] = max_len
                check(rep, 'labels', [(No, Nc, nodes)], line, s, labels={'o': lo, 'c': lc}, max_len=max_len or 15)


# ---------------------------------------------------------------- built-in nodes

def _pairs(N):
    return [(a, b) for a in range(N) for b in range(N) if a != b]


def _lists(N, r):
    return [list(p) for k in range(1, r + 1) for p in itertools.permutations(range(N), k)]


def _two(method, a, b, **kw):
    def gen(No, Nc):
        for x, y in _pairs(No):
            yield method, {a: x, b: y, **kw}, [({x, y}, set())]
    return gen


def _bs(method, **kw):
    def gen(No, Nc):
        if No < 4:
            return
        for p in itertools.permutations(range(min(No, 5)), 4):
            if method == 'polarizing_beamsplitter':
                want = [({p[1], p[3]}, set())]
            else:
                want = [({p[0], p[2]}, set()), ({p[1], p[3]}, set())]
            yield method, dict(input_channels_a=(p[0], p[1]), input_channels_b=(p[2], p[3]), **kw), want
    return gen


def _lists_of(method, arg, **kw):
    def gen(No, Nc):
        for l in _lists(No, 3 if No < 5 else 2):
            yield method, {arg: l, **kw}, [(set(l), set())]
    return gen


def _shift(method):
    def gen(No, Nc):
        for l in _lists(No, 2):
            yield method, dict(target_channels=l, shift_per_channel=[1] * len(l)), [(set(l), set())]
    return gen


def _cshift(method, **kw):
    def gen(No, Nc):
        for x, y in _pairs(No):
            yield method, dict(control_channels=[x], target_channels=[y], **kw), [({x, y}, set())]
        if No >= 4:
            for p in itertools.permutations(range(4), 4):
                yield method, dict(control_channels=list(p[:2]), target_channels=list(p[2:]), **kw), [(set(p), set())]
    return gen


def _classical(No, Nc):
    for l in _lists(Nc, 2):
        yield 'set_classical_channels', dict(list_of_values_for_classical_channels=[1] * len(l), list_of_classical_channel_numbers=l), [(set(), set(l))]
        yield 'classical_channel_function', dict(function=lambda a, b: a, affected_channels=l, new_input_values=[0] * len(l)), [(set(), set(l))]


def _generic(No, Nc):
    for o, c in subsets(min(No, 4), min(Nc, 2)):
        yield 'generic_function_on_collection', dict(function=identity, affected_optical_channels=list(o), affected_classical_channels=list(c), parameters=[]), [(set(o), set(c))]


def _measure(No, Nc):
    for r in (1, 2):
        for o in itertools.permutations(range(No), r):
            for c in itertools.permutations(range(Nc), r):
                yield 'measure_optical_to_classical', dict(optical_channels_to_be_measured=list(o), classical_channels_to_be_written=list(c)), [(set(o), set(c))]


def _psc(No, Nc):
    for o in range(No):
        for c in range(Nc):
            yield 'phase_shift_single_channel_classical_control', dict(optical_channel_to_shift=o, classical_channel_for_phase_shift=c), [({o}, {c})]


def _wpc(method):
    def gen(No, Nc):
        for x, y in _pairs(min(No, 4)):
            for c, d in _pairs(Nc):
                yield method, dict(optical_channel_horizontal=x, optical_channel_vertical=y, classical_channel_for_orientation=c, classical_channel_for_phase_shift=d), [({x, y}, {c, d})]
    return gen


def _delay(method, **kw):
    def gen(No, Nc):
        for l in _lists(No, 2):
            if 'classical' in method:
                for c in range(Nc):
                    yield method, dict(affected_channels=l, classical_channel_for_delay=c, **kw), [(set(l), {c})]
            else:
                yield method, dict(affected_channels=l, **kw), [(set(l), set())]
    return gen


def _phase(No, Nc):
    for o in range(No):
        yield 'phase_shift_single_channel', dict(channel_for_shift=o, phase_shift=0.3), [({o}, set())]


def _custom(No, Nc):
    for l in _pairs(No):
        yield 'custom_optical_node', dict(matrix_optical=np.eye(2), optical_channels=list(l)), [(set(l), set())]
    if No <= 5:
        yield 'custom_fock_state_node', dict(custom_fock_matrix=np.eye(2 ** No)), [(set(range(No)), set())]


CALLS = {'phase': _phase, 'custom': _custom, 'classical': _classical, 'generic': _generic, 'measure': _measure, 'psc': _psc,
         'wpc': _wpc('wave_plate_classical_control'), 'wphc': _wpc('wave_plate_from_hamiltonian_classical_control'),
         'pbs': _bs('polarizing_beamsplitter'), 'npbs50': _bs('non_polarizing_50_50_beamsplitter'), 'npbs': _bs('non_polarizing_beamsplitter', reflection=0.25, transmission=0.75),
         'shift': _shift('shift'), 'shift_direct': _shift('shift_direct'), 'c_shift': _cshift('c_shift'), 'c_shift_direct': _cshift('c_shift_direct'), 'coupling': _cshift('channel_coupling', coupling_strength=0.5),
         'swap': _two('swap', 'first_channel', 'second_channel'), 'mix': _two('mix_50_50', 'first_channel', 'second_channel'),
         'mixg': _two('mix_generic_refl_transm', 'first_channel', 'second_channel', reflection=0.25, transmission=0.75),
         'wph': _two('wave_plate_from_hamiltonian', 'channel_horizontal', 'channel_vertical'),
         'delay': _delay('time_delay', delay=1, pulse_width=1, bandwidth=1), 'delay_full': _delay('time_delay_full', delay=1, pulse_width=1),
         'delay_c': _delay('time_delay_classical_control', pulse_width=1, bandwidth=1), 'delay_c_full': _delay('time_delay_classical_control_full', pulse_width=1),
         'pulse': _delay('set_pulse_width', pulse_width=1)}
for _n in ('wave_plate', 'half_wave_plate', 'half_wave_plate_45', 'half_wave_plate_225', 'quarter_wave_plate', 'quarter_wave_plate_45', 'quarter_wave_plate_225'):
    CALLS[_n] = _two(_n, 'channel_horizontal', 'channel_vertical')


def run_nodes(rep, name, No, Nc):
    for method, kw, want in CALLS[name](No, Nc):
        if No > 5 and method in ('shift', 'c_shift', 'channel_coupling'):
            continue
        case = dict(call=method, arguments={k: v for k, v in kw.items() if isinstance(v, (int, float, list, tuple))}, shape=(No, Nc))
        rep.state(('nodes', method, repr(case)))
        rep.step()
        with rep.guard('nodes-' + method, case):
            c = fsc.FockStateCircuit(length_of_fock_state=2, no_of_optical_channels=No, no_of_classical_channels=Nc)
            getattr(c, method)(**kw)
            shown = canvas.draw(c.draw)
            bad = judge_single(shown, No, Nc, want, kw if 'shift' in method or 'coupling' in method else {})
            if bad:
                rep.violation('nodes-' + method, case, bad)
            rep.trace(case)


def judge_single(shown, No, Nc, want, kw):
    if len(shown) != 1 or len(shown[0]) != 1:
        return 'not one page'
    p = Page(shown[0][0])
    ys = {}
    for kind, n, color in (('o', No, 'blue'), ('c', Nc, 'black')):
        lv = levels([p], color)
        if len(lv) != n:
            return 'lines'
        ys.update({y: (kind, k) for k, y in enumerate(lv)})
    if len(p.boxes) != 1:
        return '%d boxes' % len(p.boxes)
    x0, x1 = p.boxes[0][:2]
    got = {}
    for x, y, pos in p.marks:
        if x0 - EPS < x < x1 + EPS:
            if p.hidden(x, y, pos):
                return 'hidden marker'
            key = ys.get(round(y, 6))
            if key in got.setdefault(round(x, 6), []):
                return 'marker drawn twice'
            got[round(x, 6)].append(key)
    got = [({k for t, k in got[x] if t == 'o'}, {k for t, k in got[x] if t == 'c'}) for x in sorted(got)]
    if got != want:
        return 'drawn on %s, acts on %s' % (got, want)
    for text, chans in (('c', kw.get('control_channels')), ('t', kw.get('target_channels') if 'control_channels' in kw else None)):
        if chans is not None and {ys[round(y, 6)][1] for x, y, t, pos in p.symbols if t == text and x0 < x < x1} != set(chans):
            return 'controls and targets are confused'
    return None


# ---------------------------------------------------------------- stations

# channels 0..3 optical, 0..2 classical
STATION_SPLITS = [
    {'alice': {'optical_channels': [0, 1], 'classical_channels': [0]}, 'bob': {'optical_channels': [2, 3], 'classical_channels': [1, 2]}},
    {'alice': {'optical_channels': [3, 0], 'classical_channels': [2]}, 'bob': {'optical_channels': [1]}, 'charlie': {'optical_channels': [2], 'classical_channels': [0, 1]}},
    {'alice': {'optical_channels': [0, 1, 2]}, 'bob': {'classical_channels': [2, 0, 1]}},
    {'alice': {'optical_channels': [2], 'classical_channels': [1]}, 'bob': {'optical_channels': [0, 1, 3], 'classical_channels': [0, 2]}},
    {'alice': {'optical_channels': [0], 'classical_channels': [0]}, 'bob': {'classical_channels': [2, 1]}, 'charlie': {'optical_channels': [3, 1, 2]}},
    {'a': {'optical_channels': [0]}, 'b': {'optical_channels': [1]}, 'c': {'optical_channels': [2]}, 'd': {'optical_channels': [3]}, 'e': {'classical_channels': [0]}, 'f': {'classical_channels': [1]}, 'g': {'classical_channels': [2]}},
]
STATION_MENU = [((0,), (), None, 'gen'), ((0, 2), (), None, 'gen'), ((1, 3), (), None, 'gen'), ((2,), (1,), None, 'meas'), ((0, 3), (2, 0), None, 'meas'), ((), (0, 2), None, 'set'), ((), (1,), None, 'set'),
                ((3,), (0,), None, 'gen'), ((1, 2), (1,), None, 'gen'), ((0, 1), (0, 1), None, 'meas'), ((1, 0), (), None, 'swap'), ((0, 1), (0, 1), None, 'gen'), ((3, 2, 1, 0), (2, 1, 0), None, 'gen')]


def station_nodes(nodes, split, station, first=0):
    """nodes of a station: (number, optical, classical channels in local numbering, names of the other stations, texts per channel)"""
    mine = {'o': split[station].get('optical_channels', []), 'c': split[station].get('classical_channels', [])}
    res = []
    for n, (o, c, g, kind) in enumerate(nodes):
        lo, lc = [k for k, ch in enumerate(mine['o']) if ch in o], [k for k, ch in enumerate(mine['c']) if ch in c]
        if not lo and not lc:
            continue
        others = set()
        for other, chans in split.items():
            if other == station:
                continue
            oo, oc = chans.get('optical_channels', []), chans.get('classical_channels', [])
            if kind == 'meas':
                # a measurement connects, pair by pair, the station of the detector with the station that reads the result
                if any((a in mine['o'] or b in mine['c']) and (a in oo or b in oc) for a, b in zip(o, c)):
                    others.add(other)
            elif set(oo) & set(o) or set(oc) & set(c):
                others.add(other)
        texts = {('o', k): '%d:o%d' % (n + first, mine['o'][k]) for k in lo} | {('c', k): '%d:c%d' % (n + first, mine['c'][k]) for k in lc}
        res.append((n + first, lo, lc, others, texts))
    return res


def judge_station(record, split, station, nodes_by_circuit, n_opt, n_cl, given=None):
    if len(record) == 0:
        return 'no page'
    pages = [Page(i) for i in record]
    flat = [x for ns in nodes_by_circuit for x in ns]
    if not any(station in t for p in pages for t in p.titles):
        return 'title does not name the station'
    ys = {}
    for kind, n, color in (('o', n_opt, 'blue'), ('c', n_cl, 'black')):
        lv = levels(pages, color)
        if len(lv) != n:
            return '%d lines of kind %s, expected %d' % (len(lv), kind, n)
        ys.update({y: (kind, k) for k, y in enumerate(lv)})
    lab = {'o': [station + ', Opt.%d' % k for k in range(n_opt)], 'c': [station + ', Clas.%d' % k for k in range(n_cl)]}
    for y, (kind, k) in ys.items():
        if not any(t == lab[kind][k][:15] and abs(ty - y) < EPS for t, x, ty, pos in pages[0].texts):
            return 'line %s%d not labelled' % (kind, k)
    boxes = sorted((pi, b[0], -b[3], b) for pi, p in enumerate(pages) for b in p.boxes)
    if len(boxes) != len(flat):
        return '%d nodes drawn, expected %d' % (len(boxes), len(flat))
    where = {}
    identifiers = {}
    for n, lo, lc, others, wanted in flat:
        hits = [(pi, x, y) for pi, p in enumerate(pages) for t, x, y, pos in p.texts if t == 'N%d' % n]
        if len(hits) != 1:
            return 'label of node %d shown %d times' % (n, len(hits))
        pi, x, y = hits[0]
        p = pages[pi]
        box = [b for qi, _, _, b in boxes if qi == pi and abs(b[0] - x) < EPS and b[2] < y and abs(b[3] - y) < 8]
        box = sorted(box, key=lambda b: abs(b[3] - y))[:1]
        if not box:
            return 'label of node %d not at a box' % n
        x0, x1, y0, y1, pos = box[0]
        xm = (x0 + x1) / 2
        got = {ys.get(round(my, 6)) for mx, my, mp in p.marks if x0 < mx < x1 and y0 - EPS <= my <= y1 + EPS and my > EPS}
        want = {('o', k) for k in lo} | {('c', k) for k in lc}
        if got != want:
            return 'node %d on %s, expected %s' % (n, sorted(got, key=str), sorted(want))
        shown = {(ys.get(round(sy, 6)), t) for sx, sy, t, sp in p.symbols if x0 < sx < x1 and y0 - EPS <= sy <= y1 + EPS and sy > EPS}
        if shown != set(wanted.items()):
            return 'texts of node %d are %s, expected %s' % (n, sorted(shown, key=str), sorted(wanted.items()))
        where[n] = (pi, xm, want)
        if any(qi == pi and abs(b[0] - x0) < EPS and b[2] < y0 for qi, _, _, b in boxes):
            texts = []      # the connection at the bottom of the column belongs to the lowest node
            if others:
                return 'node %d has a node between itself and its connection' % n
            continue
        texts = [t for t, tx, ty, tp in p.texts if t.startswith('To station(s):') and x0 < tx < x1 and abs(ty) < EPS]
        names = set(texts[0].split('\n')[1].split(',')) if len(texts) == 1 else set()
        if len(texts) > 1 or names != others:
            return 'node %d connects to %s, expected %s' % (n, texts, sorted(others))
        signs = [t for sx, sy, t, sp in p.symbols if x0 < sx < x1 and abs(sy) < EPS]
        if len(signs) != (1 if others else 0) or len(signs) == 1 and len(signs[0]) != 1:
            return 'connection of node %d carries the identifiers %s' % (n, signs)
        if signs:
            identifiers[n] = signs[0]
    for a, b in itertools.combinations([f[0] for f in flat], 2):
        if where[a][2] & where[b][2] and where[a][:2] >= where[b][:2]:
            return 'nodes %d and %d in wrong order' % (a, b)
    if given is not None:
        for n, t in identifiers.items():
            if given.setdefault(n, t) != t:
                return 'node %d is called %s and %s in the drawings of two stations' % (n, given[n], t)
        if len(nodes_by_circuit) == 1 and len(set(given.values())) != len(given):
            return 'two nodes share an identifier: %s' % given
    return None


def run_stations(rep, i, j, depth):
    split = STATION_SPLITS[i]
    for rest in itertools.product(STATION_MENU, repeat=depth - 1):
        nodes = (STATION_MENU[j],) + rest
        for select in ('all', 'one', 'list'):
            if select == 'all':
                which = list(split)
            elif select == 'one':
                which = [list(split)[(j + len(rest)) % len(split)]]
            else:
                which = list(split)[::-1][:2 if len(split) > 2 else 1]
            station_case(rep, split, [(4, 3, nodes)], which, select)


def station_case(rep, split, specs, which, select):
    nodes_of, first = {}, 0
    for st in split:
        first, per = 0, []
        for No, Nc, nodes in specs:
            per.append(station_nodes(nodes, split, st, first))
            first += len(nodes)
        nodes_of[st] = per
    if any(not all(nodes_of[st]) for st in which):
        return      # a station without nodes cannot be drawn
    case = dict(circuits=[(a, b, list(n)) for a, b, n in specs], stations=split, draw=which if select != 'all' else 'all')
    rep.state(('stations', repr(case)))
    rep.step()
    with rep.guard('stations', case):
        c = build(specs)
        st = {'station_channels': {k: {a: list(b) for a, b in v.items()} for k, v in split.items()}}
        if select == 'one':
            st['station_to_draw'] = which[0]
        elif select == 'list':
            st['station_to_draw'] = list(which)
        shown = canvas.draw(lambda: c.draw_station(st))
        bad = None
        if len(shown) != len(which):
            bad = '%d figures for the stations %s' % (len(shown), which)
        else:
            given = {}
            for rec, s in zip(shown, which):
                bad = judge_station(rec, split, s, nodes_of[s], len(split[s].get('optical_channels', [])), len(split[s].get('classical_channels', [])), given)
                if bad:
                    bad = s + ': ' + bad
                    break
        # the circuit itself is drawn as before
        if not bad:
            b = judge(canvas.draw(c.draw), specs)
            bad = ('circuit drawn after its stations: ' + b[0]) if b else None
        if bad:
            rep.violation('stations', case, bad)
        rep.trace(case)


def run_station_bridge(rep, i):
    split = STATION_SPLITS[i]
    base = ((0, 1), (0, 1, 2), None, 'gen')
    everything = ((0, 1, 2, 3), (0, 1, 2), None, 'gen')
    for a in STATION_MENU:
        for b in STATION_MENU:
            station_case(rep, split, [(4, 3, (a, everything)), (4, 3, (everything, b))], list(split), 'all')


# ---------------------------------------------------------------- histories

HISTORY = [
    ([(3, 1, (((0, 2), (), None, 'gen'), ((1,), (0,), None, 'gen')))], None),
    ([(2, 2, (((0,), (1,), None, 'meas'), ((), (0, 1), None, 'set'), ((1, 0), (), None, 'gen')))], None),
    ([(3, 0, tuple(((k % 3,), (), 'A' if k % 4 < 2 else None, 'gen') for k in range(12)))], None),
    ([(2, 1, (((0, 1), (), None, 'gen'),)), (3, 2, (((2,), (1,), None, 'gen'),))], None),
    ([(3, 1, (((0, 2), (), None, 'gen'), ((1,), (0,), None, 'gen')))], {'number_of_nodes_on_a_line': 1}),
    ([(2, 1, (((0, 1), (), None, 'gen'),))], {'channel_labels_optical': ['a', 'b'], 'channel_labels_classical': ['c']}),
]


def run_history(rep, i):
    def make(k):
        specs, s = HISTORY[k]
        return build(specs), s

    def one(c, s):
        return canvas.draw(lambda: c.draw(settings_for_drawing_circuit=dict(s)) if s else c.draw())

    case = dict(history=[i])
    with rep.guard('history', case):
        alone = one(*make(i))
    for hist in itertools.product(range(len(HISTORY)), repeat=2):
        case = dict(history=list(hist) + [i])
        rep.state(('history', hist, i))
        rep.step(3)
        with rep.guard('history', case):
            c, s = make(i)
            others = [make(k) for k in hist]
            for o in others:
                one(*o)
            first = one(c, s)
            second = one(c, s)
            if first != alone or second != alone:
                rep.violation('history', case, 'the drawing depends on what was drawn before')
            rep.trace(case)


def run_compound(rep, a, b):
    """histories of drawing a compound circuit, its parts and its stations"""
    specs = []
    for k, (No, Nc) in enumerate((SHAPES[a], SHAPES[b])):
        specs.append((No, Nc, (((0, No - 1), (), None, 'gen'), ((1,), (Nc - 1,), None, 'gen') if Nc else ((1,), (), None, 'gen'), (tuple(range(No)), (), None, 'gen'))))
    ops = ('whole', 'first', 'second', 'refresh', 'grow', 'stations')
    for hist in itertools.product(ops, repeat=3):
        for named in (True, False):
            case = dict(circuits=specs, history=hist, named=named)
            rep.state(('compound', a, b, hist, named))
            rep.step(3)
            with rep.guard('compound', case):
                parts, n = [], 0
                for k, (No, Nc, nodes) in enumerate(specs):
                    kw = {'circuit_name': 'circuit%d' % k} if named else {}
                    c = fsc.FockStateCircuit(length_of_fock_state=2, no_of_optical_channels=No, no_of_classical_channels=Nc, **kw)
                    for node in nodes:
                        add(c, node, n)
                        n += 1
                    parts.append(c)
                # the second circuit alone shows its nodes with the numbers of the whole
                comp = fsc.CompoundFockStateCircuit(list_of_circuits=list(parts), compound_circuit_name='the whole')
                now = list(specs)
                for op in hist + ('whole',):
                    names = ['circuit%d' % k for k in range(len(now))] if named else ['']
                    bad = []
                    if op == 'whole':
                        shown = canvas.draw(comp.draw)
                        bad = judge(shown, now, names=names, check_names=named)
                        if not bad and not all('the whole' in t for t in [x[1] for x in shown[0][0] if x[0] == 'title']):
                            bad = ['title of the compound circuit missing']
                    elif op in ('first', 'second'):
                        k = 0 if op == 'first' else 1
                        shown = canvas.draw(parts[k].draw)
                        if k == 0:
                            bad = judge(shown, [specs[0]], names=names, check_names=named)
                        elif sum(len(Page(i).boxes) for i in shown[0]) != len(specs[1][2]):
                            bad = ['the second part shows %d nodes' % sum(len(Page(i).boxes) for i in shown[0])]
                    elif op == 'refresh':
                        comp.refresh()
                    elif op == 'grow' and len(now) == 2:
                        c = fsc.FockStateCircuit(length_of_fock_state=2, no_of_optical_channels=2, no_of_classical_channels=0, **({'circuit_name': 'circuit2'} if named else {}))
                        add(c, ((0, 1), (), None, 'gen'), n)
                        comp.list_of_circuits.append(c)
                        comp.refresh()
                        now.append((2, 0, (((0, 1), (), None, 'gen'),)))
                    elif op == 'stations':
                        split = {'alice': {'optical_channels': [0]}, 'bob': {'optical_channels': [1]}}
                        shown = canvas.draw(lambda: comp.draw_station({'station_channels': {k: {x: list(y) for x, y in v.items()} for k, v in split.items()}}))
                        if len(shown) != 2:
                            bad = ['%d figures for two stations' % len(shown)]
                        for rec, st in zip(shown, split):
                            first, per = 0, []
                            for No, Nc, nodes in now:
                                per.append(station_nodes(nodes, split, st, first))
                                first += len(nodes)
                            b1 = judge_station(rec, split, st, per, 1, 0) if not bad else None
                            if b1:
                                bad = [st + ': ' + b1]
                    if bad:
                        rep.violation('compound', case, op + ': ' + '; '.join(bad[:3]))
                        break
                rep.trace(case)


def run_real(rep, i):
    """the recording canvas against real figures"""
    specs = [s for s, _ in HISTORY] + [[(2, 1, (((0, 1), (), None, 'gen'), ((), (0,), None, 'set')) * 6)], [(4, 3, STATION_MENU)]]
    spec, line = specs[i], (10, 3)[i % 2]
    case = dict(circuits=spec, backend='real')
    rep.state(('real', i))
    rep.step()
    with rep.guard('real', case):
        a = canvas.draw(lambda: build(spec).draw(settings_for_drawing_circuit={'number_of_nodes_on_a_line': line}))
        b = canvas.draw(lambda: build(spec).draw(settings_for_drawing_circuit={'number_of_nodes_on_a_line': line}), real=True)
        bad = judge(b, spec, line)
        if bad:
            rep.violation('real', case, '; '.join(bad[:4]))
        if len(a) != len(b) or len(a[0]) != len(b[0]):
            raise Exception('the recording canvas differs from the figure: %d/%d pages' % (len(a[0]), len(b[0])))
        for p, q in zip(a[0], b[0]):
            for kind in ('line', 'rect', 'title', 'text'):
                x, y = [t for t in p if t[0] == kind], [t for t in q if t[0] == kind]
                if kind == 'line':
                    x, y = [t[:4] for t in x], [t[:4] for t in y]
                if repr(x).replace("'none'", "'None'") != repr(y).replace("'none'", "'None'"):
                    d = [(u, v) for u, v in zip(x, y) if repr(u) != repr(v)][:2]
                    raise Exception('the recording canvas differs from the figure: %r' % (d or (len(x), len(y)),))
        rep.trace(case)


# ---------------------------------------------------------------- settings given per channel

STYLE_KEYS = [('markers', 'o', ('v', '^', 'h', '*')), ('marker_text', 'o', ('$a$', '$b$', '$c$', '$d$')), ('markercolor', 'o', ('red', 'green', 'cyan', 'brown')), ('marker_text_color', 'o', ('red', 'green', 'cyan', 'brown')),
              ('classical_marker', 'c', ('v', '^', 'h', '*')), ('classical_marker_text', 'c', ('$a$', '$b$', '$c$', '$d$')), ('classical_marker_color', 'c', ('red', 'green', 'cyan', 'brown')), ('classical_marker_text_color', 'c', ('red', 'green', 'cyan', 'brown'))]
STYLE_DEFAULT = {'markers': 'o', 'marker_text': '', 'markercolor': 'blue', 'marker_text_color': 'white', 'classical_marker': 'o', 'classical_marker_text': '', 'classical_marker_color': 'black', 'classical_marker_text_color': 'white'}
STYLE_SPLITS = [{'alice': {'optical_channels': [0, 1], 'classical_channels': [0]}, 'bob': {'optical_channels': [2, 3], 'classical_channels': [1, 2]}},
                {'alice': {'optical_channels': [3, 1, 0, 2], 'classical_channels': [2, 0, 1]}}]


def styles_drawn(record, key, kind, height):
    """[(page, x, line, value of the setting)] of the markers on the lines of one kind, in the order in which they are drawn"""
    pages = [Page(i) for i in record]
    ys = {y: k for k, y in enumerate(levels(pages, 'blue' if kind == 'o' else 'black'))}
    text = 'text' in key
    res = []
    for pi, p in enumerate(pages):
        columns = {round((b[0] + b[1]) / 2, 6) for b in p.boxes}
        for it in p.items:
            if it[0] != 'line' or len(it[1]) != 1 or round(it[2][0], 6) not in ys or round(it[1][0], 6) not in columns or it[4] == 0 or it[3] in ('None', 'none'):
                continue
            res.append((pi, round(it[1][0], 6), ys[round(it[2][0], 6)], it[5] if 'color' in key else it[3]))
    # the marker of a channel is drawn first, its text second
    out, seen = {}, {}
    for pi, x, k, v in res:
        seen.setdefault((pi, x, k), []).append(v)
    for where, vs in seen.items():
        out[where] = vs[1 if text else 0] if len(vs) == 2 else 'drawn %d times' % len(vs)
    return out


def run_style(rep, i):
    key, kind, alphabet = STYLE_KEYS[i]
    No, Nc = 4, 3
    top = No if kind == 'o' else Nc
    for r in range(1, top + 1):
        for chans in itertools.permutations(range(top), r):
            for form in ('scalar', 'default', 'empty') + tuple(range(1, r + 2)):
                for extra in ('plain', 'unknown', 'legacy'):
                    if extra == 'legacy' and kind == 'c':
                        continue
                    for split in [None] + STYLE_SPLITS:
                        case = dict(setting=key, channels=list(chans), given=form, extra=extra, stations=split)
                        rep.state(('style', repr(case)))
                        rep.step()
                        with rep.guard('style', case):
                            bad = style_case(key, kind, alphabet, chans, form, extra, split, No, Nc)
                            if bad:
                                rep.violation('style', case, bad)
                            rep.trace(case)


def style_case(key, kind, alphabet, chans, form, extra, split, No, Nc):
    c = fsc.FockStateCircuit(length_of_fock_state=2, no_of_optical_channels=No, no_of_classical_channels=Nc)
    info = {'label': 'N0', 'channels_optical': list(chans) if kind == 'o' else [], 'channels_classical': list(chans) if kind == 'c' else []}
    if extra == 'legacy':
        info['channels'] = info.pop('channels_optical')
    if extra == 'unknown':
        info['not a setting'] = [1, 2]
    default = STYLE_DEFAULT[key]
    if form == 'scalar':
        info[key], want = alphabet[0], [alphabet[0]] * len(chans)
    elif form == 'default':
        want = [default] * len(chans)
    elif form == 'empty':
        info[key], want = [], [default] * len(chans)
    else:
        info[key] = list(alphabet[:form])
        want = [info[key][k] if k < form else info[key][0] for k in range(len(chans))]
    def f(states, collection, *a):
        return states
    c.custom_fock_state_node(f, node_info=info)
    given = c.node_list[-1]['node_info'].get(key)
    given = list(given) if isinstance(given, list) else given
    # the drawing shows what the node carries; the node carries what the user gave, and else its own choice or the default
    if form != 'default' and given != info[key]:
        return 'the node carries %r for %s' % (given, key)
    if form == 'default' and given is not None:
        given = given if isinstance(given, list) else [given]
        want = [given[k] if k < len(given) else given[0] for k in range(len(chans))]
    if split is None:
        figures, places = canvas.draw(c.draw), [list(range(No if kind == 'o' else Nc))]
    else:
        mine = 'optical_channels' if kind == 'o' else 'classical_channels'
        names = [s for s in split if set(split[s][mine]) & set(chans)]
        figures = canvas.draw(lambda: c.draw_station({'station_channels': {k: {a: list(b) for a, b in v.items()} for k, v in split.items()}, 'station_to_draw': names}))
        places = [split[s][mine] for s in names]
    if len(figures) != len(places):
        return '%d figures, expected %d' % (len(figures), len(places))
    for record, place in zip(figures, places):
        got = styles_drawn(record, key, kind, No)
        exp = {place.index(ch): v for ch, v in zip(chans, want) if ch in place}
        if {k: v for (_, _, k), v in got.items()} != exp:
            return '%s per line: %s, expected %s' % (key, {k: v for (_, _, k), v in got.items()}, exp)
    return None
