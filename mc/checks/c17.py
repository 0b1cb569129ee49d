"""C17: histogram and correlation data of plot() and plot_correlations() are the statistics of the collection."""
import itertools
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import fock_state_circuit as fsc
from mc import ref, impl
from mc.common import *

LEVEL = 'model_checking'
RULE = ('state = (multiset of weighted states over a menu of labels, classical values and weights; selected channels; selected labels; length and convention); all multisets up to the bound are combined with all ordered channel selections and '
        'all label selections, the returned histogram and correlations are compared with sums over the states, and the bars of the drawn figure with the histogram; circuits with measurements are compared with the Born rule')
ASSUMPTIONS = ['classical values are integers in the photon range (other values are mapped to names modulo the length)', 'outcomes listed with probability zero are optional', 'positive total probability per label']


def menu(L, C):
    top = L - 1
    vals = [(0,) * C, (1,) + (0,) * (C - 1), (0,) * (C - 1) + (1,), tuple((c + 1) % L for c in range(C)), (top,) * (C - 1) + (0,)]
    vals = list(dict.fromkeys(vals))
    return [(lab, v, w) for lab in ('a', 'b') for v in vals for w in (0.5, 0.125)]


SHAPES = {'quick': [(2, 1, True), (2, 2, False), (3, 2, True), (3, 3, False), (3, 3, True), (11, 3, True), (11, 3, False), (10, 2, True), (10, 3, False), (100, 2, True), (101, 2, False)],
          'thorough': [(2, 1, True), (2, 2, False), (2, 3, True), (3, 2, True), (3, 3, False), (3, 3, True), (4, 4, False), (11, 3, True), (11, 3, False), (101, 2, False), (10, 2, True), (10, 3, False), (100, 2, True), (9, 2, False), (1000, 2, True), (1001, 2, False)]}


def shards(tier):
    items = [('draw', L, C, left, part, tier) for L, C, left in SHAPES[tier] for part in range(4)]
    for L, C, left in SHAPES[tier]:
        n = len(menu(L, C))
        items += [('data', L, C, left, i, tier) for i in range(n)]
    items += [('wide', 3, C, left, tier) for C in (11, 12) for left in (True, False)]
    items += [('born', L, N, left, i, tier) for L, N in ((2, 2), (3, 2), (3, 3)) for left in (True, False) for i in range(4)]
    return items


def build(c, states, L, left):
    N = 2
    coll = [ref.MS(lab, w, {(0,) * N: 1.0 + 0j} if i % 2 else {(1, 0): 0.6 + 0j, (0, 1): 0.8j}, v) for i, (lab, v, w) in enumerate(states)]
    return coll, impl.collection(c, coll, L, left)


def histogram(coll, channels, labels, L, left):
    res = {}
    for m in coll:
        if labels and m.init not in labels:
            continue
        n = ref.name_of([int(m.cl[c]) for c in channels], L, left)
        d = res.setdefault(m.init, {})
        d[n] = d.get(n, 0) + m.cum
    return res


def data(h):
    """{label: {outcome: probability}} of the returned structure, None if an outcome is listed twice"""
    res = {}
    for lab, lst in h.items():
        d = {}
        for e in lst:
            if e['output_state'] in d:
                return None
            d[e['output_state']] = float(e['probability'])
        res[lab] = d
    return res


def differ(want, got, tol=1e-6):
    if got is None:
        return 'an outcome is listed twice'
    if set(want) != set(got):
        return 'labels %s expected %s' % (sorted(got), sorted(want))
    for lab in want:
        for k in set(want[lab]) | set(got[lab]):
            if abs(want[lab].get(k, 0) - got[lab].get(k, 0)) > tol:
                return 'label %s outcome %s: probability %r expected %r' % (lab, k, got[lab].get(k, 0), want[lab].get(k, 0))
    return None


def correlations(coll, pairs, labels):
    res = {}
    for lab in {m.init for m in coll}:
        if labels and lab not in labels:
            continue
        tot = sum(m.cum for m in coll if m.init == lab)
        res[lab] = [sum(m.cum * (1 if m.cl[a] == m.cl[b] else -1) for m in coll if m.init == lab) / tot for a, b in pairs]
    return res


LABELS = [[], ['a'], ['b'], ['b', 'a'], ['a', 'zzz']]


def check_collection(rep, coll, real, L, C, left, case, selections, tol=1e-6, labels=LABELS, pairs=None):
    for channels in selections:
        for labs in labels:
            want = histogram(coll, channels or range(C), labs, L, left)
            rep.step()
            got = real.plot(classical_channels=list(channels), initial_states=list(labs), histo_output_instead_of_plot=True)
            d = differ(want, data(got), tol)
            if d:
                rep.violation('histogram', dict(case, channels=channels, initial_states=labs), d)
    pairs = pairs if pairs is not None else list(itertools.product(range(C), repeat=2))
    for labs in labels:
        want = correlations(coll, pairs, labs)
        got = real.plot_correlations(channel_combis_for_correlation=list(pairs), correlation_output_instead_of_plot=True, initial_states_to_assess=list(labs))
        rep.step()
        if set(want) != set(got) or any(len(got[k]) != len(pairs) or any(abs(x - y) > tol for x, y in zip(want[k], got[k])) for k in want):
            rep.violation('correlation', dict(case, pairs=pairs, initial_states=labs), 'expected %s got %s' % (want, got))


def fingerprint(real):
    return repr([(k, s.initial_state, s.cumulative_probability, s.optical_components, s.classical_channel_values) for k, s in real._collection_of_states.items()]) if hasattr(real, '_collection_of_states') else ''


def selections_of(C):
    return [()] + [p for k in range(1, C + 1) for p in itertools.permutations(range(C), k)] + ([(0, 0)] if C > 1 else [])


def run(item, rep):
    kind, L = item[:2]
    tier = item[-1]
    if kind == 'data':
        C, left, i = item[2:5]
        c = impl.circuit(L, 2, C, left, THR)
        men = menu(L, C)
        sels = selections_of(C)
        rest = men[i:]
        depth = 2 if tier == 'quick' else 3
        for n in range(1, depth + 1):
            for tail in itertools.combinations_with_replacement(rest, n - 1):
                states = (men[i],) + tail
                orders = {states, states[::-1]}
                for st in orders:
                    case = dict(L=L, C=C, channel_0_left=left, states=st)
                    rep.state((L, C, left, st))
                    with rep.guard('histogram', case):
                        coll, real = build(c, st, L, left)
                        check_collection(rep, coll, real, L, C, left, case, sels if n < 3 else sels[::3], labels=LABELS if n < 3 else LABELS[:3])
                        rep.trace(case)
        return
    if kind == 'wide':
        # channel numbers with two digits
        C, left = item[2:4]
        c = impl.circuit(L, 2, C, left, THR)
        states = [(lab, tuple((k * k + n * (k % 4) + n) % L for k in range(C)), w) for n, (lab, w) in enumerate((('a', 0.5), ('b', 0.25), ('a', 0.125), ('b', 0.5)))]
        case = dict(L=L, C=C, channel_0_left=left, states=states)
        ks = [0, 1, 2, 9, 10, C - 1]
        rep.state(('wide', C, left))
        with rep.guard('histogram', case):
            coll, real = build(c, states, L, left)
            check_collection(rep, coll, real, L, C, left, case, [(), tuple(range(C))[::-1]] + [(a, b) for a in ks for b in ks if a != b] + [(10, 1, 0), (2, 10, 9, 1)],
                             pairs=list(itertools.product(range(C), repeat=2)))
            rep.trace(case)
        return
    if kind == 'draw':
        C, left = item[2:4]
        c = impl.circuit(L, 2, C, left, THR)
        men = menu(L, C)
        for st in [tuple(men[(i + j * s) % len(men)] for j in range(k)) for i in range(item[4], len(men), 4) for k, s in ((1, 1), (3, 3), (7, 5))]:
            coll, real = build(c, st, L, left)
            for channels, labs in (((), []), (tuple(range(C))[::-1], ['b', 'a']), ((0,), [])):
                want = histogram(coll, channels or range(C), labs, L, left)
                case = dict(L=L, C=C, channel_0_left=left, states=st, channels=channels, initial_states=labs)
                rep.state(('draw', L, C, left, st, channels))
                if not want:
                    continue
                with rep.guard('figure', case):
                    plt.close('all')
                    real.plot(classical_channels=list(channels), initial_states=list(labs))
                    figure(rep, case, want)
                    plt.close('all')
                    pairs = list(itertools.product(range(C), repeat=2))
                    real.plot_correlations(channel_combis_for_correlation=pairs, initial_states_to_assess=list(labs))
                    cor = correlations(coll, pairs, labs)
                    figure(rep, dict(case, correlations=pairs), {k: dict(zip(map(str, pairs), v)) for k, v in cor.items()})
                    plt.close('all')
                    rep.step(2)
                    rep.trace(case)
                    if tier == 'quick' and {1: 0, 3: 1, 7: 2}[len(st)] != (2 if channels == (0,) else 1 if channels else 0):
                        continue
                    style = {'colors': ['tab:red', 'tab:blue', 'black'], 'title': 'the title', 'ylabel': 'the label'}
                    for which, call in (('plot', lambda: real.plot(classical_channels=list(channels), initial_states=list(labs), info_for_bar_plot=style)),
                                        ('correlations', lambda: real.plot_correlations(channel_combis_for_correlation=pairs, initial_states_to_assess=list(labs), info_for_bar_plot=style))):
                        call()
                        figure(rep, dict(case, style=style, which=which), want if which == 'plot' else {k: dict(zip(map(str, pairs), v)) for k, v in cor.items()})
                        texts = (plt.gca().get_title(), plt.gca().get_ylabel())
                        if texts != ('the title', 'the label'):
                            rep.violation('figure', dict(case, which=which), 'title and label %r' % (texts,))
                        plt.close('all')
                    for key in ('probability', 'correlation'):
                        numbers = want if key == 'probability' else {k: dict(zip(map(str, pairs), v)) for k, v in cor.items()}
                        given = {k: [{'output_state': o, key: x} for o, x in (list(d.items()) if n % 2 else list(d.items())[::-1])] for n, (k, d) in enumerate(numbers.items())}
                        before = repr(given)
                        fsc.plot_correlations_from_dict(given)
                        figure(rep, dict(case, given=given), numbers)
                        plt.close('all')
                        if repr(given) != before:
                            rep.violation('figure', dict(case, given=before), 'the dictionary that was plotted became %r' % (given,))
                    rep.step(4)
        return
    N, left, i = item[2:5]
    C = N
    base = [[('mix', 0, 1)], [('hwp', 1, 0, 0.3), ('swap', 0, N - 1)], [('wp', 0, N - 1, 0.7, 1.2), ('mix', N - 1, 0)], [('mix', 0, 1), ('ps', 1, 0.8), ('mix', 1, 0), ('shift', (0,), (1,))]][i]
    vals = ref.all_values(L, N)
    coll = [ref.MS('s%d' % (n // 2), 0.5 if n % 2 else 0.25, {v: 1.0 + 0j}, (0,) * C) for n, v in enumerate(vals)] + [ref.MS('sup', 0.125, generic_vector(vals), (0,) * C)]
    for k in range(1, N + 1):
        for oc in itertools.permutations(range(N), k):
            for cc in itertools.permutations(range(C), k):
                for ops in ([*base, ('meas', oc, cc)], [('meas', oc, cc), *base], [*base, ('meas', oc[:1], cc[:1]), ('mix', 0, 1), ('meas', oc, cc)]):
                    case = dict(L=L, N=N, channel_0_left=left, ops=ops)
                    rep.state((L, N, left, repr(ops)))
                    with rep.guard('born', case):
                        c = impl.circuit(L, N, C, left, THR, False, ops)
                        out = impl.evaluate(c, impl.collection(c, coll, L, left))
                        model = ref.run_model(coll, ops, L, THR)
                        check_collection(rep, model, out, L, C, left, case, [(), tuple(range(C))[::-1], cc], 1e-4, [[], ['s1', 'sup']])
                        rep.trace(case)


def figure(rep, case, want):
    """bars of the figure: heights at the position of every label, grey background bars excluded"""
    ax = plt.gca()
    labels = [t.get_text() for t in ax.get_xticklabels()]
    legend = [t.get_text() for t in ax.get_legend().get_texts()]
    if sorted(labels) != sorted(want):
        rep.violation('figure', case, 'labels %s expected %s' % (labels, sorted(want)))
        return
    handles = ax.get_legend().legend_handles if hasattr(ax.get_legend(), 'legend_handles') else ax.get_legend().legendHandles
    colors = [matplotlib.colors.to_hex(h.get_color()) for h in handles]
    by, spans = {}, []
    for p in ax.patches:
        col = matplotlib.colors.to_hex(p.get_facecolor())
        x0, x1 = sorted((p.get_x(), p.get_x() + p.get_width()))
        y0, y1 = sorted((p.get_y(), p.get_y() + p.get_height()))
        if col == matplotlib.colors.to_hex('whitesmoke'):
            for bx0, bx1, by0, by1, other in spans:
                if other != col and min(x1, bx1) - max(x0, bx0) > 1e-6 and min(y1, by1) - max(y0, by0) > 1e-6:
                    rep.violation('figure', case, 'a background bar is drawn over a bar that shows a number')
                    return
            continue
        if y1 - y0 > 1e-9:
            if abs(y0) > 1e-9 and abs(y1) > 1e-9:
                rep.violation('figure', case, 'a bar runs from %r to %r, not from zero' % (y0, y1))
                return
            if any(other != matplotlib.colors.to_hex('whitesmoke') and min(x1, bx1) - max(x0, bx0) > 1e-6 for bx0, bx1, _, _, other in spans):
                rep.violation('figure', case, 'two bars overlap at %r' % x0)
                return
            spans.append((x0, x1, y0, y1, col))
            lo, hi = sorted(ax.get_ylim())
            if y0 < lo - 1e-9 or y1 > hi + 1e-9 or not p.get_visible() or p.get_alpha() == 0:
                rep.violation('figure', case, 'a bar from %r to %r is not visible within %r' % (y0, y1, (lo, hi)))
                return
        x = p.get_x() + p.get_width() / 2
        lab = labels[min(range(len(labels)), key=lambda n: abs(n - x))]
        by.setdefault(lab, []).append((x, round(float(p.get_height()), 5), col))
    for lab in want:
        bars = [(h, c) for x, h, c in sorted(by.get(lab, []))if abs(h) > 1e-9]
        exp = [(round(float(want[lab].get(o, 0)), 5), colors[i]) for i, o in enumerate(legend) if abs(want[lab].get(o, 0)) > 1e-9]
        if sorted(bars) != sorted(exp) or not set(want[lab]) <= set(legend):
            rep.violation('figure', case, 'label %s: bars (height, colour) %s expected %s, legend %s' % (lab, bars, exp, legend))
