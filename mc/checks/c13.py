"""C13: density matrices are the weighted sums of projectors, clean_up merges and removes without changing them."""
import itertools
import fock_state_circuit as fsc
from mc import ref, impl
from mc.common import *

LEVEL = 'model_checking'
RULE = ('state = collection of up to three (four in thorough) weighted states over a menu of optical states, weights, labels, classical values and histories; every collection of the bound is built, '
        'its density matrices are compared with the weighted sum of projectors, and clean_up (per label in every order, or all at once, and repeated) is compared with a model that groups equal states; '
        'further every program of one or two nodes is evaluated and density matrices before and after are compared with U rho U+ (dephasing for measurements)')
ASSUMPTIONS = ['menu states are either equal or differ by more than the threshold', 'element i,j of the density matrix is conj(v_i) v_j, the convention of State.outer',
               'clean_up discards other parameters than label and optical components of merged states, as documented']

R = 2 ** -0.5


def menu(L, N, thr):
    """normalised optical states: basis, superpositions, phases, states with components below the threshold"""
    e = lambda *k: tuple(k) + (0,) * (N - len(k))
    t = (thr / 4) ** 0.5
    u = (thr * 1.5) ** 0.5
    return [{e(1, 0): 1.0 + 0j}, {e(1, 0): 1j}, {e(1, 0): R + 0j, e(0, 1): R + 0j}, {e(1, 0): R + 0j, e(0, 1): -R + 0j}, {e(1, 0): R + 0j, e(0, 1): 1j * R},
            {e(0, 1): R + 0j, e(1, 0): R + 0j}, {e(1, 0): (1 - t * t) ** 0.5 + 0j, e(1, 1): t + 0j}, {e(1, 0): 0.6 + 0j, e(0, 1): 0.8 * (1 - t * t) ** .5 + 0j, e(0, 0): 0.8j * t},
            {e(1, 0): 0.6 + 0j, e(0, 1): 0.48 + 0j, e(1, 1): 0.64j}, {e(0, 0): 1.0 + 0j}, {e(1, 0): (1 - u * u) ** 0.5 + 0j, e(1, 1): 1j * u}, {e(0, 1): 1.0 + 0j},
            # the complex conjugate of an earlier one; not normalised
            {e(1, 0): R + 0j, e(0, 1): -1j * R}, {e(1, 0): 0.6j, e(0, 1): 0.6 + 0j}]


WEIGHTS = [0.5, 0.25, None]     # None: one third of the threshold
LABELS = ['a', 'b', '10']
CLASS = [(0, 0), (1, 0)]


def rho_model(coll, label, L, N):
    vals = ref.all_values(L, N)
    ix = {v: i for i, v in enumerate(vals)}
    R_ = np.zeros((len(vals), len(vals)), dtype=complex)
    for m in coll:
        if m.init == label:
            v = np.zeros(len(vals), dtype=complex)
            for k, a in m.c.items():
                v[ix[k]] = a
            R_ += m.cum * np.outer(v.conj(), v)
    return R_


def order(x, L, N, left):
    """position of the canonical basis in the basis of the collection"""
    s = x[0] if len(x) else fsc.State(x)
    _, basis = s.translate_state_components_to_vector()
    ix = {n: i for i, n in enumerate(basis)}
    return [ix[ref.name_of(v, L, left)] for v in ref.all_values(L, N)]


def check_density(rep, key, case, x, model, L, N, left, tol=1e-7):
    labels = sorted(set(m.init for m in model))
    if len(model) == 0:
        if x.density_matrix() != {}:
            rep.violation(key, case, 'empty collection has density matrices')
        return
    perm = order(x, L, N, left)
    allr = x.density_matrix()
    if sorted(allr) != labels:
        rep.violation(key, case, 'density matrices for labels %r, expected %r' % (sorted(allr), labels))
        return
    for lab in labels:
        want = rho_model(model, lab, L, N)
        tr, pur = np.trace(want).real, np.trace(want @ want).real
        for dec, res in [(2, allr[lab])] + [(d, x.density_matrix(lab, decimal_places_for_trace=d)[lab]) for d in (0, 1, 5)]:
            got = np.array(res['density_matrix'])
            got = got[np.ix_(perm, perm)]
            if got.shape != want.shape or np.abs(got - want).max() > tol:
                rep.violation(key, case, 'density matrix of label %r is %s, expected %s' % (lab, np.round(got, 4).tolist(), np.round(want, 4).tolist()))
                return
            if abs(res['trace'] - tr) > 0.5 * 10 ** -dec + 4 * tol + 1e-6 or abs(res['trace_dm_squared'] - pur) > 0.5 * 10 ** -dec + 4 * tol + 1e-6:
                rep.violation(key, case, 'traces %r %r of label %r with %d decimals, expected %r %r' % (res['trace'], res['trace_dm_squared'], lab, dec, tr, pur))
                return
    only = x.density_matrix(labels[0])
    if list(only) != [labels[0]]:
        rep.violation(key, case, 'density_matrix of one label returns %r' % list(only))


def model_clean(coll, thr, label=None):
    """(state, classical values and histories that may survive) after clean_up; groups keep the place of their first member"""
    groups, out = [], []
    for m in coll:
        if label is not None and m.init != label:
            g = dict(init=m.init, c=m.c, cum=m.cum, members=[m], fixed=True)
            groups.append(g)
            continue
        c = {k: a for k, a in m.c.items() if abs(a) ** 2 >= thr}
        n = sum(abs(a) ** 2 for a in c.values()) ** 0.5
        c = {k: a / n for k, a in c.items()}
        for g in groups:
            if not g.get('fixed') and g['init'] == m.init and impl.close_vec(g['c'], c, max(1e-6, thr)):
                g['cum'] += m.cum
                g['members'].append(m)
                break
        else:
            groups.append(dict(init=m.init, c=c, cum=m.cum, members=[m]))
    return [g for g in groups if g.get('fixed') or g['cum'] >= thr]


def as_coll(groups):
    return [ref.MS(g['init'], g['cum'], g['c'], g['members'][0].cl, g['members'][0].hist) for g in groups]


def check_clean(rep, key, case, x, groups, L, left, thr):
    # a state whose norm is within the threshold of one is not rescaled
    tol = max(1e-6, thr)
    got = impl.read(x, L, left)
    if len(got) != len(groups):
        rep.violation(key, case, '%d states left, expected %d: %s' % (len(got), len(groups), [impl.show(g) for g in got]))
        return
    rest = list(groups)
    for r in got:
        for g in rest:
            if r.init == g['init'] and abs(r.cum - g['cum']) < 1e-9 and impl.close_vec(r.c, g['c'], tol) and \
                    any(r.cl == m.cl and len(r.hist) == len(m.hist) and all(a[0] == b[0] and abs(a[1] - b[1]) < 1e-9 for a, b in zip(r.hist, m.hist)) for m in g['members']):
                rest.remove(g)
                break
        else:
            rep.violation(key, case, 'unexpected state %s, expected one of %s' % (impl.show(r), [impl.show(m) for m in as_coll(rest)]))
            return


CONF = [(2, 2, True), (2, 2, False), (2, 3, True)]


def shards(tier):
    items = []
    for ci, conf in enumerate(CONF):
        for ti, thr in enumerate((1e-10, 1e-4, 0.02)):
            for o in range(14):
                items.append(('pair', ci, thr, o, tier))
            for o in range(12):
                items.append(('triple', ci, thr, o, tier))
            if tier != 'quick' and ti == 1:
                items += [('quad', ci, thr, o, tier) for o in range(12)]
    items += [('many', ci, k, tier) for ci in range(len(CONF)) for k in range(12)]
    items += [('prog', ci, a, tier) for ci in range(len(CONF)) for a in range(8)]
    return items


def make(L, N, left, thr, coll):
    c = impl.circuit(L, N, 2, left, thr)
    return c, impl.collection(c, coll, L, left)


def one(rep, conf, thr, coll):
    L, N, left = conf
    case = dict(L=L, N=N, channel_0_left=left, threshold=thr, collection=[impl.show(m) for m in coll])
    rep.state((conf, thr, tuple(repr(m.key()) for m in coll)))
    labels = sorted(set(m.init for m in coll))
    with rep.guard('density', case):
        c, x = make(L, N, left, thr, coll)
        check_density(rep, 'density', case, x, coll, L, N, left)
        rep.step(len(coll))
    with rep.guard('clean_up', case):
        base = x
        want = model_clean(coll, thr)
        for seq in [(None,)] + ([tuple(p) for p in itertools.permutations(labels)] if len(labels) > 1 else [(labels[0],)]):
            y = base.copy()
            groups, cur = None, coll
            for s in seq:
                y.clean_up() if s is None else y.clean_up(s)
                groups = model_clean(cur, thr, s)
                check_clean(rep, 'clean_up', dict(case, clean_up=seq), y, groups, L, left, thr)
                cur = as_coll(groups)
                # other members of a group may have lent their values: continue from what is there
                cur = impl.read(y, L, left)
                rep.step()
            check_density(rep, 'clean_up', dict(case, clean_up=seq), y, as_coll(want), L, N, left, max(1e-6, 2 * thr))
            y.clean_up()
            check_clean(rep, 'clean_up', dict(case, clean_up=seq + (None,)), y, model_clean(cur, thr), L, left, thr)
        if impl.same_collection(coll, impl.read(base, L, left)):
            rep.violation('clean_up', case, 'cleaning up a copy changed the collection')
    rep.trace(case)


def many(conf, k, rep):
    """many different states between two equal ones: for every distance the pair is found and nothing else is merged"""
    L, N, left = 4, conf[1], conf[2]
    thr = 1e-10
    vals = ref.all_values(L, N)[:30]
    n = len(vals)
    for stride in (1, 3, 7, n - 1):
        # the first run of states in one order, the second in another, so that equal states are at all distances
        first = [vals[i] for i in range(n)]
        second = [vals[(i * stride + k) % n] for i in range(n)] if math.gcd(stride, n) == 1 else [vals[(i + k) % n] for i in range(n)]
        coll = []
        for j, v in enumerate(first + second):
            sup = vals.index(v) % 3 == 1
            c = {v: 0.6 + 0j, vals[(vals.index(v) + 1) % n]: 0.8j} if sup else {v: 1.0 + 0j}
            coll.append(ref.MS('a' if k % 2 or vals.index(v) % 5 else 'b', 2.0 ** -(6 + j % 3), c, CLASS[j % 2]))
        case = dict(L=L, N=N, channel_0_left=left, threshold=thr, stride=stride, k=k)
        rep.state((L, N, left, 'many', stride, k))
        rep.step(len(coll))
        with rep.guard('clean_up', case):
            c, x = make(L, N, left, thr, coll)
            x.clean_up()
            check_clean(rep, 'clean_up', case, x, model_clean(coll, thr), L, left, thr)
            check_density(rep, 'clean_up', case, x, coll, L, N, left, 1e-6)
            rep.trace(case)


PROGS = [('mix', 0, 1), ('qwp', 1, 0, 0.4), ('wp', 0, 1, 0.3, 1.1), ('ps', 1, 0.7), ('shift', (0,), (1,)), ('cshift', (0,), (1,)), ('meas', (0,), (1,)), ('meas', (1, 0), (0, 1))]


def run(item, rep):
    kind = item[0]
    conf = CONF[item[1]]
    L, N, left = conf
    if kind == 'prog':
        thr = 1e-10
        M = [m for m in menu(L, N, 1e-4)][:12]
        for b in range(len(PROGS) + 1):
            ops = [PROGS[item[2]]] + ([PROGS[b]] if b < len(PROGS) else [])
            for i, j in itertools.product(range(len(M)), repeat=2):
                coll = [ref.MS('a', 0.5, M[i], (0, 0)), ref.MS('b' if (i + j) % 2 else 'a', 0.25, M[j], (1, 0))]
                case = dict(L=L, N=N, channel_0_left=left, program=ops, collection=[impl.show(m) for m in coll])
                model = ref.run_model(coll, ops, L, thr)
                rep.state((conf, tuple(map(repr, ops)), i, j))
                with rep.guard('evaluated', case):
                    c = impl.circuit(L, N, 2, left, thr, False, ops)
                    out = impl.evaluate(c, impl.collection(c, coll, L, left))
                    check_density(rep, 'evaluated', case, out, model, L, N, left, 1e-5)
                    out.clean_up()
                    check_density(rep, 'evaluated', case, out, model, L, N, left, 1e-4)
                    rep.step(2)
                    rep.trace(case)
        return
    if kind == 'many':
        return many(conf, item[2], rep)
    thr, o, tier = item[2], item[3], item[4]
    M = menu(L, N, thr)
    W = [w if w is not None else thr / 3 for w in WEIGHTS]
    H = [(), (((0, 1), 0.5),)]
    mk = lambda o, w, l, n: ref.MS(LABELS[l], W[w], M[o], CLASS[n % 2], H[(n + o) % 2])
    if kind == 'pair':
        for w, o2, w2, l, l2 in itertools.product(range(3), range(14), range(3), range(2), range(3)):
            one(rep, conf, thr, [mk(o, w, l, 0), mk(o2, w2, l2, 1)])
        for w, l in itertools.product(range(3), range(3)):
            one(rep, conf, thr, [mk(o, w, l, 0)])
    else:
        n = 3 if kind == 'triple' else 4
        # labels and weights of further states cycle through the menus with the optical states
        opts = range(12) if tier != 'quick' or item[1] != 2 else range(8)
        for rest in itertools.product(opts, repeat=n - 1):
            s = (o,) + rest
            for v in (range(6) if tier != 'quick' and kind == 'triple' else range(1 if kind == 'quad' else 2)):
                coll = [mk(s[k], (v + 2 * (k == 1) + sum(s)) % 3 if (v + k) % 2 else 0, 0 if (sum(s) // (k + 1) + v) % 3 else 1, k) for k in range(n)]
                one(rep, conf, thr, coll)
                if rep.nviol > 50:
                    return
