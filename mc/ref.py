"""Reference models, written from the documentation, independent of the code under test.

States of the model are sparse vectors: dict {tuple of photon numbers per channel: complex amplitude}.
"""
import cmath, itertools, math
from functools import lru_cache
import numpy as np

# ---------------------------------------------------------------- optical elements (2x2, creation operators)

def wp(theta, phi):
    e = cmath.exp(1j * phi)
    c, s = math.cos(theta), math.sin(theta)
    return ((c * c + e * s * s, (1 - e) * c * s), ((1 - e) * c * s, s * s + e * c * c))

IDENT = ((1, 0), (0, 1))
SWAP = ((0, 1), (1, 0))
R2 = 1 / math.sqrt(2)
# sign convention of the package: minus sign on reflection from second channel
MIX = ((R2, R2), (R2, -R2))

def mixg(reflection):
    r, t = math.sqrt(reflection), math.sqrt(1 - reflection)
    return ((r, t), (t, -r))

def poly2(M, n, m):
    """amplitudes to (u,v) from (n,m) when creation operators transform a->M00 c + M01 d, b->M10 c + M11 d"""
    return _poly2(tuple(map(tuple, M)), n, m)

@lru_cache(maxsize=None)
def _poly2(M, n, m):
    # coefficients in powers of c: (M00 c + M01 d)^n (M10 c + M11 d)^m, coefficient list index = power of c
    p = np.array([1 + 0j])
    for _ in range(n):
        p = np.convolve(p, np.array([M[0][1], M[0][0]], dtype=complex))
    for _ in range(m):
        p = np.convolve(p, np.array([M[1][1], M[1][0]], dtype=complex))
    res = []
    for u in range(n + m + 1):
        v = n + m - u
        a = p[u] * math.sqrt(math.factorial(u) * math.factorial(v) / (math.factorial(n) * math.factorial(m)))
        if abs(a) > 1e-14:
            res.append((u, v, complex(a)))
    return tuple(res)

def apply2(state, i, j, M, L):
    """two channel element; a pair of channels holding L or more photons is left as it is (documented truncation)"""
    out = {}
    for k, a in state.items():
        n, m = k[i], k[j]
        if n + m >= L:
            out[k] = out.get(k, 0) + a
            continue
        for u, v, c in poly2(M, n, m):
            kk = list(k)
            kk[i], kk[j] = u, v
            kk = tuple(kk)
            out[kk] = out.get(kk, 0) + a * c
    return out

@lru_cache(maxsize=None)
def _sector_exp(L, tot, theta):
    """exp(theta (a+ b - b+ a)) on the states (n, tot-n) with both numbers below L (ladder operators cut off at L-1 photons)"""
    ns = [n for n in range(tot + 1) if n < L and tot - n < L]
    H = np.zeros((len(ns), len(ns)), dtype=complex)
    for i, n in enumerate(ns):
        m = tot - n
        if n + 1 in ns:
            H[ns.index(n + 1), i] += theta * math.sqrt((n + 1) * m)
        if n - 1 in ns:
            H[ns.index(n - 1), i] -= theta * math.sqrt(n * (m + 1))
    w, V = np.linalg.eigh(1j * H)
    return ns, V @ np.diag(np.exp(-1j * w)) @ V.conj().T

def apply_wph(state, i, j, theta, phi, L):
    """wave plate from a Hamiltonian: like wp below the photon limit, cut-off ladder operators above it"""
    out = {}
    for k, a in state.items():
        tot = k[i] + k[j]
        ns, U1 = _sector_exp(L, tot, theta)
        _, U3 = _sector_exp(L, tot, -theta)
        ph = np.array([cmath.exp(1j * phi * (tot - n)) for n in ns])   # exp(-i phi/2 (n-m)) exp(i phi/2 (n+m)) = exp(i phi m)
        vec = U3 @ (ph * U1[:, ns.index(k[i])])
        for n, c in zip(ns, vec):
            if abs(c) > 1e-9:
                kk = list(k)
                kk[i], kk[j] = n, tot - n
                kk = tuple(kk)
                out[kk] = out.get(kk, 0) + a * complex(c)
    return out

def permanent(A):
    n = len(A)
    if n == 0:
        return 1
    tot = 0
    for p in itertools.permutations(range(n)):
        x = 1
        for r in range(n):
            x *= A[r][p[r]]
        tot += x
    return tot

def perm_amplitude(U, inp, out):
    """amplitude inp -> out when creation operators transform a_i -> sum_j U[i][j] a_j (any number of channels)"""
    if sum(inp) != sum(out):
        return 0
    rows = [i for i, n in enumerate(inp) for _ in range(n)]
    cols = [j for j, n in enumerate(out) for _ in range(n)]
    A = [[U[r][c] for c in cols] for r in rows]
    f = 1
    for n in list(inp) + list(out):
        f *= math.factorial(n)
    return permanent(A) / math.sqrt(f)

def embed(M, i, j, N):
    U = np.identity(N, dtype=complex)
    U[i, i], U[i, j], U[j, i], U[j, j] = M[0][0], M[0][1], M[1][0], M[1][1]
    return U

# ---------------------------------------------------------------- names and basis

def name_of(values, L, left=True):
    d = len(str(L - 1))
    v = list(values) if left else list(values)[::-1]
    return ''.join(str(x).zfill(d) for x in v)

def values_of(name, L, left=True):
    d = len(str(L - 1))
    v = [int(name[i:i + d]) for i in range(0, len(name), d)]
    return tuple(v if left else v[::-1])

def all_values(L, N):
    """canonical order: index = sum values[c] * L**c"""
    return [tuple((n // L ** c) % L for c in range(N)) for n in range(L ** N)]

# ---------------------------------------------------------------- model state of a collection

class MS:
    """one weighted state of a collection"""
    __slots__ = ('init', 'cum', 'c', 'cl', 'hist')

    def __init__(self, init, cum, c, cl, hist=()):
        self.init, self.cum, self.c, self.cl, self.hist = init, cum, c, tuple(cl), tuple(hist)

    def copy(self, **kw):
        m = MS(self.init, self.cum, dict(self.c), self.cl, self.hist)
        for k, v in kw.items():
            setattr(m, k, v)
        return m

    def key(self):
        return (self.init, round(self.cum, 6), tuple(sorted((k, round(a.real, 5) + 0.0, round(a.imag, 5) + 0.0) for k, a in
                ((k, complex(a)) for k, a in self.c.items()))), tuple(_r(x) for x in self.cl), tuple((tuple(_r(x) for x in h[0]), round(h[1], 5)) for h in self.hist))

def _r(x):
    try:
        return round(float(x), 5) + 0.0
    except TypeError:
        return repr(x)

def coll_key(coll):
    return tuple(sorted(repr(m.key()) for m in coll))

def prune(c, thr):
    return {k: a for k, a in c.items() if abs(a) ** 2 >= thr}

# ---------------------------------------------------------------- model transitions

def optical_elements(op):
    """list of (i, j, matrix) for an optical op"""
    t = op[0]
    if t == 'wp':
        return [(op[1], op[2], wp(op[3], op[4]))]
    if t == 'hwp':
        return [(op[1], op[2], wp(op[3], math.pi))]
    if t == 'qwp':
        return [(op[1], op[2], wp(op[3], math.pi / 2))]
    if t == 'hwp45':
        return [(op[1], op[2], wp(math.pi / 4, math.pi))]
    if t == 'hwp225':
        return [(op[1], op[2], wp(math.pi / 8, math.pi))]
    if t == 'qwp45':
        return [(op[1], op[2], wp(math.pi / 4, math.pi / 2))]
    if t == 'qwp225':
        return [(op[1], op[2], wp(math.pi / 8, math.pi / 2))]
    if t == 'ps':
        k = op[1]
        other = 0 if k != 0 else 1
        return [(k, other, ((cmath.exp(1j * op[2]), 0), (0, 1)))]
    if t == 'swap':
        return [(op[1], op[2], SWAP)]
    if t == 'mix':
        return [(op[1], op[2], MIX)]
    if t == 'mixg':
        return [(op[1], op[2], mixg(op[3]))]
    if t == 'pbs':
        return [(op[1][1], op[2][1], SWAP)]
    if t == 'npbs50':
        return [(op[1][0], op[2][0], MIX), (op[1][1], op[2][1], MIX)]
    if t == 'npbs':
        return [(op[1][0], op[2][0], mixg(op[3])), (op[1][1], op[2][1], mixg(op[3]))]
    if t == 'custom':
        return [(op[1], op[2], op[3])]
    return None

OPTICAL = {'wp', 'hwp', 'qwp', 'hwp45', 'hwp225', 'qwp45', 'qwp225', 'ps', 'swap', 'mix', 'mixg', 'pbs', 'npbs50', 'npbs', 'custom'}

def is_optical(op):
    return op[0] in OPTICAL

CLASSICAL_FUNCS = {
    'reverse': lambda cur, new, aff: list(cur)[::-1],
    'add': lambda cur, new, aff: [x + (new[aff.index(i)] if i in aff else 0) for i, x in enumerate(cur)],
    'copy01': lambda cur, new, aff: [cur[0]] + [cur[0]] + list(cur[2:]),
    'half_pi': lambda cur, new, aff: [(math.pi / 2) * cur[0] if i == aff[0] else x for i, x in enumerate(cur)],
}

def shift_values(k, targets, vals, L):
    k = list(k)
    for t, s in zip(targets, vals):
        k[t] = (k[t] + s) % L
    return tuple(k)

def cshift_values(k, controls, targets, L):
    k = list(k)
    for c, t in zip(controls, targets):
        k[t] = (k[t] + k[c]) % L
    return tuple(k)

def couple(c, controls, targets, p, L):
    """channel coupling: pair by pair, components with photons in the control are shifted with amplitude sqrt(p), left with sqrt(1-p)"""
    for ct, tg in zip(controls, targets):
        out = {}
        for k, a in c.items():
            if k[ct] == 0:
                out[k] = out.get(k, 0) + a
            else:
                kk = cshift_values(k, (ct,), (tg,), L)
                out[k] = out.get(k, 0) + a * math.sqrt(1 - p)
                out[kk] = out.get(kk, 0) + a * math.sqrt(p)
        c = {k: a for k, a in out.items() if abs(a) > 1e-14}
    return c

def measure(m, oc, cc):
    groups = {}
    for k, a in m.c.items():
        groups.setdefault(tuple(k[o] for o in oc), {})[k] = a
    res = []
    for outcome, comps in groups.items():
        p = sum(abs(a) ** 2 for a in comps.values())
        if p == 0:
            continue
        cl = list(m.cl)
        for ch, v in zip(cc, outcome):
            cl[ch] = v
        res.append(MS(m.init, m.cum * p, {k: a / math.sqrt(p) for k, a in comps.items()}, cl, m.hist + ((tuple(cl), p),)))
    return res

def step(coll, op, L, thr):
    """one node of the circuit on a model collection (list of MS), returns the new collection"""
    t = op[0]
    out = []
    els = optical_elements(op)
    for m in coll:
        if els is not None:
            c = m.c
            for i, j, M in els:
                c = apply2(c, i, j, M, L)
            out.append(m.copy(c=c))
        elif t in ('shift', 'shiftd'):
            out.append(m.copy(c={shift_values(k, op[1], op[2], L): a for k, a in m.c.items()}))
        elif t in ('cshift', 'cshiftd'):
            out.append(m.copy(c={cshift_values(k, op[1], op[2], L): a for k, a in m.c.items()}))
        elif t == 'coup':
            out.append(m.copy(c=couple(m.c, op[1], op[2], op[3], L)))
        elif t == 'fock':   # permutation of photon numbers given as function name
            out.append(m.copy(c=FOCK[op[1]](m.c, L)))
        elif t == 'setc':
            cl = list(m.cl)
            for v, ch in zip(op[1], op[2]):
                cl[ch] = v
            out.append(m.copy(cl=tuple(cl)))
        elif t == 'cfun':
            out.append(m.copy(cl=tuple(CLASSICAL_FUNCS[op[1]](list(m.cl), op[2], op[3]))))
        elif t == 'meas':
            out += measure(m, op[1], op[2])
        elif t == 'psc':
            els2 = optical_elements(('ps', op[1], m.cl[op[2]]))
            c = m.c
            for i, j, M in els2:
                c = apply2(c, i, j, M, L)
            out.append(m.copy(c=prune(c, thr)))
        elif t == 'wpc':
            c = apply2(m.c, op[1], op[2], wp(m.cl[op[3]], m.cl[op[4]]), L)
            out.append(m.copy(c=prune(c, thr)))
        elif t == 'wphc':
            out.append(m.copy(c=apply_wph(m.c, op[1], op[2], m.cl[op[3]], m.cl[op[4]], L)))
        elif t == 'wph':
            out.append(m.copy(c=apply_wph(m.c, op[1], op[2], op[3], op[4], L)))
        elif t == 'gen':
            out.append(GENERIC[op[1]](m, L))
        else:
            raise Exception('unknown op %r' % (op,))
    return out

def run_model(coll, ops, L, thr):
    for n, op in enumerate(ops):
        coll = step(coll, op, L, thr)
        if is_optical(op) and (n == len(ops) - 1 or not is_optical(ops[n + 1])):
            coll = [m.copy(c=prune(m.c, thr)) for m in coll]
    return coll

# whole-basis matrices used for custom_fock_state_node: name -> action on a sparse vector
def _f_rev(c, L):
    return {tuple(reversed(k)): a for k, a in c.items()}

def _f_phase(c, L):
    return {k: a * cmath.exp(1j * 0.3 * sum((i + 1) * n for i, n in enumerate(k))) for k, a in c.items()}

def _f_had(c, L):
    # Fourier transform on photon number of channel 0
    out = {}
    for k, a in c.items():
        for u in range(L):
            kk = (u,) + k[1:]
            out[kk] = out.get(kk, 0) + a * cmath.exp(2j * math.pi * u * k[0] / L) / math.sqrt(L)
    return {k: a for k, a in out.items() if abs(a) > 1e-12}

FOCK = {'rev': _f_rev, 'phase': _f_phase, 'four': _f_had}

def fock_matrix(name, L, N):
    vals = all_values(L, N)
    idx = {v: i for i, v in enumerate(vals)}
    M = np.zeros((len(vals), len(vals)), dtype=complex)
    for v in vals:
        for k, a in FOCK[name]({v: 1.0 + 0j}, L).items():
            M[idx[k], idx[v]] += a
    return M

GENERIC = {
    'identity': lambda m, L: m,
    'flip0': lambda m, L: m.copy(c={((L - 1 - k[0]),) + k[1:]: a for k, a in m.c.items()}),
}
