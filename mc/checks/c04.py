"""C04: unitarity, photon number conservation, full matrix = reduced matrix, on the whole space of the circuit."""
import itertools, math
import numpy as np
from mc import ref, impl
from mc.common import *

LEVEL = 'model_checking'
RULE = ('state = (circuit size, program of optical elements, matrix mode); the complete action on all basis states is read off by evaluating every basis state; '
        'orthonormality of all images, photon number of every image and of spectator channels, equality of both matrix modes and of the transition matrix are checked')
ASSUMPTIONS = ['inner products are compared within 1e-4 (single precision matrices in the code)']


def alphabet(N, rich):
    res = []
    for a, b in ordered_pairs(N):
        res += [('wp', a, b, 0.4, 1.1), ('mix', a, b)]
        if rich:
            res += [('mixg', a, b, 0.3), ('custom', a, b, ((0.6, 0.8j), (0.8j, 0.6))), ('custom', a, b, ((0.6, -0.8), (0.8, 0.6))), ('hwp', a, b, 0.7),
                    ('qwp', a, b, -0.35), ('swap', a, b), ('hwp225', a, b), ('qwp45', a, b), ('wp', a, b, -1.2, math.pi / 3)]
    res += [('ps', a, 0.9 + a) for a in range(N)]
    if N >= 4:
        for q in itertools.permutations(range(N), 4):
            if rich or q[0] < q[1]:
                res += [('npbs50', q[:2], q[2:])] + ([('pbs', q[:2], q[2:]), ('npbs', q[:2], q[2:], 0.3)] if rich else [])
    return res


def shards(tier):
    conf = [(2, 2, 3, True), (3, 2, 2, True), (4, 2, 2, True), (5, 2, 2, False), (8, 2, 1, True), (2, 3, 2, True), (3, 3, 2, False), (4, 3, 1, True), (2, 4, 2, False), (3, 4, 1, True), (2, 5, 1, True), (11, 2, 1, False)]
    if tier != 'quick':
        conf += [(3, 2, 3, True), (4, 2, 3, False), (6, 2, 2, True), (9, 2, 1, True), (3, 3, 2, True), (5, 3, 1, True), (4, 3, 2, False), (3, 4, 2, False), (4, 4, 1, False), (3, 5, 1, False), (2, 6, 1, True)]
    items = []
    for L, N, d, rich in conf:
        al = alphabet(N, rich)
        for left in (True, False):
            if left and d > 1 or tier != 'quick' and d > 1:
                items += [(L, N, d, rich, left, (op,)) for op in al]
            else:
                items += [(L, N, 1, rich, left, tuple(al[i::4])) for i in range(4)]
    items.sort(key=lambda i: -(i[0] ** i[1]) * len(alphabet(i[1], i[3])) ** (i[2] - 1) * len(i[5]))
    return items


def action(c, coll, L, N, left, pos):
    real = impl.collection(c, coll, L, left)
    out = impl.evaluate(c, real)
    M = np.zeros((len(pos), len(pos)), dtype=complex)
    seen = set()
    for m in impl.read(out, L, left):
        i = int(m.init)
        if i in seen or abs(m.cum - 1) > 1e-9:
            raise impl.CodeFailure('input state %d appears twice or with another weight' % i)
        seen.add(i)
        for k, a in m.c.items():
            M[pos[k], i] = a
    if len(seen) != len(pos):
        raise impl.CodeFailure('input states are missing in the output')
    return M


def run(item, rep):
    L, N, depth, rich, left, firsts = item
    al = alphabet(N, rich)
    vals = ref.all_values(L, N)
    pos = {v: i for i, v in enumerate(vals)}
    photons = np.array([sum(v) for v in vals])
    coll = [ref.MS(str(i), 1.0, {v: 1.0 + 0j}, ()) for i, v in enumerate(vals)]
    big = L ** N > 100
    for first in firsts:
        for rest in itertools.product(al, repeat=depth - 1):
            ops = (first,) + rest
            case = dict(L=L, N=N, channel_0_left=left, ops=ops)
            mats = []
            for full in ((False,) if big else (False, True)):
                rep.state((L, N, left, ops, full))
                rep.step(len(ops) * len(coll))
                with rep.guard('unitary', case):
                    c = impl.circuit(L, N, 0, left, THR, full, ops)
                    M = action(c, coll, L, N, left, pos)
                    err = np.abs(M.conj().T @ M - np.identity(len(vals))).max()
                    if err > 1e-4:
                        i, j = np.unravel_index(np.abs(M.conj().T @ M - np.identity(len(vals))).argmax(), M.shape)
                        rep.violation('unitary', dict(case, full_matrix=full), 'images of basis states %s and %s are not orthonormal (error %g)' % (vals[i], vals[j], err))
                    bad = (np.abs(M) > 1e-4) & (photons[:, None] != photons[None, :])
                    if bad.any():
                        j, i = np.argwhere(bad)[0]
                        rep.violation('photon-number', dict(case, full_matrix=full), 'input %s contributes to output %s' % (vals[i], vals[j]))
                    touched = set()
                    for o in ops:
                        for a, b, _ in ref.optical_elements(o):
                            touched |= {a} if o[0] == 'ps' else {a, b}
                    for ch in set(range(N)) - touched:
                        p = np.array([v[ch] for v in vals])
                        if ((np.abs(M) > 1e-4) & (p[:, None] != p[None, :])).any():
                            rep.violation('spectator', dict(case, full_matrix=full), 'channel %d changed although no element acts on it' % ch)
                    mats.append(M)
                    rep.trace(dict(case, full_matrix=full))
            with rep.guard('modes', case):
                if len(mats) == 2 and np.abs(mats[0] - mats[1]).max() > 1e-4:
                    rep.violation('modes', case, 'full and reduced Fock matrix give different results')
                if mats:
                    R = c.get_fock_state_matrix()
                    if R.shape != mats[0].shape or np.abs(R - mats[0]).max() > 1e-4:
                        rep.violation('matrix', case, 'get_fock_state_matrix() differs from the evaluation of the basis states')
                    rep.step()
            # a superposition of everything keeps its norm (mixed photon numbers take another path than basis states)
            with rep.guard('norm', case):
                g = generic_vector(vals, 3)
                rep.step(len(ops))
                out = impl.read(impl.evaluate(c, impl.collection(c, [ref.MS('g', 0.5, g, ())], L, left)), L, left)
                n = sum(abs(a) ** 2 for a in out[0].c.values())
                if len(out) != 1 or abs(n - 1) > 1e-4 or abs(out[0].cum - 0.5) > 1e-9:
                    rep.violation('norm', case, 'norm of a superposition changed to %g' % n)
                if mats:
                    vec = np.array([g[v] for v in vals])
                    w = mats[0] @ vec
                    if any(abs(out[0].c.get(v, 0) - w[i]) > 1e-4 for i, v in enumerate(vals)):
                        rep.violation('linear', case, 'image of a superposition is not the superposition of the images')
                rep.trace()
            if rep.nviol > 50:
                return
