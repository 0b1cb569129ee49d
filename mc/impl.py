"""Adapter: builds circuits and collections of the package under test from model descriptions (public interface only)."""
import math
import numpy as np
import fock_state_circuit as fsc
from mc import ref
from mc.core import CodeFailure


def circuit(L, N, C=0, left=True, thr=1e-10, full=False, ops=(), name=None):
    kw = {}
    if name is not None:
        kw['circuit_name'] = name
    c = fsc.FockStateCircuit(length_of_fock_state=L, no_of_optical_channels=N, no_of_classical_channels=C,
                             channel_0_left_in_state_name=left, threshold_probability_for_setting_to_zero=thr,
                             use_full_fock_matrix=full, **kw)
    for op in ops:
        add(c, op, L, N)
    return c


def add(c, op, L, N):
    t = op[0]
    if t == 'wp':
        c.wave_plate(op[1], op[2], theta=op[3], phi=op[4])
    elif t == 'hwp':
        c.half_wave_plate(op[1], op[2], angle=op[3])
    elif t == 'qwp':
        c.quarter_wave_plate(op[1], op[2], angle=op[3])
    elif t == 'hwp45':
        c.half_wave_plate_45(op[1], op[2])
    elif t == 'hwp225':
        c.half_wave_plate_225(op[1], op[2])
    elif t == 'qwp45':
        c.quarter_wave_plate_45(op[1], op[2])
    elif t == 'qwp225':
        c.quarter_wave_plate_225(op[1], op[2])
    elif t == 'ps':
        c.phase_shift_single_channel(op[1], op[2])
    elif t == 'swap':
        c.swap(op[1], op[2])
    elif t == 'mix':
        c.mix_50_50(op[1], op[2])
    elif t == 'mixg':
        c.mix_generic_refl_transm(op[1], op[2], reflection=op[3], transmission=op[4] if len(op) > 4 else 1 - op[3])
    elif t == 'pbs':
        c.polarizing_beamsplitter(op[1], op[2])
    elif t == 'npbs50':
        c.non_polarizing_50_50_beamsplitter(op[1], op[2])
    elif t == 'npbs':
        c.non_polarizing_beamsplitter(op[1], op[2], reflection=op[3], transmission=op[4] if len(op) > 4 else 1 - op[3])
    elif t == 'custom':
        c.custom_optical_node(np.array(op[3], dtype=np.cdouble), [op[1], op[2]])
    elif t == 'shift':
        c.shift(list(op[1]), list(op[2]))
    elif t == 'shiftd':
        c.shift_direct(list(op[1]), list(op[2]))
    elif t == 'cshift':
        c.c_shift(list(op[1]), list(op[2]))
    elif t == 'cshiftd':
        c.c_shift_direct(list(op[1]), list(op[2]))
    elif t == 'coup':
        c.channel_coupling(list(op[1]), list(op[2]), op[3])
    elif t == 'fock':
        c.custom_fock_state_node(ref.fock_matrix(op[1], L, N))
    elif t == 'setc':
        c.set_classical_channels(list(op[1]), list(op[2]))
    elif t == 'cfun':
        c.classical_channel_function(ref.CLASSICAL_FUNCS[op[1]], affected_channels=list(op[3]), new_input_values=list(op[2]))
    elif t == 'meas':
        c.measure_optical_to_classical(list(op[1]), list(op[2]))
    elif t == 'psc':
        c.phase_shift_single_channel_classical_control(op[1], op[2])
    elif t == 'wpc':
        c.wave_plate_classical_control(op[1], op[2], op[3], op[4])
    elif t == 'wph':
        c.wave_plate_from_hamiltonian(op[1], op[2], op[3], op[4])
    elif t == 'wphc':
        c.wave_plate_from_hamiltonian_classical_control(op[1], op[2], op[3], op[4])
    elif t == 'gen':
        c.generic_function_on_collection(generic(op[1], L, N), parameters=[])
    else:
        raise Exception('unknown op %r' % (op,))


def generic(name, L, N):
    def f(collection, parameters):
        out = collection.copy()
        if name == 'flip0':
            left = _left(out)
            for s in out:
                s.optical_components = {ref.name_of((L - 1 - ref.values_of(k, L, left)[0],) + ref.values_of(k, L, left)[1:], L, left): v
                                        for k, v in s.optical_components.items()}
        return out
    return f


def _left(coll):
    names = coll.generate_allowed_components_names_as_list_of_strings()
    # second basis state has one photon in channel 0
    n = names[1]
    return int(n[0]) != 0 or (len(n) > 1 and n[-1] == '0')


def set_state(coll, m, L, left=True):
    s = fsc.State(coll)
    s.initial_state = m.init
    s.cumulative_probability = m.cum
    s.optical_components = {ref.name_of(k, L, left): {'amplitude': np.cdouble(a), 'probability': abs(a) ** 2} for k, a in m.c.items()}
    s.classical_channel_values = list(m.cl)
    if m.hist:
        s.measurement_results = [{'measurement_results': list(h[0]), 'probability': h[1]} for h in m.hist]
    return s


def collection(c, coll, L, left=True, ids=None):
    real = fsc.CollectionOfStates(c, dict([]))
    for n, m in enumerate(coll):
        real.add_state(set_state(real, m, L, left), identifier=('id%d' % n) if ids is None else ids[n])
    return real


def read(real, L, left=True):
    """observable content of a collection as a list of MS"""
    return [read_state(s, L, left) for s in real]


def read_state(s, L, left=True):
    comps = {}
    for k, v in s.optical_components.items():
        a, p = complex(v['amplitude']), float(v['probability'])
        if abs(abs(a) ** 2 - p) > 1e-4:
            raise CodeFailure('component %s: probability %r does not belong to amplitude %r' % (k, p, a))
        vals = ref.values_of(k, L, left)
        comps[vals] = a
    hist = []
    for h in s.measurement_results:
        hist.append((tuple(h['measurement_results']), float(h['probability'])))
    return ref.MS(s.initial_state, float(s.cumulative_probability), comps, tuple(s.classical_channel_values), tuple(hist))


def close_vec(a, b, tol):
    for k in a.keys() | b.keys():
        if abs(a.get(k, 0) - b.get(k, 0)) > tol:
            return False
    return True


def _num_close(x, y, tol=1e-6):
    try:
        return abs(x - y) <= tol
    except TypeError:
        return x == y


def same_state(a, b, tol=1e-4):
    if a.init != b.init or abs(a.cum - b.cum) > tol or len(a.cl) != len(b.cl) or len(a.hist) != len(b.hist):
        return False
    if not all(_num_close(x, y) for x, y in zip(a.cl, b.cl)):
        return False
    for h, g in zip(a.hist, b.hist):
        if abs(h[1] - g[1]) > tol or len(h[0]) != len(g[0]) or not all(_num_close(x, y) for x, y in zip(h[0], g[0])):
            return False
    return close_vec(a.c, b.c, tol)


def same_collection(model, real, tol=1e-4):
    """multiset comparison, returns None or a description of the first difference"""
    if len(model) != len(real):
        return 'expected %d states, got %d: expected %s got %s' % (len(model), len(real), [show(m) for m in model][:4], [show(m) for m in real][:4])
    left = list(real)
    for m in model:
        for i, r in enumerate(left):
            if same_state(m, r, tol):
                del left[i]
                break
        else:
            return 'expected state %s not found; unmatched states %s' % (show(m), [show(r) for r in left][:3])
    return None


def show(m):
    return dict(init=m.init, cum=round(m.cum, 5), c={''.join(map(str, k)) if max(k) < 10 else str(k): '%.4f%+.4fj' % (complex(a).real, complex(a).imag) for k, a in m.c.items()},
                cl=list(m.cl), hist=[(list(h[0]), round(h[1], 4)) for h in m.hist])


def evaluate(c, real, **kw):
    out = c.evaluate_circuit(collection_of_states_input=real, **kw)
    if not isinstance(out, fsc.CollectionOfStates):
        raise CodeFailure('evaluate_circuit returned %r' % type(out))
    return out
