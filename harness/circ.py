"""Small circuits and their exact amplitudes."""
from .dense import *
import cmath
SQ = math.sqrt(.5)
FIX = {'H': [[SQ, SQ], [SQ, -SQ]], 'X': [[0, 1], [1, 0]], 'Y': [[0, -1j], [1j, 0]], 'Z': [[1, 0], [0, -1]], 'S': [[1, 0], [0, 1j]], 'T': [[1, 0], [0, cmath.exp(.25j * math.pi)]],
       'CX': [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]], 'CZ': [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, -1]], 'SWAP': [[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]],
       'ISWAP': [[1, 0, 0, 0], [0, 0, 1j, 0], [0, 1j, 0, 0], [0, 0, 0, 1]], 'CY': [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, -1j], [0, 0, 1j, 0]], 'I': [[1, 0], [0, 1]]}
NQ = {k: 1 if len(v) == 2 else 2 for k, v in FIX.items()}
NQ.update(CCX=3, CSWAP=3, U1=1, U2=2, U3=3, RX=1, RZ=1, D2=2, P2=2, P3=3)
def unitary(n, seed):
    r = np.random.RandomState(seed); a = r.normal(size=(n, n)) + 1j * r.normal(size=(n, n)); q, t = np.linalg.qr(a)
    return q * (np.diag(t) / abs(np.diag(t)))
def matrix(g):
    """g = [kind, qubits, parameter, adjoint] or [.., order]: the gate on the qubits in another order (qubits[i] is the order[i]-th of the plain gate)"""
    k, qs, p, adj = g[:4]
    if len(g) > 4:
        n = len(qs); m = matrix(g[:4]).reshape((2,) * (2 * n)); o = list(g[4])
        return m.transpose(o + [n + x for x in o]).reshape(2 ** n, 2 ** n)
    if k in FIX: m = np.array(FIX[k], dtype=complex)
    elif k in ('CCX', 'CSWAP'):
        m = np.eye(8, dtype=complex); i = [6, 7] if k == 'CCX' else [5, 6]; m[i] = m[i[::-1]]
    elif k in ('U1', 'U2', 'U3'): m = unitary(2 ** NQ[k], p)
    elif k == 'RX': m = np.array([[math.cos(p / 2), -1j * math.sin(p / 2)], [-1j * math.sin(p / 2), math.cos(p / 2)]])
    elif k == 'RZ': m = np.diag([cmath.exp(-.5j * p), cmath.exp(.5j * p)])
    elif k == 'D2': m = np.diag(np.exp(1j * np.random.RandomState(p).uniform(0, 6, 4)))
    elif k in ('P2', 'P3'):
        d = 2 ** NQ[k]; r = np.random.RandomState(p); m = np.zeros((d, d), complex); m[r.permutation(d), range(d)] = np.exp(1j * r.uniform(0, 6, d)) if p % 2 else 1
    return m.conj().T if adj else m
def gate(rng, nq, kinds, far=True):
    while True:
        k = rng.choice(kinds)
        if NQ[k] <= nq: break
    p = rng.randrange(1000) if k in ('U1', 'U2', 'U3', 'D2', 'P2', 'P3') else rng.choice([.3, 1.1, 2.5, -.7]) if k in ('RX', 'RZ') else None
    return [k, rng.sample(range(nq), NQ[k]), p, rng.random() < .3]
def reorder(rng, g):
    """the same gate with its qubits listed in another order"""
    o = list(range(len(g[1]))); rng.shuffle(o); old = g[4] if len(g) > 4 else list(range(len(o)))
    return [g[0], [g[1][x] for x in o], g[2], g[3], [old[x] for x in o]]
def random_circuit(rng, nq, n, kinds, cancel=.25, reord=0):
    gs = []
    for _ in range(n):
        if gs and rng.random() < cancel:
            g = rng.choice(gs[-4:]); gs.append([g[0], list(g[1]), g[2], not g[3]] + list(g[4:]))
            if len(g[1]) > 1 and rng.random() < reord: gs[-1] = reorder(rng, gs[-1])
        else: gs.append(gate(rng, nq, kinds))
    return gs
def used(gs):
    r = []
    for g in gs:
        for q in g[1]:
            if q not in r: r.append(q)
    return sorted(r)
def operator(gs, qs, mat=matrix, little=False):
    """tensor with axes: final bit of each qubit of qs, then initial bit of each qubit of qs.  A gate's first qubit is
    the most significant bit of its matrix (the least significant with little=True)."""
    n = len(qs); u = np.eye(2 ** n, dtype=complex).reshape((2,) * (2 * n)); pos = {q: k for k, q in enumerate(qs)}
    for g in gs:
        ax = [pos[q] for q in (g[1][::-1] if little else g[1])]; k = len(ax)
        m = np.asarray(mat(g)).reshape((2,) * (2 * k))
        u = np.tensordot(m, u, axes=(range(k, 2 * k), ax))
        rest = [a for a in range(2 * n) if a not in ax]; order = ax + rest
        u = u.transpose(np.argsort(order))
    return u
VEC = {'0': [1, 0], '1': [0, 1], '+': [SQ, SQ], '-': [SQ, -SQ]}
def close_states(u, qs, ini, fin):
    """contract the initial and final states (None: open); axes left: open final bits, then open initial bits"""
    n = len(qs)
    for k in reversed(range(n)):
        if ini[k] is not None: u = np.tensordot(u, np.asarray(ini[k]), axes=([n + k], [0]))
    for k in reversed(range(n)):
        if fin[k] is not None: u = np.tensordot(u, np.conj(fin[k]), axes=([k], [0]))
    return u
def same_value(a, b, tol, phase=False):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape: return False
    if not phase: return bool(np.allclose(a, b, rtol=0, atol=tol))
    w = np.vdot(b, a)
    if abs(w) < tol * 1e-3: return bool(np.allclose(a, b, rtol=0, atol=tol)) or (np.max(np.abs(a)) < tol and np.max(np.abs(b)) < tol)
    return bool(np.allclose(a, b * (w / abs(w)), rtol=0, atol=tol))
def network_value(arrays, ts, outs):
    from .c17 import uniq
    T, R = uniq([tuple(x) for x in ts], arrays)
    return value(T, R, outs)
