"""C25 at run time: amplitudes of the loaded network."""
from .circ import *
from .circ import matrix as gmat
import warnings, json
RULE = 'random circuits of 1..4 qubits and up to 14 gates (1 to 3 qubits, inverse pairs separated by other gates), given as gate lists, cirq circuits, QASM or JSON text and qiskit circuits, all initial/final states (tokens, vectors, open), all loading options; non-trivial: at least two gates'
CONTRACTS = ['circuit.load / app.load_tn: the value of the network at every assignment of its open qubits is the amplitude of the circuit (times one common phase if simplified)', 'circuit.commute, circuit.same: decide commutation and equality up to a phase']
nontrivial = lambda c: len(c['gates']) >= 2
ALL = ['H', 'X', 'Y', 'Z', 'S', 'T', 'I', 'CX', 'CZ', 'SWAP', 'ISWAP', 'CY', 'CCX', 'CSWAP', 'U1', 'U2', 'U3', 'RX', 'RZ', 'D2', 'P2', 'P3']
QK = ['H', 'X', 'Y', 'Z', 'S', 'T', 'CX', 'CZ', 'SWAP', 'CCX', 'RX', 'RZ']
def cases(rng, tier):
    k = 0
    while True:
        k += 1
        form = 'qiskit' if k % 8 == 0 else 'cirq' if k % 8 == 4 else rng.choice(['qasm', 'json']) if k % 16 == 9 else 'gates'
        nq = rng.randint(1, 4); kinds = QK if form in ('qiskit', 'qasm') else ALL
        if form == 'qiskit' and rng.random() < .5: kinds = ['H', 'X', 'T', 'RX', 'CZ', 'SWAP']
        if rng.random() < .3: kinds = [x for x in kinds if x in ('X', 'Z', 'S', 'T', 'CZ', 'CX', 'SWAP', 'D2', 'RZ', 'P2', 'I', 'H')]
        if form == 'gates' and rng.random() < .3: nq, kinds = max(nq, 3), ['P3', 'U3', 'CCX', 'P2', 'H', 'S', 'T']
        gs = random_circuit(rng, nq, rng.randint(1, 14), kinds, reord=.5 if form == 'gates' else 0)
        if form == 'gates' and len(gs) > 1 and rng.random() < .3: gs[-1] = reorder(rng, gs[0][:3] + [rng.random() < .5] + gs[0][4:])
        st = lambda: rng.choice([None, '0', '1', '+', '-', 'dict', 'dict'])
        ini, fin = st(), st()
        mk = lambda s: {str(q): rng.choice(['0', '1', '+', '-', 'v%d' % rng.randrange(99)]) for q in range(nq + 1) if rng.random() < .7} if s == 'dict' else s
        yield dict(form=form, nq=nq, gates=gs, ini=mk(ini), fin=mk(fin), simplify=rng.random() < .5, dec=rng.random() < .6, fuse=rng.choice([None, 0, 1, 2, 4, 6]), comm=rng.random() < .7, dtype=rng.choice([None, None, 'complex64', 'complex128']), app=rng.random() < .4, seed=rng.randrange(1000), names=rng.choice(['int', 'str', 'tuple']))
def shrink(c):
    for i in range(len(c['gates'])):
        if len(c['gates']) > 1: yield dict(c, gates=c['gates'][:i] + c['gates'][i + 1:])
    for k, v in (('ini', '0'), ('fin', None), ('simplify', False), ('dec', False), ('fuse', 0), ('app', False), ('dtype', None)):
        if c[k] != v: yield dict(c, **{k: v})
def vec(s):
    if s is None: return None
    return unitary(2, int(s[1:]))[0] if s[0] == 'v' else np.array(VEC[s], dtype=complex)
def build(c):
    """(object to load, name of each qubit number)"""
    gs, form = c['gates'], c['form']
    if form == 'gates':
        f = {'int': lambda q: q, 'str': lambda q: 'q%d' % q, 'tuple': lambda q: (q, 'x')}[c['names']]
        return [(gmat(g), tuple(f(q) for q in g[1])) for g in gs], f
    if form == 'qiskit':
        import qiskit
        qc = qiskit.QuantumCircuit(c['nq'])
        for k, qs, p, adj, *_ in gs:
            a = [p * (-1 if adj else 1)] if k in ('RX', 'RZ') else []
            getattr(qc, {'S': 'sdg' if adj else 's', 'T': 'tdg' if adj else 't'}.get(k, k.lower()))(*a, *qs)
        return qc, lambda q: qc.qubits[q]
    import cirq
    L = cirq.LineQubit.range(c['nq']) if form != 'qasm' else [cirq.NamedQubit('q%d' % i) for i in range(c['nq'])]
    G = {'H': cirq.H, 'X': cirq.X, 'Y': cirq.Y, 'Z': cirq.Z, 'S': cirq.S, 'T': cirq.T, 'I': cirq.I, 'CX': cirq.CX, 'CZ': cirq.CZ, 'SWAP': cirq.SWAP, 'ISWAP': cirq.ISWAP, 'CCX': cirq.CCX, 'CSWAP': cirq.CSWAP}
    def op(g):
        k, qs, p, adj = g[:4]
        x = G[k] if k in G else cirq.rx(p) if k == 'RX' else cirq.rz(p) if k == 'RZ' else None
        if x is None: return cirq.MatrixGate(gmat(g)).on(*[L[q] for q in qs])
        return (x ** -1 if adj else x).on(*[L[q] for q in qs])
    qc = cirq.Circuit([op(g) for g in gs])
    if form == 'json': return cirq.to_json(qc), lambda q: L[q]
    if form == 'qasm':
        qc = cirq.Circuit(o if len(o.qubits) < 3 else cirq.CCX(*o.qubits) for o in qc.all_operations())
        order = sorted(qc.all_qubits()); txt = qc.to_qasm(qubit_order=order)
        return txt, lambda q: cirq.NamedQubit('q_%d' % order.index(L[q])) if L[q] in order else L[q]
    if c['seed'] % 3 == 0: qc.append(cirq.measure(*sorted(qc.all_qubits()), key='m'))
    return (qc if c['seed'] % 2 else qc.freeze()), lambda q: L[q]
def check(c):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore'); _check(c)
def _check(c):
    from tnco.utils import circuit as C
    from tnco.app import app
    obj, f = build(c); qs = used(c['gates']); form = c['form']
    st = lambda s: [None] * len(qs) if s is None else [vec(s)] * len(qs) if isinstance(s, str) else [vec(s.get(str(q))) for q in qs]
    ini, fin = st(c['ini']), st(c['fin'])
    arg = lambda s: {(f(int(q)) if int(q) < c['nq'] else 'nobody'): (v if v[0] != 'v' else vec(v)) for q, v in s.items()} if isinstance(s, dict) else s
    kw = dict(initial_state=arg(c['ini']), final_state=arg(c['fin']), seed=c['seed'], fuse=c['fuse'], decompose_hyper_inds=c['dec'], dtype=c['dtype'])
    text = form in ('qasm', 'json')
    if c['app'] or text:
        tn = app.load_tn(obj, simplify_circuit=c['simplify'], **kw)
        arrays, ts, out = tn.arrays, tn.ts_inds, tn.output_inds
    else: arrays, ts, out = C.load(obj, simplify=c['simplify'], use_matrix_commutation=c['comm'], **kw)
    mine = [(f(q), 'f') for q, v in zip(qs, fin) if v is None] + [(f(q), 'i') for q, v in zip(qs, ini) if v is None]
    need(isinstance(out, frozenset) and len(arrays) == len(ts), 'result')
    need(out == frozenset(mine), 'output indices %s, expected %s' % (sorted(map(str, out)), sorted(map(str, mine))))
    have = set(x for xs in ts for x in xs); need(set(mine) <= have, 'output index in no tensor: %s' % sorted(map(str, set(mine) - have)))
    for a, xs in zip(arrays, ts): need(np.shape(a) == (2,) * len(xs), 'shape of a tensor')
    got = network_value(arrays, ts, mine)
    tol = 2e-4 if c['dtype'] == 'complex64' or c['app'] or text else 1e-6
    phase = c['simplify'] or form in ('qasm',)
    ref = lambda little: close_states(operator(c['gates'], qs, little=little), qs, ini, fin)
    want = ref(False)
    if form == 'qiskit' and not same_value(got, want, tol, phase) and same_value(got, ref(True), tol, phase):
        need(False, 'qiskit circuit: gates on several qubits are applied with their qubits in reverse order', key='qiskit-endianness')
    need(same_value(got, want, tol, phase), 'amplitudes %s, expected %s' % (np.round(got, 4).ravel()[:8], np.round(want, 4).ravel()[:8]))
    if form == 'gates' and len(obj) >= 2:
        a, b = obj[0], obj[-1]; ga, gb = c['gates'][0], c['gates'][-1]; q2 = used([ga, gb])
        d = np.max(np.abs(operator([ga, gb], q2) - operator([gb, ga], q2)))
        if d < 1e-12 or d > 1e-3: need(bool(C.commute(a, b)) == bool(d < 1e-12), 'commute(%s, %s) is %s' % (ga, gb, C.commute(a, b)))
        if sorted(ga[1]) == sorted(gb[1]):
            ua, ub = operator([ga], q2), operator([gb], q2); w = abs(np.vdot(ua, ub)) / 2 ** len(q2)
            if w > 1 - 1e-12 or w < 1 - 1e-3: need(bool(C.same(a, b)) == (w > 1 - 1e-12), 'same(%s, %s) is %s' % (ga, gb, C.same(a, b)))
        else: need(not C.same(a, b), 'gates on other qubits are called the same')
