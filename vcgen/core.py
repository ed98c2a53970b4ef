"""Core of the verification-condition generator: paths, hypotheses, obligations, discharge.

A function is executed symbolically along every path ("decision replay": each path re-executes the
function with a prefix of forced branch decisions, so the interpreters stay straight-line code).
Loops are cut by invariants, so the number of paths is finite and no bound is involved.

Universally quantified facts are kept as FA objects.  In a goal they are skolemised; as hypotheses they
are instantiated at the index terms that occur in the obligation (rounds of term collection).  Dropping
instances only weakens the hypotheses, hence `unsat` remains a proof; `sat` then means "not proved by the
instances", and is reported as such (never as proved).
"""
import itertools, time, os, subprocess, tempfile
import z3

class PathEnd(Exception):
    pass

class OutOfFragment(Exception):
    """The source uses something the generator does not model: nothing is concluded."""

_VARS = itertools.count()
def frozen(body, sorts):
    xs = [z3.Const('bound!%d' % next(_VARS), s) for s in sorts]
    r = body(*xs)
    def inst(r, ys):
        if isinstance(r, (list, tuple)): return type(r)(inst(x, ys) for x in r)
        if isinstance(r, FA): return FA(r.name, r.sorts, lambda *zs: inst(r.body(*zs), ys))
        if z3.is_expr(r): return z3.substitute(r, *zip(xs, ys))
        return r
    return lambda *ys: inst(r, ys)

class FA:
    """forall x1..xn (of the given z3 sorts). body(x1..xn).

    where: optional filter name of the terms at which it is instantiated ('idx' default: every Int term
    that is used as an index; 'elem'...).  For sorts other than Int, every ground term of that sort
    (that is not a bound or an ite) is used."""
    def __init__(self, name, sorts, body, key=None):
        self.name = name
        self.sorts = sorts if isinstance(sorts, (list, tuple)) else [sorts]
        self.key = key
        # the body is built at once (a closure over a cell that changes later would state something else)
        self.body = frozen(body, self.sorts)
    def at(self, *xs):
        return self.body(*xs)

class EX:
    """exists x. body(x), only with a list of witnesses to try when it is a goal."""
    def __init__(self, name, sort, body, witnesses=()):
        self.name, self.sort, self.body, self.witnesses = name, sort, frozen(body, [sort]), list(witnesses)

class Obligation:
    __slots__ = ('name', 'func', 'hyps', 'goal', 'kind', 'status', 'time', 'backend', 'model', 'note', 'loc', 'path', 'smt', 'extra_terms')
    def __init__(self, name, func, hyps, goal, kind, loc=None, path=(), extra_terms=()):
        self.name, self.func, self.hyps, self.goal, self.kind = name, func, hyps, goal, kind
        self.loc, self.path = loc, path
        self.status, self.time, self.backend, self.model, self.note, self.smt = None, 0.0, None, None, '', None
        self.extra_terms = extra_terms

def is_lit_true(e):
    return z3.is_true(e)

class Ctx:
    """One path."""
    def __init__(self, eng, prefix):
        self.eng = eng
        self.prefix = prefix
        self.taken = []
        self.hyps = []
        self.counter = itertools.count()
        self.terms = []          # extra instantiation terms
        self.func = eng.func
        self.notes = []
    # -- names
    def fresh(self, name, sort):
        return z3.Const('%s!%d' % (name, next(self.counter)), sort)
    def fresh_int(self, name): return self.fresh(name, z3.IntSort())
    def fresh_real(self, name): return self.fresh(name, z3.RealSort())
    def fresh_bool(self, name): return self.fresh(name, z3.BoolSort())
    # -- facts
    def assume(self, h):
        if isinstance(h, (list, tuple)):
            for x in h: self.assume(x)
            return
        if isinstance(h, EX):
            w = self.fresh(h.name, h.sort)
            self.terms.append(w)
            return self.assume(h.body(w))
        if isinstance(h, bool): h = z3.BoolVal(h)
        if not isinstance(h, FA) and z3.is_true(h): return
        self.hyps.append(h)
    def live(self):
        return len(self.taken) >= len(self.prefix)
    def oblige(self, name, goal, kind='assert', loc=None):
        if isinstance(goal, (list, tuple)):
            for k, g in enumerate(goal):
                if isinstance(g, tuple): self.oblige('%s: %s' % (name, g[0]), g[1], kind, loc)
                else: self.oblige('%s #%d' % (name, k), g, kind, loc)
            return
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        if self.live():
            self.eng.obligations.append(Obligation(name, self.func, list(self.hyps), goal, kind, loc, tuple(self.taken), list(self.terms)))
        # once obliged, the fact may be used (the obligation fails separately otherwise)
        if kind != 'post' and kind != 'cover':
            self.assume(goal)
    def lemma(self, name, body, args):
        """A tautology: proved for fresh constants with no hypothesis at all, then used at args."""
        xs = [z3.Const('%s_%d' % (name.replace(' ', '_'), k), a.sort()) for k, a in enumerate(args)]
        if self.live() and not any(o.name == 'lemma: ' + name for o in self.eng.obligations):
            self.eng.obligations.append(Obligation('lemma: ' + name, self.func, [], body(*xs), 'lemma', None, tuple(self.taken), []))
        self.assume(body(*args))
    def cover(self, name):
        """The current point must be reachable (vacuity guard)."""
        if self.live():
            self.eng.covers.append(Obligation(name, self.func, list(self.hyps), z3.BoolVal(False), 'cover', None, tuple(self.taken), list(self.terms)))
    # -- branching
    def decide(self, cond):
        if isinstance(cond, bool): return cond
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        k = len(self.taken)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            t = self.feasible(cond); f = self.feasible(z3.Not(cond))
            if t and f:
                self.eng.work.append(self.taken + [False]); v = True
            elif t: v = True
            elif f: v = False
            else: raise PathEnd()
        self.taken.append(v)
        self.assume(cond if v else z3.Not(cond))
        return v
    def choose(self, n, what=''):
        """Non-deterministic choice among n alternatives (all explored)."""
        for i in range(n - 1):
            k = len(self.taken)
            if k < len(self.prefix): v = self.prefix[k]
            else:
                self.eng.work.append(self.taken + [False]); v = True
            self.taken.append(v)
            if v: return i
        return n - 1
    def feasible(self, extra):
        s = z3.Solver(); s.set('timeout', 1000)
        for h in self.hyps:
            if not isinstance(h, FA): s.add(h)
        s.add(extra)
        return s.check() != z3.unsat

class Engine:
    MAX_PATHS = 4000
    def __init__(self, func):
        self.func = func
        self.obligations, self.covers, self.work = [], [], []
        self.paths = 0
        self.returned = 0
    def run(self, body):
        """body(ctx): executes one path, raising PathEnd or returning."""
        self.work = [[]]
        while self.work:
            prefix = self.work.pop()
            self.paths += 1
            if self.paths > self.MAX_PATHS: raise OutOfFragment('too many paths in ' + self.func)
            ctx = Ctx(self, prefix)
            try:
                body(ctx)
                self.returned += 1
            except PathEnd:
                pass
        return self

# ---------------------------------------------------------------- instantiation
INT = z3.IntSort()

_IT = {}     # expression id -> (expression, [(sort name, term)])
def _terms_of(e):
    """(sort, term) of one assertion: Int terms used as array indices or as arguments of uninterpreted functions;
    array terms of the other sorts."""
    c = _IT.get(e.get_id())
    if c is not None: return c[1]
    out, seen = [], set()
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if not z3.is_app(x): continue
        ch = x.children()
        k = x.decl().kind()
        if k in (z3.Z3_OP_SELECT, z3.Z3_OP_STORE): out.append((str(ch[1].sort()), ch[1]))
        elif k == z3.Z3_OP_UNINTERPRETED: out += [(str(y.sort()), y) for y in ch]
        if k in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT, z3.Z3_OP_ARRAY_MAP, z3.Z3_OP_STORE, z3.Z3_OP_CONST_ARRAY, z3.Z3_OP_SET_UNION):
            sn = str(x.sort())
            if sn != 'Int': out.append((sn, x))
        stack.extend(ch)
    _IT[e.get_id()] = (e, out)
    return out

def index_terms(es, sorts):
    res = {str(s): {} for s in sorts}
    for e in es:
        for s, t in _terms_of(e):
            if s in res: res[s][t.get_id()] = t
    return {s: list(d.values()) for s, d in res.items()}

def flatten_goal(goal, fresh):
    """Skolemise; returns list of (suffix, qf goal)."""
    if isinstance(goal, FA):
        xs = [fresh('sk_%s' % goal.name, s) for s in goal.sorts]
        inner = goal.body(*xs)
        return [(sfx, g) for sfx, g in flatten_goal(inner, fresh)]
    if isinstance(goal, (list, tuple)):
        out = []
        for g in goal: out += flatten_goal(g, fresh)
        return out
    if isinstance(goal, bool): goal = z3.BoolVal(goal)
    return [('', goal)]

_INST = {}   # (FA, term ids) -> (FA, terms, instances)
def instance(f, combo):
    key = (id(f),) + tuple(c.get_id() for c in combo)
    c = _INST.get(key)
    if c is not None: return c[2]
    out = []
    if not (f.key and not f.key(*combo)):
        stack = [f.body(*combo)]
        while stack:
            x = stack.pop()
            if isinstance(x, (list, tuple)): stack.extend(x)
            elif isinstance(x, FA): raise OutOfFragment('nested FA in hypothesis')
            elif isinstance(x, bool): out.append(z3.BoolVal(x))
            else: out.append(x)
    _INST[key] = (f, combo, out)
    return out

def reset_caches():
    _IT.clear(); _INST.clear()

def ground(hyps, goals_neg, extra_terms, rounds=2, cap=6000):
    """rounds=0: only at the terms of the goal."""
    qf = [h for h in hyps if not isinstance(h, FA)]
    fas = [h for h in hyps if isinstance(h, FA)]
    base = qf + list(goals_neg)
    if not fas: return base
    sorts = []
    for f in fas:
        for s in f.sorts:
            if str(s) not in [str(x) for x in sorts]: sorts.append(s)
    done = set(); insts = []
    n = 0
    for r in range(max(rounds, 1)):
        T = index_terms(list(goals_neg) if rounds == 0 else base + insts, sorts)
        for t in extra_terms if rounds else ():
            if str(t.sort()) in T and all(t.get_id() != u.get_id() for u in T[str(t.sort())]): T[str(t.sort())].append(t)
        new = []
        for fi, f in enumerate(fas):
            if rounds == 0 and len(f.sorts) > 1: continue
            for combo in itertools.product(*[T[str(s)] for s in f.sorts]):
                key = (fi,) + tuple(c.get_id() for c in combo)
                if key in done: continue
                done.add(key)
                new += instance(f, combo)
                n += 1
                if n > cap: return base + insts + new
        if not new: break
        insts += new
    return base + insts

def check_unsat(assertions, timeout_ms):
    s = z3.Solver(); s.set('timeout', timeout_ms)
    for a in assertions: s.add(a)
    r = s.check()
    return r, s

def triggers(xs, e):
    """patterns for forall xs. e: the applications that contain every variable and no interpreted operator (or,
    failing that, one combination of applications that together contain every variable)"""
    ids = [x.get_id() for x in xs]
    info = {}
    def walk(t):
        """(variables, clean, depth); collects the clean applications with a variable"""
        i = t.get_id()
        if i in info: return info[i][:2]
        if not z3.is_app(t): info[i] = (frozenset(), False, t); return info[i][:2]
        if i in ids: info[i] = (frozenset([i]), True, t); return info[i][:2]
        vs, ok = frozenset(), True
        for c in t.children():
            v, k = walk(c); vs |= v; ok = ok and (k or not v)
            if not v and z3.is_app(c) and c.decl().kind() in (z3.Z3_OP_ITE,): ok = False
        k = t.decl().kind()
        if vs and k not in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED): ok = False
        info[i] = (vs, ok, t)
        return vs, ok
    walk(e)
    apps = [(vs, t) for vs, ok, t in info.values() if ok and vs and t.get_id() not in ids and t.num_args()]
    full = [t for vs, t in apps if len(vs) == len(ids)]
    # the smaller ones match more
    def sub(t, u):
        st = [u]
        while st:
            x = st.pop()
            if x.get_id() == t.get_id(): return True
            st += x.children()
        return False
    full = [t for t in full if not any(u.get_id() != t.get_id() and sub(u, t) for u in full)]
    pats = full[:6]
    if not pats and len(ids) > 1:
        per = [[t for vs, t in apps if vs == frozenset([i])] for i in ids]
        per = [[t for t in p if not any(u.get_id() != t.get_id() and sub(u, t) for u in p)][:2] for p in per]
        if all(per): pats = [z3.MultiPattern(*c) for c in itertools.product(*per)][:6]
    return pats

def quantified_unsat(hyps, g, terms, timeout_ms):
    """Second attempt with z3's own instantiation (the instances chosen here may be too few): a portfolio of short runs."""
    plain, pat = [], []
    for h in hyps:
        if not isinstance(h, FA): plain.append(h); pat.append(h); continue
        xs = [z3.Const('q_%s_%d' % (h.name, k), srt) for k, srt in enumerate(h.sorts)]
        for x in instance(h, tuple(xs)):
            if z3.is_true(x): continue
            plain.append(z3.ForAll(xs, x))
            ps = triggers(xs, x)
            try: pat.append(z3.ForAll(xs, x, patterns=ps) if ps else plain[-1])
            except z3.Z3Exception: pat.append(plain[-1])
    tail = [z3.Const('t!%d' % k, t.sort()) == t for k, t in enumerate(terms)] + [z3.Not(g)]
    for patterns, mbqi, seed, ms in QUANT_RUNS:
        s = z3.Solver(); s.set('timeout', min(ms, timeout_ms))
        s.set('smt.random_seed', seed)
        if not mbqi: s.set('auto_config', False); s.set('mbqi', False)
        for a in (pat if patterns else plain) + tail: s.add(a)
        r = s.check()
        if r == z3.unsat: return True
        if r == z3.sat: return False
    return False
QUANT_RUNS = [(True, False, 1, 4000), (False, False, 1, 6000), (True, False, 5, 8000), (False, True, 0, 4000), (False, False, 23, 10000)]

def cvc5_check(solver, timeout_s):
    txt = '(set-logic ALL)\n' + solver.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt); p = f.name
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout_s * 1000), '--arrays-exp', p], capture_output=True, text=True, timeout=timeout_s + 5)
        out = r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'error:' + r.stderr[:100]
    except subprocess.TimeoutExpired:
        out = 'timeout'
    finally:
        os.unlink(p)
    return out

def discharge(ob, timeout_ms=10000, second=False):
    """Sets ob.status to proved / refuted / unknown."""
    t0 = time.time()
    cnt = itertools.count()
    fresh = lambda n, s: z3.Const('%s?%d' % (n, next(cnt)), s)
    goal = ob.goal
    hyps = list(ob.hyps)
    # existential goals with witnesses
    if isinstance(goal, EX):
        for w in goal.witnesses:
            o2 = Obligation(ob.name, ob.func, ob.hyps, goal.body(w), ob.kind, ob.loc, ob.path, ob.extra_terms)
            discharge(o2, timeout_ms, second)
            if o2.status == 'proved':
                ob.status, ob.backend, ob.time, ob.note = 'proved', o2.backend, time.time() - t0, o2.note
                return ob
        ob.status = 'unknown'; ob.note = 'no witness works'; ob.time = time.time() - t0; ob.backend = 'z3'
        return ob
    pieces = flatten_goal(goal, fresh)
    hid = set(h.get_id() for h in hyps if not isinstance(h, FA))
    if isinstance(goal, FA) and len(pieces) == 1:
        # the same universally quantified fact among the hypotheses, at the same fresh constants
        xs = [z3.Const('sk_%s?%d' % (goal.name, k), s) for k, s in enumerate(goal.sorts)]
        for h in hyps:
            if isinstance(h, FA) and h.name == goal.name and [str(s) for s in h.sorts] == [str(s) for s in goal.sorts]:
                for x in instance(h, tuple(xs)): hid.add(x.get_id())
    status, backends = 'proved', set()
    for sfx, g in pieces:
        if z3.is_true(g): continue
        ok = False
        if g.get_id() in hid: backends.add('syntactic'); continue
        size = None
        for rounds in (0, 1, 2, 3, 4, 5):
            asr = ground(hyps, [z3.Not(g)], ob.extra_terms, rounds)
            if rounds > 1 and (len(asr) == size or len(asr) > 4000): break     # no further instance
            size = len(asr)
            r, s = check_unsat(asr, timeout_ms if rounds else min(1500, timeout_ms))
            if r == z3.unsat: ok = True; break
            if rounds == 0: continue
            if r == z3.unknown and rounds >= 2: break
            if not any(isinstance(h, FA) for h in hyps): break
        if ok:
            backends.add('z3')
            if second:
                c = cvc5_check(s, 20)
                ob.note += ' cvc5:' + c
                if c == 'sat': status = 'disagree'
            continue
        if r == z3.unknown:
            c = cvc5_check(s, timeout_ms / 1000.0)
            if c == 'unsat': backends.add('cvc5'); continue
            status = 'unknown' if status == 'proved' else status
            ob.note += ' z3:%s cvc5:%s' % (s.reason_unknown(), c)
        elif any(isinstance(h, FA) for h in hyps) and quantified_unsat(hyps, g, ob.extra_terms, timeout_ms):
            backends.add('z3-quantified')
        else:
            status = 'refuted'
            try: ob.model = s.model()
            except z3.Z3Exception: ob.model = None
            ob.smt = s
            break
    ob.status = status; ob.backend = '+'.join(sorted(backends)) or 'z3'
    ob.time = time.time() - t0
    return ob

def discharge_cover(ob, timeout_ms=5000):
    """A cover holds when its hypotheses are satisfiable (quantified ones instantiated)."""
    t0 = time.time()
    asr = ground(ob.hyps, [], ob.extra_terms, 1)
    r, s = check_unsat(asr, timeout_ms)
    ob.status = 'covered' if r == z3.sat else 'vacuous' if r == z3.unsat else 'unknown'
    ob.time = time.time() - t0; ob.backend = 'z3'
    return ob
