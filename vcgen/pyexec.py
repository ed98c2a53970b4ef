"""Symbolic execution of the real Python source (the `ast` of the files in /repo, read on every run).

Values: Python None/bool/int/str/tuple (concrete), z3 terms (Int, Bool, Real, the uninterpreted sort of hashable
elements), Seq (length and element function), PSet (characteristic array), PDict, Rope (strings), Obj/list/set/dict
behind a Ref (mutable).  Loops over symbolic sequences are cut by the invariants of the contract; functions of the
repository are executed in place unless a contract is given for them; library functions have models (b_*)."""
import ast, os, re, itertools
import z3
from .core import *
from .cxxexec import Restart, Thrown, Ret, Brk, Cont

I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
U = z3.DeclareSort('Elem')
S = z3.Select

class PyThrown(Thrown):
    def __init__(self, exc): Thrown.__init__(self); self.exc = exc

# ---------------------------------------------------------------- values
class Seq:
    def __init__(self, n, get, kind='tuple', distinct=False): self.n, self.get, self.kind, self.distinct = n, get, kind, distinct
    def __repr__(self): return '%s<%s>' % (self.kind, self.n)
class PSet:
    def __init__(self, mem, kind='frozenset'): self.mem, self.kind = mem, kind
    @property
    def dom(self): return self.mem.sort().domain()
class PDict:
    def __init__(self, has, val, order=None): self.has, self.val, self.order = has, val, order   # val: key -> value
class CDict(dict): pass          # concrete keyword dictionary
class VList(tuple): pass         # a list of known length held by value
class Rope:
    def __init__(self, parts): self.parts = parts      # str | ('chars', Seq of codes) | ('join', sep, Seq of Rope)
class Chr:
    def __init__(self, code): self.code = code
class Opt:
    """None or a value"""
    def __init__(self, has, val): self.has, self.val = has, val
class Opaque:
    def __init__(self, name='?'): self.name = name
class Ref:
    def __init__(self, cell): self.cell = cell
class Obj:
    def __init__(self, cls, fields): self.cls, self.fields = cls, fields
class Fn:
    def __init__(self, mod, node, qual, env=None, static=False, prop=False): self.mod, self.node, self.qual, self.env, self.static, self.prop = mod, node, qual, env, static, prop
class Cls:
    def __init__(self, mod, node, qual): self.mod, self.node, self.qual = mod, node, qual
class Ext:
    """an external name (library function, class or module)"""
    def __init__(self, path): self.path = path
class Bound:
    def __init__(self, recv, name): self.recv, self.name = recv, name
class PyFn:
    def __init__(self, fn): self.fn = fn
class Super:
    def __init__(self, cls, obj): self.cls, self.obj = cls, obj

def isz(v): return z3.is_expr(v)
def zint(v):
    if isinstance(v, bool): return z3.IntVal(int(v))
    if isinstance(v, int): return z3.IntVal(v)
    if isz(v) and v.sort() == B: return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if isz(v): return v
    raise OutOfFragment('not a number: %r' % (v,))
def zval(v):
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, int): return z3.IntVal(v)
    return v

def vsub(v, pairs):
    """substitution in a value"""
    if isz(v): return z3.substitute(v, *pairs) if pairs else v
    if isinstance(v, VList): return VList(vsub(x, pairs) for x in v)
    if isinstance(v, tuple): return tuple(vsub(x, pairs) for x in v)
    if isinstance(v, Seq): return Seq(vsub(v.n, pairs) if v.n is not None else None, lambda i: vsub_at(v.get, i, pairs), v.kind, v.distinct)
    if isinstance(v, PSet): return PSet(vsub(v.mem, pairs), v.kind)
    if isinstance(v, Opt): return Opt(vsub(v.has, pairs), vsub(v.val, pairs))
    if isinstance(v, Chr): return Chr(vsub(v.code, pairs))
    if isinstance(v, Rope): return Rope([p if isinstance(p, str) else tuple(vsub(x, pairs) for x in p) for p in v.parts])
    if isinstance(v, PDict): return PDict(vsub(v.has, pairs), lambda k: vsub_at(v.val, k, pairs), None)
    return v
_BV = itertools.count()
def vsub_at(get, i, pairs):
    # the position i is not subject to the substitution
    k = z3.Const('at!%d' % next(_BV), zint(i).sort() if not isz(i) else i.sort())
    return vsub(vsub(get(k), pairs), [(k, zval(i))])

def freeze(get, sort=I):
    k = z3.Const('fz!%d' % next(_BV), sort)
    v = get(k)
    return lambda i: vsub(v, [(k, zval(i))])

def merge(c, a, b):
    """if c then a else b"""
    if isinstance(c, bool): return a if c else b
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a is b: return a
    if isinstance(a, (bool, int)) and not isinstance(b, (Opt, type(None))): a = zval(a)
    if isinstance(b, (bool, int)) and not isinstance(a, (Opt, type(None))): b = zval(b)
    if isz(a) and isz(b):
        if a.sort() != b.sort(): a, b = zint(a), zint(b)
        return a if a.eq(b) else z3.If(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return (VList if isinstance(a, VList) else tuple)(merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, (Seq, tuple)) and isinstance(b, (Seq, tuple)):
        a, b = seq(a), seq(b)
        return Seq(merge(c, a.n, b.n), lambda i: merge(c, a.get(i), b.get(i)), a.kind, a.distinct and b.distinct)
    if isinstance(a, PSet) and isinstance(b, PSet): return PSet(merge(c, a.mem, b.mem), a.kind)
    if isinstance(a, str) and isinstance(b, str) and a == b: return a
    if isinstance(a, str) and len(a) == 1: a = Chr(z3.IntVal(ord(a)))
    if isinstance(b, str) and len(b) == 1: b = Chr(z3.IntVal(ord(b)))
    if isinstance(a, Chr) and isinstance(b, Chr): return Chr(merge(c, a.code, b.code))
    if a is None and b is None: return None
    if a is None and isinstance(b, Opt): return Opt(z3.And(z3.Not(c), b.has), b.val)
    if b is None and isinstance(a, Opt): return Opt(z3.And(c, a.has), a.val)
    if isinstance(a, Opt) and isinstance(b, Opt): return Opt(z3.If(c, a.has, b.has), merge(c, a.val, b.val))
    if a is None: return Opt(z3.Not(c), zval(b))
    if b is None: return Opt(c, zval(a))
    if isinstance(a, Opt): return Opt(z3.Or(z3.Not(c), a.has), merge(c, a.val, b))
    if isinstance(b, Opt): return Opt(z3.Or(c, b.has), merge(c, a, b.val))
    raise OutOfFragment('merge %r %r' % (type(a).__name__, type(b).__name__))

def seq(v):
    """a concrete tuple as a sequence"""
    if isinstance(v, Seq): return v
    if isinstance(v, tuple):
        items = v
        def get(i):
            if isinstance(i, int): return items[i]
            i = z3.simplify(i)
            if z3.is_int_value(i) and 0 <= i.as_long() < len(items): return items[i.as_long()]
            if not items: raise OutOfFragment('element of an empty tuple')
            r = items[-1]
            for j in range(len(items) - 2, -1, -1): r = merge(i == j, items[j], r)
            return r
        return Seq(z3.IntVal(len(items)), get, 'list' if isinstance(v, VList) else 'tuple') if items else Seq(z3.IntVal(0), lambda i: None, 'tuple', True)
    raise OutOfFragment('not a sequence: %r' % (v,))

def fresh_like(ctx, nm, v, dims=(), idx=()):
    """an arbitrary value of the same shape; dims/idx: enclosing positions"""
    def leaf(sort):
        for d in reversed(dims): sort = z3.ArraySort(d, sort)
        a = ctx.fresh(nm, sort)
        for i in idx: a = S(a, i)
        return a
    if isinstance(v, bool): return leaf(B)
    if isinstance(v, int): return leaf(I)
    if isz(v): return leaf(v.sort())
    if isinstance(v, VList): return VList(fresh_like(ctx, nm, x, dims, idx) for x in v)
    if isinstance(v, tuple): return tuple(fresh_like(ctx, nm, x, dims, idx) for x in v)
    if isinstance(v, Chr): return Chr(leaf(I))
    if isinstance(v, Opt): return Opt(leaf(B), fresh_like(ctx, nm, v.val, dims, idx))
    if isinstance(v, PSet): return PSet(leaf(v.mem.sort()), v.kind)
    if isinstance(v, Seq):
        n = leaf(I)
        k = z3.Const('fl!%d' % next(_BV), I)
        p = v.get(k)
        el = fresh_like(ctx, nm, p, dims + (I,), idx + (k,))
        return Seq(n, lambda i: vsub(el, [(k, zval(i))]), v.kind, v.distinct)
    if isinstance(v, PDict):
        ks = v.has.sort().domain(); k = z3.Const('fl!%d' % next(_BV), ks)
        el = fresh_like(ctx, nm, v.val(k), dims + (ks,), idx + (k,))
        return PDict(leaf(v.has.sort()), lambda i: vsub(el, [(k, zval(i))]))
    if isinstance(v, (Opaque, str)) or v is None: return Opaque(nm)
    raise OutOfFragment('loop changes a %s' % type(v).__name__)

# ---------------------------------------------------------------- modules
class PyMods:
    def __init__(self, repo): self.repo, self.mods = repo, {}
    def load(self, name):
        if name in self.mods: return self.mods[name]
        p = os.path.join(self.repo, *name.split('.'))
        p = p + '.py' if os.path.exists(p + '.py') else os.path.join(p, '__init__.py')
        if not os.path.exists(p): self.mods[name] = None; return None
        tree = ast.parse(open(p).read(), p)
        m = {'__name__': name}
        for st in tree.body: self.top(m, st, name)
        self.mods[name] = m
        return m
    def top(self, m, st, name):
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname: m[a.asname] = Ext(a.name)
                else: m[a.name.split('.')[0]] = Ext(a.name.split('.')[0])
        elif isinstance(st, ast.ImportFrom):
            for a in st.names: m[a.asname or a.name] = Ext((st.module or '') + '.' + a.name)
        elif isinstance(st, (ast.FunctionDef,)): m[st.name] = Fn(name, st, name + '.' + st.name)
        elif isinstance(st, ast.ClassDef): m[st.name] = Cls(name, st, name + '.' + st.name)
        elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name): m[st.targets[0].id] = ('lazy', st.value)
        elif isinstance(st, (ast.If, ast.Try)):
            for x in st.body: self.top(m, x, name)

def vs_sorts(vs): return [v.sort() for v in vs]

class Env:
    def __init__(self, tag, parent, mod, fn=None): self.tag, self.parent, self.mod, self.vars, self.fn, self.nonlocals = tag, parent, mod, {}, fn, set()

BUILTINS = set('len list tuple dict set frozenset range zip map filter enumerate sorted reversed max min any all sum isinstance iter next hash repr str int float bool chr ord abs super type TypeError ValueError IndexError KeyError RuntimeError AssertionError NotImplementedError AttributeError StopIteration Exception getattr hasattr print id callable issubclass DeprecationWarning round divmod pow'.split())

class PyInterp:
    def __init__(self, ctx, mods, contracts, loops, modsets, opts):
        self.ctx, self.mods, self.contracts, self.loops, self.modsets, self.opts = ctx, mods, contracts, loops, modsets, opts
        self.cells, self.loopstack, self.loopcount = {}, [], {}
        self.inlined, self.called = set(), set()
        self.env = None; self.stack = []; self.sites = {}; self.pure = 0; self.k = None; self.depth = 0
    # -- cells
    def new_cell(self, name, val):
        c = self.sites.get(name, 0); self.sites[name] = c + 1
        k = '%s@%s' % (name, c); self.cells[k] = val
        return k
    def new_ref(self, val, name='obj'):
        if self.pure and not isinstance(val, Obj): return val
        return Ref(self.new_cell('%s/%s' % ('>'.join(self.stack[-3:]), name), val))
    def get(self, v):
        return self.cells[v.cell] if isinstance(v, Ref) else v
    def put(self, ref, val):
        if not isinstance(ref, Ref): raise OutOfFragment('assignment into an immutable value')
        if self.pure: raise OutOfFragment('assignment inside a lazily evaluated function')
        self.note_write(ref.cell); self.cells[ref.cell] = val
    def note_write(self, cell):
        for key, before in self.loopstack:
            if cell in before:
                ms = self.modsets.setdefault(key, [])
                if cell not in ms: ms.append(cell); raise Restart()
    def setvar(self, env, name, val):
        if name in env.vars and env.vars[name] in self.cells:
            if self.pure and not env.tag.startswith('pure'): raise OutOfFragment('assignment inside a lazily evaluated function')
            self.note_write(env.vars[name]); self.cells[env.vars[name]] = val
        else: env.vars[name] = self.new_cell('%s.%s' % (env.tag, name), val)
    def lookup(self, name, env=None):
        e = env or self.env
        while e is not None:
            if name in e.vars:
                if e.vars[name] not in self.cells: raise OutOfFragment('unbound %s' % name)
                return self.cells[e.vars[name]]
            e = e.parent
        m = self.mods.load((env or self.env).mod)
        if name in m: return self.resolve(m[name], (env or self.env).mod)
        if name in BUILTINS: return Ext('builtins.' + name)
        raise OutOfFragment('name %s' % name)
    def resolve(self, v, mod):
        if isinstance(v, tuple) and v and v[0] == 'lazy':
            e = Env('mod', None, mod); old = self.env; self.env = e
            try: return self.ev(v[1])
            finally: self.env = old
        if isinstance(v, Ext) and v.path.startswith('tnco.'):
            a, b = v.path.rsplit('.', 1)
            m = self.mods.load(a)
            if m is not None and b in m: return self.resolve(m[b], a)
        return v
    def var(self, *names):
        """local variable of the innermost function frames, by name"""
        for n in names:
            e = self.env
            while e is not None:
                if n in e.vars and e.vars[n] in self.cells: return self.cells[e.vars[n]]
                e = e.parent
        raise OutOfFragment('variable %s not identified' % names[0])
    def find(self, names, pred):
        """a variable (followed to its value) by name, or the only one of that shape"""
        for n in names:
            try: v = self.get(self.var(n))
            except OutOfFragment: continue
            if pred(v): return v
        c = {}
        e = self.env
        while e is not None:
            for n, cell in e.vars.items():
                v = self.cells.get(cell)
                key = v.cell if isinstance(v, Ref) else cell
                if pred(self.get(v)): c[key] = self.get(v)
            e = e.parent
        if len(c) == 1: return next(iter(c.values()))
        raise OutOfFragment('variable %s not identified' % names[0])
    # -- logic
    def entails(self, cond, timeout=1500):
        if isinstance(cond, bool): return cond
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        cache = self.__dict__.setdefault('_ent', {})
        key = (len(self.ctx.hyps), c.get_id())
        if key in cache: return cache[key][0]
        r = False
        for rounds in (1, 2):
            try: res, _ = check_unsat(ground(self.ctx.hyps, [z3.Not(cond)], self.ctx.terms, rounds, cap=1500), timeout)
            except OutOfFragment: break
            if res == z3.unsat: r = True; break
            if not any(isinstance(h, FA) for h in self.ctx.hyps): break
        cache[key] = (r, c)
        return r
    def decide(self, cond):
        if isinstance(cond, bool): return cond
        if self.pure: raise OutOfFragment('branch inside a lazily evaluated function')
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        return self.ctx.decide(cond)
    def guard(self, ok, exc):
        """raise exc unless ok; the raising path is not explored when ok is provable"""
        if isinstance(ok, bool):
            if ok: return
            raise PyThrown(exc)
        if self.pure:
            self.side.append(([], ok, exc)); return
        if self.entails(ok): self.ctx.assume(ok); return
        if not self.decide(ok): raise PyThrown(exc)
    side = []
    def truth(self, v):
        v = self.get(v)
        if v is None: return False
        if isinstance(v, (bool, int)): return bool(v)
        if isz(v): return v if v.sort() == B else v != 0
        if isinstance(v, str): return bool(v)
        if isinstance(v, (tuple, dict)): return len(v) > 0
        if isinstance(v, Seq): return v.n > 0
        if isinstance(v, PSet): return z3.Not(self.seteq(v, PSet(z3.K(v.dom, z3.BoolVal(False)))))
        if isinstance(v, Obj):
            m = self.method(v.cls, '__len__')
            if m: return self.truth(self.zcmp('Gt', self.call_fn(m, [self.selfref(v)], {}), 0))
            return True
        if isinstance(v, (Fn, Cls, Ext, Bound, PyFn)): return True
        if isinstance(v, Opt): 
            x = self.truth(v.val)
            return z3.And(v.has, x) if not isinstance(x, bool) else (v.has if x else False)
        raise OutOfFragment('truth of %s' % type(v).__name__)
    def nots(self, b): return (not b) if isinstance(b, bool) else z3.Not(b)
    def eq(self, a, b):
        if isinstance(a, Ref) and isinstance(b, Ref) and a.cell == b.cell and not isinstance(self.get(a), Obj): return True
        ra, rb = a, b
        a, b = self.get(a), self.get(b)
        if isinstance(a, Obj) or isinstance(b, Obj):
            if isinstance(a, Obj):
                m = self.method(a.cls, '__eq__')
                if m: return self.truth(self.call_fn(m, [ra, rb], {}))
            if isinstance(b, Obj):
                m = self.method(b.cls, '__eq__')
                if m: return self.truth(self.call_fn(m, [rb, ra], {}))
            raise OutOfFragment('equality of objects')
        if a is None or b is None:
            if a is None and b is None: return True
            o = b if a is None else a
            if isinstance(o, Opt): return z3.Not(o.has)
            if isinstance(o, Opaque): raise OutOfFragment('comparison with an opaque value')
            return False
        if isinstance(a, Opt) or isinstance(b, Opt):
            if isinstance(a, Opt) and isinstance(b, Opt):
                return z3.And(a.has == b.has, z3.Implies(a.has, zval(self.eq(a.val, b.val))))
            o, x = (a, b) if isinstance(a, Opt) else (b, a)
            return z3.And(o.has, zval(self.eq(o.val, x)))
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)): return a == b
        if isinstance(a, str) and isinstance(b, str): return a == b
        if isinstance(a, Chr) or isinstance(b, Chr):
            f = lambda x: x.code if isinstance(x, Chr) else z3.IntVal(ord(x)) if isinstance(x, str) and len(x) == 1 else None
            x, y = f(a), f(b)
            if x is None or y is None: return False
            return x == y
        if (isz(a) or isinstance(a, (bool, int))) and (isz(b) or isinstance(b, (bool, int))):
            a, b = zval(a), zval(b)
            if a.sort() != b.sort():
                if {str(a.sort()), str(b.sort())} <= {'Int', 'Bool', 'Real'}: a, b = zint(a), zint(b)
                else: return False
            return a == b
        if isinstance(a, PSet) and isinstance(b, PSet): return self.seteq(a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b): return False
            xs = [self.eq(x, y) for x, y in zip(a, b)]
            if all(isinstance(x, bool) for x in xs): return all(xs)
            return z3.And(*[zval(x) for x in xs])
        if isinstance(a, (Seq, tuple)) and isinstance(b, (Seq, tuple)):
            a, b = seq(a), seq(b)
            r = self.ctx.fresh_bool('eq')
            if self.pure: raise OutOfFragment('equality of sequences')
            if self.decide(r):
                self.ctx.assume(a.n == b.n); self.ctx.assume(FA('seqeq', I, lambda i: z3.Implies(z3.And(0 <= i, i < a.n), zval(self.eq(a.get(i), b.get(i))))))
                return True
            self.ctx.assume(EX('seqne', I, lambda i: z3.Or(a.n != b.n, z3.And(0 <= i, i < a.n, z3.Not(zval(self.eq(a.get(i), b.get(i))))))))
            return False
        if type(a) != type(b) and not (isz(a) or isz(b)): return False
        raise OutOfFragment('equality of %s and %s' % (type(a).__name__, type(b).__name__))
    def seteq(self, a, b):
        if a.dom != b.dom: raise OutOfFragment('sets of different kinds')
        w = self.fresh('differ', a.dom); self.ctx.terms += [w] if not self.pvars else []
        self.fact('', [], lambda: z3.Or(a.mem == b.mem, S(a.mem, w) != S(b.mem, w)))
        return a.mem == b.mem
    def setsub(self, a, b):
        if a.dom != b.dom: raise OutOfFragment('sets of different kinds')
        w = self.fresh('outside', a.dom); self.ctx.terms += [w] if not self.pvars else []
        r = z3.IsSubset(a.mem, b.mem)
        self.fact('', [], lambda: z3.Or(r, z3.And(S(a.mem, w), z3.Not(S(b.mem, w)))))
        return r
    def zcmp(self, op, a, b):
        a, b = self.get(a), self.get(b)
        if isinstance(a, PSet) and isinstance(b, PSet):
            sub = self.setsub
            if op == 'LtE': return sub(a, b)
            if op == 'GtE': return sub(b, a)
            if op == 'Lt': return z3.And(sub(a, b), z3.Not(self.seteq(a, b)))
            if op == 'Gt': return z3.And(sub(b, a), z3.Not(self.seteq(a, b)))
        f = {'Lt': lambda x, y: x < y, 'LtE': lambda x, y: x <= y, 'Gt': lambda x, y: x > y, 'GtE': lambda x, y: x >= y}[op]
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)): return f(a, b)
        if (isz(a) or isinstance(a, int)) and (isz(b) or isinstance(b, int)): return f(zint(a), zint(b))
        raise OutOfFragment('comparison of %s and %s' % (type(a).__name__, type(b).__name__))
    # -- sequences
    def iterate(self, v, consume=True):
        """the elements of an iterable, in order"""
        ref = v
        v = self.get(v)
        if isinstance(v, Seq):
            if v.kind == 'iter' and isinstance(ref, Ref) and consume and not self.pure:
                s = Seq(v.n, v.get, 'tuple', v.distinct)
                self.put(ref, Seq(z3.IntVal(0), v.get, 'iter', True))
                return s
            return v
        if isinstance(v, tuple): return seq(v)
        if isinstance(v, PSet): return self.enum(v)
        if isinstance(v, PDict):
            if v.order is not None: return v.order
            return self.enum(PSet(v.has))
        if isinstance(v, str): return seq(tuple(v)) if v else Seq(z3.IntVal(0), lambda i: None)
        if isinstance(v, Rope):
            if len(v.parts) == 1 and v.parts[0][0] == 'chars':
                s = v.parts[0][1]; return Seq(s.n, lambda i: Chr(s.get(i)))
        if isinstance(v, Obj):
            m = self.method(v.cls, '__iter__')
            if m: return self.iterate(self.call_fn(m, [ref], {}))
        raise OutOfFragment('iteration over %s' % type(v).__name__)
    def fresh_seq(self, nm, sort):
        n = self.fresh(nm + '.n', I); a = self.fresh(nm, z3.ArraySort(I, sort))
        self.fact('', [], lambda: n >= 0)
        return Seq(n, lambda i: S(a, zint(i)))
    def enum(self, s):
        """the distinct elements of a set, in some order"""
        r = self.fresh_seq('enum', s.dom); r.distinct = True
        pos = self.fresh('enumpos', z3.ArraySort(s.dom, I))
        self.fact('enum', I, lambda i: z3.Implies(z3.And(0 <= i, i < r.n), z3.And(S(s.mem, r.get(i)), S(pos, r.get(i)) == i)))
        self.fact('enumall', s.dom, lambda x: z3.Implies(S(s.mem, x), z3.And(0 <= S(pos, x), S(pos, x) < r.n, r.get(S(pos, x)) == x)))
        return r
    def elem(self, x):
        x = self.get(x)
        if isinstance(x, (bool, int)): return zval(x)
        if isz(x): return x
        raise OutOfFragment('set element %s' % type(x).__name__)
    def sort_of(self, s):
        if z3.is_int_value(z3.simplify(s.n)) and z3.simplify(s.n).as_long() == 0: return None
        return self.elem(s.get(z3.IntVal(0))).sort()
    def toset(self, v, kind='frozenset', consume=True):
        w = self.get(v)
        if isinstance(w, PSet): return PSet(w.mem, kind)
        if isinstance(w, PDict): return PSet(w.has, kind)
        if isinstance(w, tuple):
            if not w: return PSet(z3.K(self.opts.get('elem', U), z3.BoolVal(False)), kind)
            es = [self.elem(x) for x in w]
            m = z3.K(es[0].sort(), z3.BoolVal(False))
            for e in es: m = z3.Store(m, e, z3.BoolVal(True))
            return PSet(m, kind)
        s = self.iterate(v, consume)
        srt = self.sort_of(s)
        if srt is None: return PSet(z3.K(self.opts.get('elem', U), z3.BoolVal(False)), kind)
        return PSet(self.members(s, srt), kind)
    def members(self, s, srt):
        m = self.fresh('set', z3.ArraySort(srt, B)); at = self.fresh('setpos', z3.ArraySort(srt, I))
        self.fact_each('inset', s, lambda i, x: S(m, self.elem(x)))
        self.fact('onlyset', srt, lambda x: z3.Implies(S(m, x), z3.And(0 <= S(at, x), S(at, x) < s.n, self.elem(s.get(S(at, x))) == x)))
        return m
    def contains(self, x, c):
        """x in c"""
        w = self.get(c)
        if isinstance(w, PSet):
            e = self.elem(x)
            return S(w.mem, e) if e.sort() == w.dom else False
        if isinstance(w, PDict):
            e = self.elem(x)
            return S(w.has, e) if e.sort() == w.has.sort().domain() else False
        if isinstance(w, CDict): return x in w
        if isinstance(w, tuple):
            xs = [self.eq(x, y) for y in w]
            if all(isinstance(y, bool) for y in xs): return any(xs)
            return z3.Or(*[zval(y) for y in xs])
        if isinstance(w, Seq):
            if w.kind == 'iter': raise OutOfFragment('membership test in an iterator')
            return S(self.toset(w).mem, self.elem(x))
        if isinstance(w, Obj):
            m = self.method(w.cls, '__contains__')
            if m: return self.truth(self.call_fn(m, [c, x], {}))
            return S(self.toset(self.iterate(c)).mem, self.elem(x))
        raise OutOfFragment('membership in %s' % type(w).__name__)
    def index_norm(self, i, n):
        i = self.get(i)
        if isinstance(i, bool): i = int(i)
        if isinstance(i, int): return zint(i) if i >= 0 else z3.simplify(n + i)
        c = z3.simplify(i)
        if z3.is_int_value(c): return self.index_norm(c.as_long(), n)
        if self.pure: return i     # the side condition 0 <= i is recorded by the caller
        if self.entails(i >= 0): return i
        return z3.If(i < 0, i + n, i)
    def item(self, v, i):
        w = self.get(v)
        if isinstance(w, tuple):
            i = self.get(i)
            if isz(i) and z3.is_int_value(z3.simplify(i)): i = z3.simplify(i).as_long()
            if isinstance(i, int):
                if not -len(w) <= i < len(w): raise PyThrown('IndexError')
                return w[i]
            w = seq(w)
        if isinstance(w, Seq):
            j = self.index_norm(i, w.n)
            self.guard(z3.And(0 <= j, j < w.n), 'IndexError')
            return w.get(j)
        if isinstance(w, PDict):
            e = self.elem(i)
            self.guard(S(w.has, e), 'KeyError')
            return w.val(e)
        if isinstance(w, str):
            if isinstance(i, int): return w[i]
            j = zint(i); self.guard(z3.And(0 <= j, j < len(w)), 'IndexError')
            r = z3.IntVal(ord(w[-1]))
            for k in range(len(w) - 2, -1, -1): r = z3.If(j == k, z3.IntVal(ord(w[k])), r)
            return Chr(r)
        if isinstance(w, CDict): return w[i]
        if isinstance(w, Obj):
            m = self.method(w.cls, '__getitem__')
            if m: return self.call_fn(m, [v, i], {})
        if isinstance(w, Opt):
            self.guard(w.has, 'TypeError'); return self.item(w.val, i)
        if isinstance(w, PyFn) and hasattr(w, 'getitem'): return w.getitem(self, i)
        raise OutOfFragment('subscript of %s' % type(w).__name__)
    # -- functions
    def method(self, cls, name):
        c = cls
        for st in c.node.body:
            if isinstance(st, ast.FunctionDef) and st.name == name:
                deco = [d.id if isinstance(d, ast.Name) else getattr(d, 'attr', '') for d in st.decorator_list]
                return Fn(c.mod, st, c.qual + '.' + name, None, 'staticmethod' in deco, 'property' in deco)
        return None
    def fn(self, qual):
        mod, name = qual.rsplit('.', 1)
        m = self.mods.load(mod)
        if m is not None and name in m: return m[name]
        mod2, cl = mod.rsplit('.', 1)
        m = self.mods.load(mod2)
        f = self.method(m[cl], name) if m and cl in m else None
        if f is None: raise OutOfFragment('function %s not found' % qual)
        return f
    def call_fn(self, f, args, kw):
        for pat, c in self.contracts.items():
            if re.fullmatch(pat, f.qual):
                self.called.add(f.qual); return c(self, args, kw)
        if self.depth > 40: raise OutOfFragment('recursion in %s' % f.qual)
        self.inlined.add(f.qual)
        env = Env(('pure.' if self.pure else '') + '>'.join(self.stack[-2:] + [f.node.name if hasattr(f.node, 'name') else 'lambda']), f.env, f.mod, f)
        tag = env.tag; c = self.sites.get('frame ' + tag, 0); self.sites['frame ' + tag] = c + 1; env.tag = '%s#%d' % (tag, c)
        self.bindargs(f.node.args, args, kw, env, f)
        old, oldcount = self.env, self.loopcount
        self.env = env; self.stack.append(f.qual.split('.')[-1]); self.loopcount = {}; self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda): return self.ev(f.node.body)
            if self.pure: return self.pexec(f.node.body)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)): raise OutOfFragment('generator function')
            self.block(f.node.body)
            return None
        except Ret as r: return r.v
        finally: self.env = old; self.stack.pop(); self.loopcount = oldcount; self.depth -= 1
    def bindargs(self, a, args, kw, env, f):
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args); kw = dict(kw)
        bound = {}
        for n in names:
            if args: bound[n] = args.pop(0)
            elif n in kw: bound[n] = kw.pop(n)
        if args:
            if a.vararg: bound[a.vararg.arg] = tuple(args)
            else: raise PyThrown('TypeError')
        elif a.vararg: bound[a.vararg.arg] = ()
        dn = names[len(names) - len(a.defaults):]
        olde = self.env
        if f.env is not None: self.env = f.env
        else: self.env = Env('def', None, f.mod)
        try:
            for n, d in zip(dn, a.defaults):
                if n not in bound: bound[n] = self.ev(d)
            for x, d in zip(a.kwonlyargs, a.kw_defaults):
                if x.arg in kw: bound[x.arg] = kw.pop(x.arg)
                elif d is not None: bound[x.arg] = self.ev(d)
                else: raise PyThrown('TypeError')
        finally: self.env = olde
        if kw:
            if a.kwarg: bound[a.kwarg.arg] = CDict(kw)
            else: raise PyThrown('TypeError')
        elif a.kwarg: bound[a.kwarg.arg] = CDict()
        for n in names:
            if n not in bound: raise PyThrown('TypeError')
        for n, v in bound.items(): env.vars[n] = self.new_cell('%s.%s' % (env.tag, n), v)
    def pexec(self, body):
        """pure execution of a function body: branches are merged"""
        for k, st in enumerate(body):
            if isinstance(st, ast.Return): return self.ev(st.value) if st.value else None
            if isinstance(st, ast.If):
                c = self.truth(self.ev(st.test))
                rest = body[k + 1:]
                if isinstance(c, bool): return self.pexec((st.body if c else st.orelse) + rest)
                c = z3.simplify(c)
                if z3.is_true(c): return self.pexec(st.body + rest)
                if z3.is_false(c): return self.pexec(st.orelse + rest)
                saved = dict(self.env.vars)
                ns = len(self.side)
                a = self.pexec(st.body + rest); self.env.vars = dict(saved)
                mid = len(self.side)
                b = self.pexec(st.orelse + rest); self.env.vars = dict(saved)
                self.side[ns:mid] = [(vs, z3.Implies(c, x), e) for vs, x, e in self.side[ns:mid]]
                self.side[mid:] = [(vs, z3.Or(c, x), e) for vs, x, e in self.side[mid:]]
                return merge(c, a, b)
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], (ast.Name, ast.Tuple)):
                # a new binding (no destructive update)
                v = self.ev(st.value)
                self.pbind(st.targets[0], v); continue
            if isinstance(st, (ast.Expr,)) and isinstance(st.value, ast.Constant): continue
            if isinstance(st, (ast.Nonlocal, ast.Global, ast.Pass, ast.Import, ast.ImportFrom)):
                if isinstance(st, ast.ImportFrom):
                    for a in st.names: self.env.vars[a.asname or a.name] = self.new_cell('imp', self.resolve(Ext(st.module + '.' + a.name), self.env.mod))
                continue
            if isinstance(st, ast.Raise):
                self.side.append(([], z3.BoolVal(False), 'exception')); return None
            raise OutOfFragment('%s inside a lazily evaluated function' % type(st).__name__)
        return None
    def pbind(self, t, v):
        if isinstance(t, ast.Name): self.env.vars[t.id] = self.new_cell('pure.' + t.id, v)
        else:
            for x, y in zip(t.elts, self.unpack(v, len(t.elts))): self.pbind(x, y)
    def fresh(self, nm, sort):
        """an arbitrary constant; below a lazily evaluated function, one for every position"""
        for v, _ in reversed(self.pvars): sort = z3.ArraySort(v.sort(), sort)
        a = self.ctx.fresh(nm, sort)
        for v, _ in self.pvars: a = S(a, v)
        return a
    def fact(self, nm, sorts, body):
        sorts = sorts if isinstance(sorts, (list, tuple)) else [sorts]
        if not self.pvars: self.ctx.assume(FA(nm, sorts, body) if sorts else body()); return
        xs = [z3.Const('fx!%d' % next(_BV), t) for t in sorts]
        e = z3.Implies(z3.And(*[g for _, g in self.pvars]), body(*xs))
        vs = [v for v, _ in self.pvars]
        self.ctx.assume(FA(nm, vs_sorts(vs) + list(sorts), lambda *ys: z3.substitute(e, *zip(vs + xs, ys))))
    pvars = []
    def lazy(self, f, args_of, n, what, pending=None):
        """i -> f(args_of(i)), evaluated once and for all; its side conditions must hold for every position"""
        k = z3.Const('lz!%d' % next(_BV), I)
        g = z3.And(0 <= k, k < n) if n is not None else 0 <= k
        self.pure += 1; oldside, self.side = self.side, []; oldp, self.pvars = self.pvars, self.pvars + [(k, g)]
        try: v = self.call(f, args_of(k), {})
        finally: side, self.side = self.side, oldside; self.pure -= 1; self.pvars = oldp
        for vs, c, e in side:
            vs, c = [k] + vs, z3.Implies(g, c)
            if n is None and pending is not None: pending.append((vs, c, e, what))
            elif self.pure: self.side.append((vs, c, e))
            else: self.ctx.oblige('%s is defined for every element' % what, FA('lzdef', vs_sorts(vs), lambda *ys: z3.substitute(c, *zip(vs, ys))), 'call-pre')
        return lambda i: vsub(v, [(k, zval(i))])
    def call(self, f, args, kw):
        f0 = f
        f = self.get(f)
        if isinstance(f, PyFn): return f.fn(self, args, kw)
        if isinstance(f, Fn): return self.call_fn(f, args, kw)
        if isinstance(f, Cls): return self.instantiate(f, args, kw)
        if isinstance(f, Ext):
            for pat, c in self.contracts.items():
                if re.fullmatch(pat, f.path): self.called.add(f.path); return c(self, args, kw)
            nm = 'b_' + f.path.replace('builtins.', '').replace('.', '_')
            if hasattr(self, nm): return getattr(self, nm)(*args, **kw)
            raise OutOfFragment('library function %s' % f.path)
        if isinstance(f, Bound): return self.call_method(f.recv, f.name, args, kw)
        if isinstance(f, Opaque): return Opaque(f.name + '()')
        if isinstance(f, Obj):
            m = self.method(f.cls, '__call__')
            if m: return self.call_fn(m, [f0] + list(args), kw)
        raise OutOfFragment('call of %s' % type(f).__name__)
    def instantiate(self, c, args, kw):
        for pat, k in self.contracts.items():
            if re.fullmatch(pat, c.qual): self.called.add(c.qual); return k(self, args, kw)
        ref = self.new_ref(Obj(c, {}), c.node.name)
        m = self.method(c, '__init__')
        if m is None: raise OutOfFragment('class %s without constructor' % c.qual)
        if self.pure: raise OutOfFragment('object created inside a lazily evaluated function')
        self.call_fn(m, [ref] + list(args), kw)
        return ref
    def call_method(self, recv, name, args, kw):
        v = self.get(recv)
        if isinstance(v, Obj):
            m = self.method(v.cls, name)
            if m: return self.call_fn(m, ([] if m.static else [recv]) + list(args), kw)
            raise OutOfFragment('method %s' % name)
        if isinstance(v, Opaque):
            for pat, c in self.contracts.items():
                if re.fullmatch(pat, 'opaque.%s.%s' % (v.name, name)): return c(self, [recv] + list(args), kw)
            return Opaque(v.name + '.' + name)
        t = {Seq: 'list', VList: 'list', tuple: 'list', PSet: 'set', PDict: 'dict', CDict: 'cdict', str: 'str', Rope: 'str'}.get(type(v))
        if isz(v) or isinstance(v, int): t = 'num'
        h = getattr(self, 'm_%s_%s' % (t, name), None)
        if h is None: raise OutOfFragment('method %s of %s' % (name, type(v).__name__))
        return h(recv, *args, **kw)
    def attr(self, recv, name):
        v = self.get(recv)
        if isinstance(v, Obj):
            if name in v.fields: return v.fields[name]
            m = self.method(v.cls, name)
            if m is not None:
                if m.prop: return self.call_fn(m, [recv], {})
                return Bound(recv, name)
            for pat, c in self.contracts.items():
                if re.fullmatch(pat, 'attr:' + v.cls.qual + '.' + name): self.called.add('attr:' + name); return c(self, [recv], {})
            if name == '__class__': return v.cls
            raise OutOfFragment('attribute %s' % name)
        if isinstance(v, Super):
            for pat, c in self.contracts.items():
                if re.fullmatch(pat, 'super:' + v.cls + '.' + name):
                    self.called.add('super.' + name)
                    return c(self, [v.obj], {}) if getattr(c, 'prop', False) else PyFn(lambda it, a, kw: c(it, [v.obj] + list(a), kw))
            raise OutOfFragment('super().%s' % name)
        if isinstance(v, Ext): return self.resolve(Ext(v.path + '.' + name), self.env.mod)
        if isinstance(v, Cls):
            m = self.method(v, name)
            if m: return m
            if name == '__name__': return v.node.name
        if isinstance(v, Opaque):
            for pat, c in self.contracts.items():
                if re.fullmatch(pat, 'opaque.%s.%s' % (v.name, name)) and getattr(c, 'prop', False): return c(self, [recv], {})
            return Bound(recv, name)
        return Bound(recv, name)
    # -- expressions
    def ev(self, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None: raise OutOfFragment('expression %s' % type(n).__name__)
        return m(n)
    def e_Constant(self, n): return n.value
    def e_Name(self, n): return self.lookup(n.id)
    def e_JoinedStr(self, n): return Opaque('str')
    def e_Lambda(self, n): return Fn(self.env.mod, n, self.env.mod + '.<lambda>', self.env)
    def elts(self, es):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                w = self.get(self.ev(e.value))
                if isinstance(w, tuple): out += list(w); continue
                raise OutOfFragment('star expression')
            out.append(self.ev(e))
        return out
    def e_Tuple(self, n): return tuple(self.elts(n.elts))
    def e_List(self, n):
        xs = VList(self.elts(n.elts))
        return xs if self.pure else self.new_ref(xs, 'list')
    def e_Set(self, n): return self.toset(tuple(self.elts(n.elts)), 'set')
    def e_Dict(self, n):
        if not n.keys: return self.new_ref(CDict(), 'dict')
        raise OutOfFragment('dict display')
    def e_Starred(self, n): raise OutOfFragment('star expression')
    def e_Attribute(self, n): return self.attr(self.ev(n.value), n.attr)
    def e_NamedExpr(self, n):
        v = self.ev(n.value); self.setvar(self.env, n.target.id, v); return v
    def e_Subscript(self, n):
        v = self.ev(n.value)
        if isinstance(n.slice, ast.Slice): return self.slice(v, n.slice)
        return self.item(v, self.ev(n.slice))
    def slice(self, v, s):
        w = self.get(v)
        lo, hi = (self.get(self.ev(x)) if x is not None else None for x in (s.lower, s.upper))
        if s.step is not None:
            st = self.ev(s.step)
            if lo is None and hi is None and st == -1:
                q = seq(self.iterate(v)); return self.wrap_kind(Seq(q.n, lambda i: q.get(q.n - 1 - i), q.kind, q.distinct), w)
            raise OutOfFragment('slice step')
        if isinstance(w, Obj) or isinstance(w, PyFn):
            if isinstance(w, PyFn) and hasattr(w, 'getslice'): return w.getslice(self, lo, hi)
            raise OutOfFragment('slice of an object')
        if isinstance(w, (tuple, str)) and all(x is None or isinstance(x, int) for x in (lo, hi)): 
            r = w[slice(lo, hi)]
            return self.new_ref(VList(r), 'list') if isinstance(w, VList) else r
        q = seq(w)
        def bound(x, d):
            if x is None: return d
            x = zint(x)
            x = z3.simplify(x)
            if z3.is_int_value(x):
                x = x.as_long()
                if x < 0: return z3.If(q.n + x < 0, z3.IntVal(0), q.n + x)
                return z3.If(q.n < x, q.n, z3.IntVal(x))
            x = z3.If(x < 0, z3.If(x + q.n < 0, z3.IntVal(0), x + q.n), x)
            return z3.If(x > q.n, q.n, x)
        a, b = bound(lo, z3.IntVal(0)), bound(hi, q.n)
        r = Seq(z3.simplify(z3.If(b > a, b - a, z3.IntVal(0))), lambda i: q.get(a + i), q.kind, q.distinct)
        return self.wrap_kind(r, w)
    def wrap_kind(self, r, w):
        return self.new_ref(r, 'list') if r.kind == 'list' and not self.pure else r
    def e_UnaryOp(self, n):
        v = self.get(self.ev(n.operand))
        o = type(n.op).__name__
        if o == 'Not': return self.nots(self.truth(v))
        if o == 'USub': return -v if isinstance(v, int) else -zint(v)
        if o == 'UAdd': return v
        raise OutOfFragment('operator ' + o)
    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)
        if self.pure:
            r = self.truth(self.ev(n.values[0]))
            for x in n.values[1:]:
                if isinstance(r, bool):
                    if r != isand: return r
                    r = self.truth(self.ev(x)); continue
                ns = len(self.side)
                y = self.truth(self.ev(x))
                self.side[ns:] = [(vs, z3.Implies(r if isand else z3.Not(r), c), e) for vs, c, e in self.side[ns:]]
                r = z3.And(r, zval(y)) if isand else z3.Or(r, zval(y))
            return r
        v = None
        for i, x in enumerate(n.values):
            v = self.ev(x)
            if i == len(n.values) - 1: return v
            t = self.decide(self.truth(v))
            if t != isand: return v
        return v
    def e_IfExp(self, n):
        c = self.truth(self.ev(n.test))
        if isinstance(c, bool): return self.ev(n.body if c else n.orelse)
        if self.pure:
            ns = len(self.side); a = self.ev(n.body); mid = len(self.side); b = self.ev(n.orelse)
            self.side[ns:mid] = [(vs, z3.Implies(c, x), e) for vs, x, e in self.side[ns:mid]]
            self.side[mid:] = [(vs, z3.Or(c, x), e) for vs, x, e in self.side[mid:]]
            return merge(c, a, b)
        return self.ev(n.body if self.decide(c) else n.orelse)
    def e_Compare(self, n):
        l = self.ev(n.left); out = None
        for o, c in zip(n.ops, n.comparators):
            r = self.ev(c); k = type(o).__name__
            if k == 'Eq': x = self.eq(l, r)
            elif k == 'NotEq': x = self.nots(self.eq(l, r))
            elif k == 'Is' or k == 'IsNot':
                a, b = self.get(l), self.get(r)
                if b is None or a is None:
                    o_ = a if b is None else b
                    x = True if o_ is None else z3.Not(o_.has) if isinstance(o_, Opt) else False
                    if isinstance(o_, Opaque): raise OutOfFragment('opaque is None')
                elif isinstance(l, Ref) and isinstance(r, Ref): x = l.cell == r.cell
                elif isinstance(a, Cls) and isinstance(b, Cls): x = a.qual == b.qual
                elif isinstance(a, Ext) and isinstance(b, Ext): x = a.path == b.path
                elif isinstance(a, bool) and isinstance(b, bool): x = a is b
                else: raise OutOfFragment('is')
                if k == 'IsNot': x = self.nots(x)
            elif k == 'In': x = self.contains(l, r)
            elif k == 'NotIn': x = self.nots(self.contains(l, r))
            else:
                a = self.get(l)
                meth = {'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}[k]
                m = self.method(a.cls, meth) if isinstance(a, Obj) else None
                x = self.truth(self.call_fn(m, [l, r], {})) if m else self.zcmp(k, l, r)
            if out is None: out = x
            elif isinstance(out, bool): out = x if out else False
            else: out = z3.And(out, zval(x))
            l = r
        return out
    def e_BinOp(self, n): return self.binop(type(n.op).__name__, self.ev(n.left), self.ev(n.right))
    def binop(self, o, l, r):
        a, b = self.get(l), self.get(r)
        if isinstance(a, Obj):
            meth = {'BitOr': '__or__', 'BitAnd': '__and__', 'BitXor': '__xor__', 'Sub': '__sub__', 'Add': '__add__', 'Mult': '__mul__'}.get(o)
            m = self.method(a.cls, meth) if meth else None
            if m: return self.call_fn(m, [l, r], {})
            raise OutOfFragment('operator on an object')
        if isinstance(a, PSet) and isinstance(b, PSet):
            comp = z3.SetComplement
            m = {'BitOr': z3.SetUnion, 'BitAnd': z3.SetIntersect, 'Sub': lambda x, y: z3.SetIntersect(x, comp(y)),
                 'BitXor': lambda x, y: z3.SetUnion(z3.SetIntersect(x, comp(y)), z3.SetIntersect(y, comp(x)))}[o](a.mem, b.mem)
            return PSet(m, a.kind)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b, 'Mod': lambda: a % b, 'FloorDiv': lambda: a // b, 'Div': lambda: a / b, 'Pow': lambda: a ** b}[o]()
        if (isz(a) or isinstance(a, int)) and (isz(b) or isinstance(b, int)) and not isinstance(a, (str, tuple)):
            x, y = zint(a), zint(b)
            if o == 'Add': return x + y
            if o == 'Sub': return x - y
            if o == 'Mult': return x * y
            if o == 'Mod': return x % y
            if o == 'FloorDiv': return x / y
            raise OutOfFragment('operator ' + o)
        if o == 'Add' and (isinstance(a, (str, Rope, Chr)) and isinstance(b, (str, Rope, Chr))):
            return self.rope(a, b)
        if o == 'Add' and isinstance(a, (tuple, Seq)) and isinstance(b, (tuple, Seq)):
            if isinstance(a, tuple) and isinstance(b, tuple): v = type(a)(tuple(a) + tuple(b))
            else: v = self.concat(seq(a), seq(b), 'list' if isinstance(a, VList) or getattr(a, 'kind', '') == 'list' else 'tuple')
            return self.new_ref(v, 'list') if isinstance(v, VList) or getattr(v, 'kind', '') == 'list' else v
        if o == 'Mult' and isinstance(a, tuple) and len(a) == 1:
            k = zint(b); x = a[0]
            v = Seq(z3.If(k > 0, k, z3.IntVal(0)), lambda i: x, 'list' if isinstance(a, VList) else 'tuple')
            if isinstance(b, int): v = type(a)(tuple(a) * b)
            return self.new_ref(v, 'list') if isinstance(a, VList) else v
        if isinstance(a, Opaque) or isinstance(b, Opaque): return Opaque('?')
        raise OutOfFragment('operator %s on %s and %s' % (o, type(a).__name__, type(b).__name__))
    def rope(self, *xs):
        parts = []
        for x in xs:
            for p in (x.parts if isinstance(x, Rope) else [x] if isinstance(x, str) else [('chars', Seq(z3.IntVal(1), lambda i, x=x: x.code))]):
                if isinstance(p, str) and not p: continue
                if isinstance(p, str) and parts and isinstance(parts[-1], str): parts[-1] += p
                else: parts.append(p)
        return Rope(parts)
    def concat(self, a, b, kind='tuple'):
        def get(i):
            c = z3.simplify(zint(i) < a.n)
            if z3.is_true(c): return a.get(i)
            if z3.is_int_value(z3.simplify(a.n)) and z3.simplify(a.n).as_long() == 0: return b.get(i)
            if z3.is_int_value(z3.simplify(b.n)) and z3.simplify(b.n).as_long() == 0: return a.get(i)
            return merge(zint(i) < a.n, a.get(i), b.get(z3.simplify(zint(i) - a.n)))
        r = Seq(a.n + b.n, get, kind)
        r.parts = self.parts(a, z3.IntVal(0)) + self.parts(b, a.n)
        return r
    def parts(self, s, off):
        """(offset, sequence) of the pieces s is the concatenation of"""
        ps = getattr(s, 'parts', None)
        return [(z3.simplify(off + o), p) for o, p in ps] if ps else [(off, s)]
    def same_elem(self, a, b):
        """the same element, named twice (gives the solver the term)"""
        return a == b if isz(a) and isz(b) else z3.BoolVal(True)
    def fact_each(self, name, s, f):
        """f(position, element) at every position of s (stated per piece)"""
        for off, p in self.parts(s, z3.IntVal(0)):
            self.fact(name, I, lambda i, off=off, p=p: z3.Implies(z3.And(0 <= i, i < p.n), f(z3.simplify(off + i), p.get(i))))
    def e_Call(self, n):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            f = self.env.fn; return Super(f.qual.rsplit('.', 1)[0], self.var('self'))
        f = self.ev(n.func)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                w = self.get(self.ev(a.value))
                if isinstance(w, tuple): args += list(w)
                else: raise OutOfFragment('star argument')
            else: args.append(self.ev(a))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                w = self.get(self.ev(k.value))
                if not isinstance(w, dict): raise OutOfFragment('double star argument')
                kw.update(w)
            else: kw[k.arg] = self.ev(k.value)
        return self.call(f, args, kw)
    def comp(self, n, elt):
        if len(n.generators) != 1: raise OutOfFragment('nested comprehension')
        g = n.generators[0]
        s = self.iterate(self.ev(g.iter))
        env = self.env
        def fnode(expr):
            def fn(it, args, kw):
                e = Env('pure.comp', env, env.mod, env.fn); old = it.env; it.env = e
                try:
                    it.pbind(g.target, args[0]); return it.ev(expr)
                finally: it.env = old
            return PyFn(fn)
        for c in g.ifs: s = self.b_filter(fnode(c), s)
        return self.b_map(fnode(elt), s)
    def e_ListComp(self, n):
        r = self.comp(n, n.elt); r = self.get(r)
        return self.new_ref(Seq(r.n, r.get, 'list', r.distinct), 'list')
    def e_GeneratorExp(self, n): return self.comp(n, n.elt)
    def e_SetComp(self, n): return self.toset(self.comp(n, n.elt), 'set')
    def e_DictComp(self, n):
        t = ast.Tuple(elts=[n.key, n.value], ctx=ast.Load())
        return self.b_dict(self.comp(n, t))
    # -- statements
    def block(self, body):
        for st in body: self.st(st)
    def st(self, n):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None: raise OutOfFragment('statement %s' % type(n).__name__)
        m(n)
    def s_Expr(self, n):
        if isinstance(n.value, ast.Constant): return
        self.ev(n.value)
    def s_Pass(self, n): pass
    def s_Nonlocal(self, n): self.env.nonlocals |= set(n.names)
    def s_Global(self, n): raise OutOfFragment('global')
    def s_Import(self, n):
        for a in n.names: self.setvar(self.env, (a.asname or a.name).split('.')[0], Ext(a.name if a.asname else a.name.split('.')[0]))
    def s_ImportFrom(self, n):
        for a in n.names: self.setvar(self.env, a.asname or a.name, self.resolve(Ext(n.module + '.' + a.name), self.env.mod))
    def s_Return(self, n):
        raise Ret(self.ev(n.value) if n.value else None)
    def s_Break(self, n): raise Brk()
    def s_Continue(self, n): raise Cont()
    def s_FunctionDef(self, n):
        self.setvar(self.env, n.name, Fn(self.env.mod, n, self.env.mod + '.' + '.'.join(self.stack[-1:] + [n.name]), self.env))
    def s_ClassDef(self, n): self.setvar(self.env, n.name, Cls(self.env.mod, n, self.env.mod + '.' + n.name))
    def s_Assert(self, n):
        c = self.truth(self.ev(n.test))
        self.ctx.oblige('assert at line %d' % n.lineno if False else 'assertion in %s' % self.stack[-1], zval(c), 'assert')
    def s_Raise(self, n):
        x = n.exc
        nm = x.func if isinstance(x, ast.Call) else x
        raise PyThrown(nm.id if isinstance(nm, ast.Name) else getattr(nm, 'attr', 'Exception') if nm is not None else 'Exception')
    def s_If(self, n):
        c = self.decide(self.truth(self.ev(n.test)))
        self.block(n.body if c else n.orelse)
    def s_Try(self, n):
        if n.finalbody: raise OutOfFragment('finally')
        try: self.block(n.body)
        except PyThrown as e:
            for h in n.handlers:
                ts = [] if h.type is None else [x.id for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]) if isinstance(x, ast.Name)]
                if h.type is None or e.exc in ts or 'Exception' in ts or ('LookupError' in ts and e.exc in ('KeyError', 'IndexError')):
                    self.block(h.body); return
            raise
        self.block(n.orelse)
    def s_With(self, n):
        for w in n.items:
            v = self.ev(w.context_expr)
            if not isinstance(self.get(v), Opaque): raise OutOfFragment('with')
            if w.optional_vars is not None: self.assign(w.optional_vars, v)
        self.block(n.body)
    def unpack(self, v, k):
        w = self.get(v)
        if isinstance(w, tuple):
            if len(w) != k: raise PyThrown('ValueError')
            return list(w)
        if isinstance(w, Seq):
            w = self.iterate(v)
            self.guard(w.n == k, 'ValueError')
            return [w.get(z3.IntVal(i)) for i in range(k)]
        raise OutOfFragment('unpacking of %s' % type(w).__name__)
    def assign(self, t, v):
        if isinstance(t, ast.Name):
            e = self.env
            if t.id in e.nonlocals:
                e = e.parent
                while t.id not in e.vars: e = e.parent
            self.setvar(e, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            st = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if st:
                w = self.get(v)
                if not isinstance(w, tuple): raise OutOfFragment('starred unpacking')
                k = st[0]; after = len(t.elts) - k - 1
                if len(w) < len(t.elts) - 1: raise PyThrown('ValueError')
                vals = list(w[:k]) + [self.new_ref(VList(w[k:len(w) - after]), 'list')] + list(w[len(w) - after:])
                for x, y in zip(t.elts, vals): self.assign(x.value if isinstance(x, ast.Starred) else x, y)
                return
            for x, y in zip(t.elts, self.unpack(v, len(t.elts))): self.assign(x, y)
        elif isinstance(t, ast.Attribute):
            r = self.ev(t.value); o = self.get(r)
            if not isinstance(o, Obj): raise OutOfFragment('attribute assignment')
            d = dict(o.fields); d[t.attr] = v; self.put(r, Obj(o.cls, d))
        elif isinstance(t, ast.Subscript):
            # path of subscripts down to a reference
            path = []; x = t
            while isinstance(x, ast.Subscript): path.append(x.slice); x = x.value
            r = self.ev(x); path.reverse()
            while len(path) > 1 and isinstance(r, Ref):
                if isinstance(path[0], ast.Slice): break
                w = self.get(r)
                if isinstance(w, tuple) and not isinstance(path[0], ast.Slice):
                    y = self.item(r, self.ev(path[0]))
                    if isinstance(y, Ref): r = y; path.pop(0); continue
                break
            keys = [p if isinstance(p, ast.Slice) else self.ev(p) for p in path]
            self.put(r, self.updated(self.get(r), keys, v))
        else: raise OutOfFragment('assignment to %s' % type(t).__name__)
    def updated(self, w, keys, v):
        k, rest = keys[0], keys[1:]
        if isinstance(k, ast.Slice):
            if isinstance(w, VList) and not rest and k.step is None:
                lo, hi = (self.get(self.ev(x)) if x is not None else None for x in (k.lower, k.upper))
                new = self.get(v)
                if isinstance(new, tuple) and all(x is None or isinstance(x, int) for x in (lo, hi)):
                    l = list(w); l[lo:hi] = list(new); return VList(l)
            raise OutOfFragment('slice assignment')
        if isinstance(w, VList):
            i = self.get(k)
            if isinstance(i, int):
                if not -len(w) <= i < len(w): raise PyThrown('IndexError')
                l = list(w); l[i] = self.updated(l[i], rest, v) if rest else v; return VList(l)
            j = self.index_norm(i, z3.IntVal(len(w))); self.guard(z3.And(0 <= j, j < len(w)), 'IndexError')
            return VList(merge(j == q, (self.updated(x, rest, v) if rest else v), x) for q, x in enumerate(w))
        if isinstance(w, Seq):
            if w.kind != 'list': raise PyThrown('TypeError')
            j = self.index_norm(k, w.n); self.guard(z3.And(0 <= j, j < w.n), 'IndexError')
            new = self.updated(w.get(j), rest, v) if rest else self.get(v)
            return Seq(w.n, lambda i: merge(zint(i) == j, new, w.get(i)), 'list')
        if isinstance(w, PDict):
            e = self.elem(k)
            if rest: self.guard(S(w.has, e), 'KeyError')
            new = self.updated(w.val(e), rest, v) if rest else self.get(v)
            return PDict(z3.Store(w.has, e, z3.BoolVal(True)), lambda i: merge(i == e, new, w.val(i)))
        if isinstance(w, CDict) and not rest:
            if isinstance(k, str): d = CDict(w); d[k] = v; return d
            if not w:
                e = self.elem(k); new = self.get(v)
                return PDict(z3.Store(z3.K(e.sort(), z3.BoolVal(False)), e, z3.BoolVal(True)), lambda i: new)
        raise OutOfFragment('item assignment to %s' % type(w).__name__)
    def s_Assign(self, n):
        v = self.ev(n.value)
        for t in n.targets: self.assign(t, v)
    def s_AnnAssign(self, n):
        if n.value is not None: self.assign(n.target, self.ev(n.value))
    def s_AugAssign(self, n):
        o = type(n.op).__name__
        load = ast.copy_location(ast.parse(ast.unparse(n.target), mode='eval').body, n.target)
        l = self.ev(load); r = self.ev(n.value)
        w = self.get(l)
        if isinstance(l, Ref) and isinstance(w, (Seq, VList)) and o == 'Add': self.m_list_extend(l, r); return
        if isinstance(l, Ref) and isinstance(w, PSet):
            self.put(l, PSet(self.binop(o, w, self.get(r)).mem, w.kind)); return
        if isinstance(w, Seq) and w.kind == 'list' and not isinstance(l, Ref): raise OutOfFragment('in-place update of a nested list')
        self.assign(n.target, self.binop(o, l, r))
    def s_Delete(self, n):
        for t in n.targets:
            if not isinstance(t, ast.Subscript): raise OutOfFragment('del')
            r = self.ev(t.value); w = self.get(r); k = self.ev(t.slice)
            if isinstance(w, PDict):
                e = self.elem(k); self.guard(S(w.has, e), 'KeyError')
                self.put(r, PDict(z3.Store(w.has, e, z3.BoolVal(False)), w.val))
            else: self.m_list_pop(r, k)
    # -- loops
    def loop_spec(self, kind):
        fn = self.env.fn.qual if self.env.fn else '?'
        k = self.loopcount.get(kind, 0); self.loopcount[kind] = k + 1
        for pat, spec in self.loops.items():
            m = re.match(r'(.*?)#([a-z]+)(?:#(\d+))?$', pat)
            if re.fullmatch(m.group(1), fn) and m.group(2) == kind and (m.group(3) is None or int(m.group(3)) == k): return spec
        return None
    def s_For(self, n):
        if n.orelse: raise OutOfFragment('for ... else')
        v = self.ev(n.iter)
        w = self.get(v)
        spec = self.loop_spec('for')
        if isinstance(w, tuple) and spec is None:
            for x in w:
                self.assign(n.target, x)
                try: self.block(n.body)
                except Cont: continue
                except Brk: break
            return
        s = self.iterate(v)
        if s.n is None: raise OutOfFragment('loop over an infinite sequence')
        self.run_loop(('for', self.env.fn.qual, self.loopcount['for'], tuple(self.stack)), spec, s, n)
    def s_While(self, n):
        if n.orelse: raise OutOfFragment('while ... else')
        self.run_loop(('while', self.env.fn.qual, self.loopcount.get('while', 0), tuple(self.stack)), self.loop_spec('while'), None, n)
    def run_loop(self, key, spec, s, n):
        if spec is None: raise OutOfFragment('loop without invariant in %s' % self.env.fn.qual)
        if self.pure: raise OutOfFragment('loop inside a lazily evaluated function')
        ctx = self.ctx
        oldk = self.k
        self.k, self.loopseq = z3.IntVal(0), s
        if hasattr(spec, 'begin'): spec.begin(self)
        for nm, g in spec.inv(self): ctx.oblige('loop invariant holds initially [%s] %s' % (spec.name, nm), g, 'inv-init')
        before = set(self.cells)
        for c in self.modsets.get(key, []):
            if c in self.cells:
                old = self.cells[c]
                if isinstance(old, Ref):
                    # rebinding of a variable to a new container: arbitrary content, not shared
                    self.cells[c] = Ref(self.new_cell('havoc ' + c, fresh_like(ctx, c.split('@')[0].split('.')[-1], self.get(old))))
                elif hasattr(spec, 'shape') and spec.shape(self, c, old) is not None: self.cells[c] = spec.shape(self, c, old)
                else: self.cells[c] = fresh_like(ctx, c.split('@')[0].split('.')[-1].split('/')[-1], old)
                w = self.cells[c]
                if isinstance(w, Seq): ctx.assume(w.n >= 0)
        if s is not None:
            self.k = ctx.fresh_int('k'); ctx.assume(z3.And(0 <= self.k, self.k <= s.n)); ctx.terms.append(self.k)
        if hasattr(spec, 'havoc'): spec.havoc(self)
        for nm, g in spec.inv(self): ctx.assume(g)
        ctx.cover('loop head [%s]' % spec.name)
        self.loopstack.append((key, before))
        k0 = self.k
        try:
            if s is not None: go = self.decide(k0 < s.n)
            else: go = self.decide(self.truth(self.ev(n.test)))
            if not go:
                self.loopstack.pop()
                if hasattr(spec, 'exit'): spec.exit(self)
                self.k = oldk
                return
            try:
                if s is not None: self.assign(n.target, s.get(k0))
                if hasattr(spec, 'enter'): spec.enter(self)
                self.block(n.body)
            except Cont: pass
        except Brk:
            self.loopstack.pop(); self.k = k0
            if hasattr(spec, 'exit'): spec.exit(self)
            self.k = oldk
            return
        self.k = k0 + 1 if s is not None else None; self.loopseq = s
        if hasattr(spec, 'step'): spec.step(self)
        for nm, g in spec.inv(self): ctx.oblige('loop invariant is preserved [%s] %s' % (spec.name, nm), g, 'inv-step')
        raise PathEnd()
    # ---------------------------------------------------------------- library
    def b_len(self, v):
        w = self.get(v)
        if isinstance(w, (tuple, dict, str)): return len(w)
        if isinstance(w, Seq): return w.n
        if isinstance(w, PSet): return self.enum(w).n
        if isinstance(w, Obj):
            m = self.method(w.cls, '__len__')
            if m: return self.call_fn(m, [v], {})
            for pat, c in self.contracts.items():
                if re.fullmatch(pat, 'attr:' + w.cls.qual + '.__len__'): return c(self, [v], {})
        raise OutOfFragment('len of %s' % type(w).__name__)
    def b_tuple(self, v=()):
        w = self.get(v)
        if isinstance(w, tuple): return tuple(w)
        s = self.iterate(v)
        return Seq(s.n, s.get, 'tuple', s.distinct)
    def b_list(self, v=()):
        w = self.get(v)
        if isinstance(w, tuple): return self.new_ref(VList(w), 'list')
        s = self.iterate(v)
        if s.n is None: raise OutOfFragment('list of an infinite sequence')
        return self.new_ref(Seq(s.n, s.get, 'list', s.distinct), 'list')
    def b_iter(self, v):
        s = self.iterate(v); return self.new_ref(Seq(s.n, s.get, 'iter', s.distinct), 'iter')
    def b_frozenset(self, v=()): return self.toset(v, 'frozenset')
    def b_set(self, v=()): return self.new_ref(self.toset(v, 'set'), 'set')
    def b_bool(self, v): return self.truth(v)
    def b_int(self, v):
        w = self.get(v)
        if isinstance(w, int) or (isz(w) and w.sort() == I): return w
        if isinstance(w, (Seq, tuple, PDict, PSet, CDict)): raise PyThrown('TypeError')
        raise OutOfFragment('int')
    def b_hash(self, v):
        w = self.get(v)
        if isinstance(w, PSet): return z3.Function('hash', w.mem.sort(), I)(w.mem)
        raise OutOfFragment('hash')
    def b_chr(self, v):
        c = zint(v)
        self.guard(z3.And(0 <= c, c < 0x110000), 'ValueError')
        return Chr(c)
    def b_ord(self, v):
        w = self.get(v)
        return w.code if isinstance(w, Chr) else ord(w)
    def b_range(self, a, b=None, c=None):
        if c is not None: raise OutOfFragment('range step')
        lo, hi = (0, self.get(a)) if b is None else (self.get(a), self.get(b))
        if isinstance(lo, int) and isinstance(hi, int) and hi - lo < 12: return tuple(range(lo, hi))
        lo, hi = zint(lo), zint(hi)
        return Seq(z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0))), lambda i: z3.simplify(lo + zint(i)), 'range', True)
    def b_isinstance(self, v, t):
        ts = t if isinstance(t, tuple) else (t,)
        w = self.get(v)
        for x in ts:
            if isinstance(x, Cls):
                if isinstance(w, Obj) and w.cls.qual == x.qual: return True
                continue
            if not isinstance(x, Ext): raise OutOfFragment('isinstance')
            nm = x.path.replace('builtins.', '')
            for pat, c in self.contracts.items():
                if re.fullmatch(pat, 'isinstance:' + nm): return c(self, [v], {})
            kinds = {'set': lambda: isinstance(w, PSet) and w.kind == 'set', 'frozenset': lambda: isinstance(w, PSet) and w.kind == 'frozenset',
                     'list': lambda: isinstance(w, VList) or isinstance(w, Seq) and w.kind == 'list', 'tuple': lambda: isinstance(w, tuple) and not isinstance(w, VList) or isinstance(w, Seq) and w.kind == 'tuple',
                     'int': lambda: isinstance(w, int) or isz(w) and w.sort() == I, 'str': lambda: isinstance(w, (str, Rope)), 'dict': lambda: isinstance(w, (PDict, CDict)), 'bool': lambda: isinstance(w, bool) or isz(w) and w.sort() == B}
            if nm not in kinds: raise OutOfFragment('isinstance ' + nm)
            if isinstance(w, (Opaque, Opt)) or isz(w) and w.sort() == U: raise OutOfFragment('isinstance of an opaque value')
            if kinds[nm](): return True
        return False
    def b_type(self, v):
        w = self.get(v)
        return w.cls if isinstance(w, Obj) else Opaque('type')
    def b_map(self, f, *its):
        ss = [self.iterate(x) for x in its]
        if len(ss) == 1 and z3.is_expr(ss[0].n) and z3.is_int_value(z3.simplify(ss[0].n)) and z3.simplify(ss[0].n).as_long() <= 8 and not self.pure:
            s = ss[0]
            return tuple(self.call(f, [s.get(z3.IntVal(i))], {}) for i in range(z3.simplify(s.n).as_long()))
        n = self.minlen(ss)
        pend = []
        get = self.lazy(f, lambda i: [s.get(i) for s in ss], n, 'the mapped function', pend)
        r = Seq(n, get, 'tuple'); r.pending = pend
        return r
    def owed(self, pending, n):
        for vs, c, e, what in pending:
            c = z3.Implies(vs[0] < n, c)
            if self.pure: self.side.append((vs, c, e))
            else: self.ctx.oblige('%s is defined for every element' % what, FA('lzdef', vs_sorts(vs), lambda *ys, c=c, vs=vs: z3.substitute(c, *zip(vs, ys))), 'call-pre')
    def minlen(self, ss):
        ns = [s.n for s in ss if s.n is not None]
        if not ns: return None
        r = ns[0]
        for x in ns[1:]:
            if not z3.simplify(r == x).eq(z3.BoolVal(True)): r = z3.If(x < r, x, r)
        return r
    def b_itertools_starmap(self, f, it_):
        s = self.iterate(it_)
        return self.b_map(PyFn(lambda it, a, kw: it.call(f, list(it.tup(a[0])), {})), s)
    def tup(self, v):
        w = self.get(v)
        if isinstance(w, tuple): return w
        raise OutOfFragment('tuple expected')
    def b_zip(self, *its):
        ss = [self.iterate(x) for x in its]
        for k, s in enumerate(ss):
            if getattr(s, 'pending', None):
                # an endless sequence is evaluated as long as the sequences before it have elements
                if k == 0 or any(x.n is None for x in ss[:k]): raise OutOfFragment('zip of an infinite sequence')
                self.owed(s.pending, self.minlen(ss[:k]))
        return Seq(self.minlen(ss), lambda i: tuple(s.get(i) for s in ss), 'tuple', any(s.distinct for s in ss))
    def b_enumerate(self, v, start=0):
        s = self.iterate(v); return Seq(s.n, lambda i: (z3.simplify(zint(start) + zint(i)), s.get(i)), 'tuple', True)
    def b_itertools_count(self, start=0, step=1): return Seq(None, lambda i: z3.simplify(zint(start) + zint(i) * zint(step)), 'tuple', True)
    def b_itertools_repeat(self, x, times=None): return Seq(None if times is None else zint(times), lambda i: x, 'tuple')
    def b_itertools_chain(self, *its):
        ss = [self.iterate(x) for x in its]
        if not ss: return Seq(z3.IntVal(0), lambda i: None)
        r = ss[0]
        for s in ss[1:]: r = self.concat(r, s)
        return r
    def b_itertools_chain_from_iterable(self, v): return self.b_more_itertools_flatten(v)
    def b_reversed(self, v):
        s = self.iterate(v); return Seq(s.n, lambda i: s.get(s.n - 1 - zint(i)), 'tuple', s.distinct)
    def selection(self, s, keep, nm):
        """the subsequence of the elements at the positions with keep(i)"""
        ctx = self.ctx
        n = self.fresh(nm + '.n', I); src = self.fresh(nm + '.src', z3.ArraySort(I, I)); dst = self.fresh(nm + '.dst', z3.ArraySort(I, I))
        self.fact('', [], lambda: z3.And(n >= 0, n <= s.n))
        self.fact(nm, I, lambda j: z3.Implies(z3.And(0 <= j, j < n), z3.And(0 <= S(src, j), S(src, j) < s.n, zval(keep(S(src, j))), S(dst, S(src, j)) == j, S(src, j) >= j)))
        if getattr(s, 'parts', None):
            self.fact_each(nm + 'all', s, lambda i, x: z3.Implies(zval(keep(i)), z3.And(self.eq(s.get(i), x), 0 <= S(dst, i), S(dst, i) < n, S(src, S(dst, i)) == i)))
        else:
            self.fact(nm + 'all', I, lambda i: z3.Implies(z3.And(0 <= i, i < s.n, zval(keep(i))), z3.And(0 <= S(dst, i), S(dst, i) < n, S(src, S(dst, i)) == i)))
        self.fact(nm + 'mono', [I, I], lambda j, k: z3.Implies(z3.And(0 <= j, j < k, k < n), S(src, j) < S(src, k)))
        r = Seq(n, lambda j: s.get(S(src, zint(j))), 'tuple', s.distinct)
        r.src, r.dst, r.base = src, dst, s
        return r
    def b_filter(self, f, v):
        s = self.iterate(v)
        if s.n is None: raise OutOfFragment('filter of an infinite sequence')
        if f is None: f = PyFn(lambda it, a, kw: it.truth(a[0]))
        get = self.lazy(PyFn(lambda it, a, kw: zval(it.truth(it.call(f, a, kw)))), lambda i: [s.get(i)], s.n, 'the filter')
        return self.selection(s, get, 'filter')
    def b_more_itertools_unique_everseen(self, v):
        s = self.iterate(v)
        if s.distinct: return s
        if isinstance(s.n, z3.ExprRef) and z3.is_int_value(z3.simplify(s.n)) and z3.simplify(s.n).as_long() == 0: return Seq(z3.IntVal(0), s.get, 'tuple', True)
        ctx = self.ctx
        srt = self.elem(s.get(z3.IntVal(0))).sort()
        first = self.fresh('first', z3.ArraySort(srt, I))       # element -> position of its first occurrence
        n = self.fresh('uniq.n', I); src = self.fresh('uniq.src', z3.ArraySort(I, I)); at = self.fresh('uniq.at', z3.ArraySort(srt, I))
        self.fact('', [], lambda: z3.And(n >= 0, n <= s.n))
        def one(i, x):
            f = S(first, x); a = S(at, x)
            return z3.And(0 <= f, f <= i, s.get(f) == x, 0 <= a, a < n, S(src, a) == f)
        def res(j):
            i = S(src, j); x = s.get(i)
            return z3.Implies(z3.And(0 <= j, j < n), z3.And(j <= i, i < s.n, S(first, x) == i, S(at, x) == j))
        self.fact_each('uniqall', s, one)
        self.fact('uniq', I, res)
        self.fact('uniqmono', [I, I], lambda j, k: z3.Implies(z3.And(0 <= j, j < k, k < n), S(src, j) < S(src, k)))
        r = Seq(n, lambda j: s.get(S(src, zint(j))), 'tuple', True)
        r.src, r.base, r.first, r.at = src, s, first, at
        return r
    def b_more_itertools_flatten(self, v):
        s = self.iterate(v)
        k = z3.simplify(s.n)
        if z3.is_int_value(k) and k.as_long() <= 8:
            return self.b_itertools_chain(*[s.get(z3.IntVal(i)) for i in range(k.as_long())])
        probe = self.get(s.get(z3.Const('pb!%d' % next(_BV), I)))
        if isinstance(probe, tuple):
            m = len(probe)
            return Seq(s.n * m, lambda i: seq(tuple(s.get(zint(i) / m))).get(zint(i) % m), 'tuple')
        if not isinstance(probe, (Seq, Opt)): raise OutOfFragment('flatten of %s' % type(probe).__name__)
        ctx = self.ctx
        row = lambda i: seq(s.get(i))
        n = self.fresh('flat.n', I); ow = self.fresh('flat.row', z3.ArraySort(I, I)); of = self.fresh('flat.col', z3.ArraySort(I, I))
        pos2 = self.fresh('flat.pos', z3.ArraySort(I, z3.ArraySort(I, I)))
        pos = lambda i, j: S(S(pos2, i), j)
        self.fact('', [], lambda: n >= 0)
        if self.opts.get('flat_max') is not None: self.fact('', [], lambda: n <= self.opts['flat_max'])     # the input is not larger (assumption of the unit)
        self.fact('flat', I, lambda k: z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= S(ow, k), S(ow, k) < s.n, 0 <= S(of, k), S(of, k) < row(S(ow, k)).n, pos(S(ow, k), S(of, k)) == k)))
        self.fact('flatall', [I, I], lambda i, j: z3.Implies(z3.And(0 <= i, i < s.n, 0 <= j, j < row(i).n), z3.And(0 <= pos(i, j), pos(i, j) < n, S(ow, pos(i, j)) == i, S(of, pos(i, j)) == j, self.same_elem(row(S(ow, pos(i, j))).get(S(of, pos(i, j))), row(i).get(j)))))
        r = Seq(n, lambda k: row(S(ow, zint(k))).get(S(of, zint(k))), 'tuple')
        r.row, r.col, r.pos, r.base = ow, of, pos, s
        return r
    def b_sorted(self, v, key=None, reverse=False):
        if key is not None or reverse is not False: raise OutOfFragment('sorted with a key')
        w = self.get(v)
        if isinstance(w, tuple) and len(w) == 2:
            a, b = (zint(self.get(x)) for x in w)
            return self.new_ref(VList((z3.If(a <= b, a, b), z3.If(a <= b, b, a))), 'list')
        s = self.iterate(v)
        ctx = self.ctx
        if zint(s.get(z3.IntVal(0))).sort() != I: raise OutOfFragment('sorted')
        a = self.fresh('sorted', z3.ArraySort(I, I)); p = self.fresh('sorted.src', z3.ArraySort(I, I)); q = self.fresh('sorted.dst', z3.ArraySort(I, I))
        n = s.n
        self.fact('sorted', I, lambda j: z3.Implies(z3.And(0 <= j, j < n), z3.And(0 <= S(p, j), S(p, j) < n, S(a, j) == s.get(S(p, j)), S(q, S(p, j)) == j)))
        self.fact('sortedall', I, lambda i: z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= S(q, i), S(q, i) < n, S(p, S(q, i)) == i)))
        self.fact('sortedmono', [I, I], lambda j, k: z3.Implies(z3.And(0 <= j, j < k, k < n), S(a, j) < S(a, k) if s.distinct else S(a, j) <= S(a, k)))
        return self.new_ref(Seq(n, lambda i: S(a, zint(i)), 'list', s.distinct), 'list')
    def quant(self, v, want):
        """all (want=True) / any (want=False)"""
        s = self.iterate(v)
        k = z3.simplify(s.n)
        if z3.is_int_value(k) and k.as_long() <= 12:
            xs = [self.truth(s.get(z3.IntVal(i))) for i in range(k.as_long())]
            if all(isinstance(x, bool) for x in xs): return (all if want else any)(xs)
            return (z3.And if want else z3.Or)(*[zval(x) for x in xs])
        if self.pure: raise OutOfFragment('all/any inside a lazily evaluated function')
        t = lambda i: zval(self.truth(s.get(i))) if want else z3.Not(zval(self.truth(s.get(i))))
        r = self.ctx.fresh_bool('all' if want else 'any')
        if self.decide(r if want else z3.Not(r)):
            self.ctx.assume(FA('quant', I, lambda i: z3.Implies(z3.And(0 <= i, i < s.n), t(i)))); return want
        self.ctx.assume(EX('quant', I, lambda i: z3.And(0 <= i, i < s.n, z3.Not(t(i))))); return not want
    def b_all(self, v): return self.quant(v, True)
    def b_any(self, v): return self.quant(v, False)
    def b_max(self, *a, **kw): return self.extreme(a, kw, True)
    def b_min(self, *a, **kw): return self.extreme(a, kw, False)
    def extreme(self, a, kw, mx):
        if kw: raise OutOfFragment('max/min with options')
        if len(a) == 1:
            w = self.get(a[0])
            if isinstance(w, tuple): a = w
            else:
                s = self.iterate(a[0])
                self.guard(s.n > 0, 'ValueError')
                m = self.ctx.fresh_int('max' if mx else 'min'); at = self.ctx.fresh_int('argmax')
                if self.pure: raise OutOfFragment('max inside a lazily evaluated function')
                self.ctx.assume(z3.And(0 <= at, at < s.n, zint(s.get(at)) == m)); self.ctx.terms.append(at)
                self.ctx.assume(FA('max', I, lambda i: z3.Implies(z3.And(0 <= i, i < s.n), zint(s.get(i)) <= m if mx else zint(s.get(i)) >= m)))
                return m
        xs = [self.get(x) for x in a]
        if all(isinstance(x, int) for x in xs): return max(xs) if mx else min(xs)
        r = zint(xs[0])
        for x in xs[1:]: r = z3.If((zint(x) > r) if mx else (zint(x) < r), zint(x), r)
        return r
    def b_dict(self, v=(), **kw):
        w = self.get(v)
        if isinstance(w, (PDict, CDict)): return self.new_ref(w if isinstance(w, PDict) else CDict(w), 'dict')
        if isinstance(w, tuple) and not w: return self.new_ref(CDict(kw), 'dict')
        s = self.iterate(v)
        ctx = self.ctx
        pair = lambda i: self.tup(s.get(i))
        key = lambda i: self.elem(pair(i)[0])
        ks = key(z3.IntVal(0)).sort()
        has = self.fresh('dict.has', z3.ArraySort(ks, B)); at = self.fresh('dict.at', z3.ArraySort(ks, I))
        self.fact('dictin', I, lambda i: z3.Implies(z3.And(0 <= i, i < s.n), z3.And(S(has, key(i)), S(at, key(i)) >= i)))
        self.fact('dictkey', ks, lambda x: z3.Implies(S(has, x), z3.And(0 <= S(at, x), S(at, x) < s.n, key(S(at, x)) == x)))
        # the last pair with a key wins
        d = PDict(has, lambda x: pair(S(at, x))[1])
        d.at = at
        return self.new_ref(d, 'dict')
    def b_types_MappingProxyType(self, v): return v
    def b_operator_itemgetter(self, *ks):
        return PyFn(lambda it, a, kw: it.item(a[0], ks[0]) if len(ks) == 1 else tuple(it.item(a[0], k) for k in ks))
    def b_functools_partial(self, f, *a, **kw): return PyFn(lambda it, b, kw2: it.call(f, list(a) + list(b), dict(kw, **kw2)))
    def b_rich_progress_track(self, v, *a, **kw): return v
    def b_rich_progress_Progress(self, *a, **kw): return Opaque('progress')
    def b_rich_console_Console(self, *a, **kw): return Opaque('console')
    def b_warnings_warn(self, *a, **kw): return None
    def b_bisect_bisect_left(self, v, x):
        s = self.iterate(v); x = zint(self.get(x))
        if self.pure: raise OutOfFragment('bisect inside a lazily evaluated function')
        ctx = self.ctx
        ctx.oblige('bisect: the list is sorted', FA('bsorted', [I, I], lambda j, k: z3.Implies(z3.And(0 <= j, j < k, k < s.n), s.get(j) <= s.get(k))), 'call-pre')
        r = ctx.fresh_int('bisect'); ctx.terms.append(r)
        ctx.assume(z3.And(0 <= r, r <= s.n))
        ctx.assume(FA('bisect', I, lambda j: z3.Implies(z3.And(0 <= j, j < s.n), z3.If(j < r, s.get(j) < x, s.get(j) >= x))))
        return r
    # -- methods
    def m_list_append(self, r, x):
        w = self.get(r)
        if isinstance(w, VList) and len(w) < 6 and not self.loopstack: self.put(r, VList(tuple(w) + (x,))); return
        s = seq(w)
        if s.n is not None and z3.is_int_value(z3.simplify(s.n)) and z3.simplify(s.n).as_long() == 0:
            x1 = self.get(x); self.put(r, Seq(z3.IntVal(1), lambda i: x1, 'list')); return
        x = self.get(x); n = s.n
        self.put(r, Seq(n + 1, lambda i: merge(z3.simplify(zint(i) == n), x, s.get(i)), 'list'))
    def m_list_extend(self, r, v):
        w = self.get(r); s = self.iterate(v)
        if s.n is None: raise OutOfFragment('extend by an infinite sequence')
        if isinstance(w, VList) and not w: self.put(r, Seq(s.n, s.get, 'list', s.distinct)); return
        self.put(r, self.concat(seq(w), s, 'list'))
    def m_list_pop(self, r, i=-1):
        w = self.get(r)
        if isinstance(w, VList) and isinstance(i, int):
            if not -len(w) <= i < len(w): raise PyThrown('IndexError')
            l = list(w); x = l.pop(i); self.put(r, VList(l)); return x
        s = seq(w)
        j = self.index_norm(i, s.n)
        self.guard(z3.And(0 <= j, j < s.n), 'IndexError')
        x = s.get(j)
        self.put(r, Seq(s.n - 1, lambda k: merge(zint(k) < j, s.get(k), s.get(zint(k) + 1)), 'list', s.distinct))
        return x
    def m_list_index(self, r, x):
        s = seq(self.get(r)) if not isinstance(self.get(r), tuple) else seq(self.get(r))
        if self.pure: raise OutOfFragment('index inside a lazily evaluated function')
        ctx = self.ctx
        k = ctx.fresh_int('index'); ctx.terms.append(k)
        found = ctx.fresh_bool('found')
        e = lambda i: zval(self.eq(s.get(i), x))
        ok = FA('absent', I, lambda i: z3.Implies(z3.And(0 <= i, i < s.n), z3.Not(e(i))))
        # is it provably present?
        saved = list(ctx.hyps); ctx.hyps.append(ok)
        present = self.entails(z3.BoolVal(False)) if False else self.contradictory(ctx.hyps)
        ctx.hyps[:] = saved
        if present or self.decide(found):
            ctx.assume(z3.And(0 <= k, k < s.n, e(k)))
            ctx.assume(FA('earlier', I, lambda i: z3.Implies(z3.And(0 <= i, i < k), z3.Not(e(i)))))
            return k
        ctx.assume(ok)
        raise PyThrown('ValueError')
    def contradictory(self, hyps):
        for rounds in (1, 2):
            r, _ = check_unsat(ground(hyps, [], self.ctx.terms, rounds, cap=1500), 1500)
            if r == z3.unsat: return True
        return False
    def m_list_copy(self, r): return self.b_list(self.get(r))
    def m_list_insert(self, r, i, x):
        s = seq(self.get(r)); x = self.get(x)
        j = self.index_norm(i, s.n); j = z3.If(j > s.n, s.n, j)
        self.put(r, Seq(s.n + 1, lambda k: merge(zint(k) < j, s.get(k), merge(zint(k) == j, x, s.get(zint(k) - 1))), 'list'))
    def m_set_union(self, r, *vs):
        m = self.get(r)
        for v in vs: m = self.binop('BitOr', m, self.toset(v))
        return m
    def m_set_intersection(self, r, *vs):
        m = self.get(r)
        for v in vs: m = self.binop('BitAnd', m, self.toset(v))
        return m
    def m_set_difference(self, r, *vs):
        m = self.get(r)
        for v in vs: m = self.binop('Sub', m, self.toset(v))
        return m
    def m_set_symmetric_difference(self, r, v): return self.binop('BitXor', self.get(r), self.toset(v))
    def m_set_isdisjoint(self, r, v): return self.seteq(PSet(z3.SetIntersect(self.get(r).mem, self.toset(v).mem)), PSet(z3.K(self.get(r).dom, z3.BoolVal(False))))
    def m_set_issubset(self, r, v): return self.setsub(self.get(r), self.toset(v))
    def m_set_issuperset(self, r, v): return self.setsub(self.toset(v), self.get(r))
    def m_set_add(self, r, x):
        w = self.get(r); self.put(r, PSet(z3.Store(w.mem, self.elem(x), z3.BoolVal(True)), w.kind))
    def m_set_copy(self, r): return self.get(r)
    def m_dict_get(self, r, k, d=None):
        w = self.get(r); e = self.elem(k)
        if e.sort() != w.has.sort().domain(): return d
        if not self.pure and self.entails(S(w.has, e)): return w.val(e)
        return merge(S(w.has, e), w.val(e), self.get(d))
    def m_dict_values(self, r):
        w = self.get(r); s = self.iterate(r); return Seq(s.n, lambda i: w.val(s.get(i)))
    def m_dict_keys(self, r): return PSet(self.get(r).has)
    def m_dict_items(self, r):
        w = self.get(r); s = self.iterate(r); return Seq(s.n, lambda i: (s.get(i), w.val(s.get(i))), 'tuple', True)
    def m_dict_pop(self, r, k, *d):
        w = self.get(r); e = self.elem(k)
        if not d: self.guard(S(w.has, e), 'KeyError')
        v = w.val(e) if not d else merge(S(w.has, e), w.val(e), self.get(d[0]))
        self.put(r, PDict(z3.Store(w.has, e, z3.BoolVal(False)), w.val)); return v
    def m_cdict_pop(self, r, k, *d):
        w = self.get(r)
        if k in w:
            v = w[k]; n = CDict(w); del n[k]
            if isinstance(r, Ref): self.put(r, n)
            else: w.pop(k)
            return v
        if d: return d[0]
        raise PyThrown('KeyError')
    def m_cdict_get(self, r, k, d=None): return self.get(r).get(k, d)
    def m_str_join(self, r, v):
        sep = self.get(r)
        s = self.iterate(v)
        p = self.get(s.get(z3.Const('pb!%d' % next(_BV), I)))
        if sep == '' and isinstance(p, (Chr, Opt)):
            def code(i):
                x = s.get(i)
                if isinstance(x, Opt): x = x.val
                return x.code
            if isinstance(p, Opt):
                if not isinstance(p.val, Chr): raise OutOfFragment('join')
                k = z3.Const('jn!%d' % next(_BV), I)
                c = z3.Implies(z3.And(0 <= k, k < s.n), s.get(k).has)
                if self.pure: self.side.append(([k], c, 'TypeError'))
                else: self.ctx.oblige('every joined element is a character', FA('joindef', I, lambda i: z3.substitute(c, (k, zval(i)))), 'call-pre')
            return Rope([('chars', Seq(s.n, code))])
        if isinstance(sep, str) and isinstance(p, Rope): return Rope([('join', sep, s)])
        raise OutOfFragment('join')
    def m_str_format(self, r, *a, **kw): return Opaque('str')
