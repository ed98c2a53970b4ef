"""Symbolic values shared by the C++ interpreter and the contracts."""
import z3
I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
SET = z3.ArraySort(I, B)

class Val:
    """Base of structured values; leaves are z3 terms."""
    pass

class Rec(Val):
    def __init__(self, tname, fields): self.tname, self.fields = tname, fields
    def map(self, f): return Rec(self.tname, {k: vmap(v, f) for k, v in self.fields.items()})
    def __getattr__(self, k):
        try: return self.__dict__['fields'][k]
        except KeyError: raise AttributeError(k)
    def __repr__(self): return '%s%r' % (self.tname, self.fields)

class Tup(Val):
    """pair / tuple / std::array: fixed number of components."""
    def __init__(self, items): self.items = list(items)
    def map(self, f): return Tup([vmap(v, f) for v in self.items])
    def __repr__(self): return 'Tup%r' % (self.items,)

class Vec(Val):
    """std::vector: length and element value lifted to arrays indexed by position."""
    def __init__(self, len, el): self.len, self.el = len, el
    def map(self, f): return Vec(f(self.len), vmap(self.el, f))
    def __repr__(self): return 'Vec(%s,%r)' % (self.len, self.el)

class SetV(Val):
    """Bitset: membership and size."""
    def __init__(self, mem, size): self.mem, self.size = mem, size
    def map(self, f): return SetV(f(self.mem), f(self.size))
    def __repr__(self): return 'SetV(%s)' % (self.mem,)

class Opt(Val):
    def __init__(self, has, val): self.has, self.val = has, val
    def map(self, f): return Opt(f(self.has), vmap(self.val, f))

class Variant(Val):
    def __init__(self, tag, alts): self.tag, self.alts = tag, alts
    def map(self, f): return Variant(f(self.tag), [vmap(a, f) for a in self.alts])

class Opaque(Val):
    """A value about which nothing is known (prng, streams, message strings)."""
    def __init__(self, name='?'): self.name = name
    def map(self, f): return self
    def __repr__(self): return 'Opaque(%s)' % self.name

class Ptr(Val):
    def __init__(self, ok, lv): self.ok, self.lv = ok, lv
    def map(self, f): return self

class Clo(Val):
    def __init__(self, node, caps): self.node, self.caps = node, caps
    def map(self, f): return self

class PyFn(Val):
    """A callable given by the contract (pre-bound spec behaviour): fn(interp, args) -> value."""
    def __init__(self, fn): self.fn = fn
    def map(self, f): return self

def vmap(v, f):
    if isinstance(v, Val): return v.map(f)
    return f(v)

def vsel(v, i): return vmap(v, lambda a: z3.Select(a, i))
def vsto(v, i, x):
    """v lifted, x a value of the same shape."""
    return vzip(v, x, lambda a, b: z3.Store(a, i, b))

def vzip(a, b, f):
    if isinstance(a, Rec): return Rec(a.tname, {k: vzip(a.fields[k], b.fields[k], f) for k in a.fields})
    if isinstance(a, Tup):
        assert len(a.items) == len(b.items)
        return Tup([vzip(x, y, f) for x, y in zip(a.items, b.items)])
    if isinstance(a, Vec): return Vec(f(a.len, b.len), vzip(a.el, b.el, f))
    if isinstance(a, SetV): return SetV(f(a.mem, b.mem), f(a.size, b.size))
    if isinstance(a, Opt): return Opt(f(a.has, b.has), vzip(a.val, b.val, f))
    if isinstance(a, Variant): return Variant(f(a.tag, b.tag), [vzip(x, y, f) for x, y in zip(a.alts, b.alts)])
    if isinstance(a, Opaque): return a
    if isinstance(a, Val): raise TypeError('vzip %r' % a)
    return f(a, coerce(b, a.sort().range() if z3.is_array(a) and not (z3.is_expr(b) and z3.is_array(b) and b.sort() == a.sort()) else a.sort()))

def coerce(x, sort):
    if isinstance(x, bool): x = z3.BoolVal(x)
    elif isinstance(x, int): x = z3.IntVal(x)
    elif isinstance(x, float): x = z3.RealVal(repr(x))
    if x.sort() == sort: return x
    if sort == R and x.sort() == I: return z3.ToReal(x)
    if sort == R and x.sort() == B: return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    if sort == I and x.sort() == B: return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    if sort == B and x.sort() == I: return x != 0
    if sort == B and x.sort() == R: return x != 0
    return x

def vite(c, a, b):
    return vzip(a, b, lambda x, y: z3.If(c, x, coerce(y, x.sort())))

def veq(a, b):
    """Equality of all leaves (vectors: same length and same arrays)."""
    out = []
    def f(x, y):
        out.append(x == y); return x
    vzip(a, b, f)
    return z3.And(*out) if out else z3.BoolVal(True)

# ---- shapes: build symbolic values
def sh_int(): return ('int',)
def mk(shape, name, fresh):
    """shape: 'int','real','bool','set', ('vec',s), ('rec',tname,{f:s}), ('tup',[s]), ('opt',s), ('var',[s]), ('const',val), 'opaque'"""
    return _mk(shape, name, fresh, [])

def _arr(dims, sort):
    for d in reversed(dims): sort = z3.ArraySort(I, sort)
    return sort

def _mk(sh, name, fresh, dims):
    if sh == 'int': return fresh(name, _arr(dims, I))
    if sh == 'real': return fresh(name, _arr(dims, R))
    if sh == 'bool': return fresh(name, _arr(dims, B))
    if sh == 'rawset': return fresh(name, _arr(dims, SET))
    if sh == 'set': return SetV(fresh(name, _arr(dims, SET)), fresh(name + '.size', _arr(dims, I)))
    if sh == 'opaque': return Opaque(name)
    k = sh[0]
    if k == 'sort': return fresh(name, _arr(dims, sh[1]))
    if k == 'vec': return Vec(fresh(name + '.len', _arr(dims, I)), _mk(sh[1], name, fresh, dims + [0]))
    if k == 'arr': return _mk(sh[1], name, fresh, dims + [0])   # bare array (ghost)
    if k == 'rec': return Rec(sh[1], {f: _mk(s, name + '.' + f, fresh, dims) for f, s in sh[2].items()})
    if k == 'tup': return Tup([_mk(s, '%s.%d' % (name, i), fresh, dims) for i, s in enumerate(sh[1])])
    if k == 'opt': return Opt(fresh(name + '.has', _arr(dims, B)), _mk(sh[1], name, fresh, dims))
    if k == 'var': return Variant(fresh(name + '.tag', _arr(dims, I)), [_mk(s, '%s.alt%d' % (name, i), fresh, dims) for i, s in enumerate(sh[1])])
    if k == 'const': return sh[1]
    raise ValueError(sh)

def set_union(a, b): return z3.SetUnion(a, b)
def set_inter(a, b): return z3.SetIntersect(a, b)
def set_diff(a, b): return z3.SetIntersect(a, z3.SetComplement(b))
def set_xor(a, b): return z3.SetUnion(set_diff(a, b), set_diff(b, a))
EMPTY = z3.K(I, z3.BoolVal(False))
def subset(a, b): return z3.IsSubset(a, b)
