"""Contracts of include/tnco/bitset.hpp, the functions themselves and their Python bindings (C10)."""
import z3
from vcgen.core import *
from vcgen.vals import *
from vcgen.run import Unit
from vcgen.cxxexec import LV, NPOS
from . import bitset
from .tree import rng

S = z3.Select
def bs(it, name):
    """A bitset: members below its size; sizes are smaller than npos."""
    s = mk('set', name, it.ctx.fresh)
    wf_bs(it, s)
    return s
def wf_bs(it, s):
    it.ctx.assume(z3.And(s.size >= 0, s.size < NPOS))
    it.ctx.assume(FA('members', I, lambda i: z3.Implies(S(s.mem, i), rng(i, 0, s.size))))
def val(it, r): return it.read(r) if isinstance(r, LV) else r

class VisitLoop:
    name = 'visit'
    def __init__(self, st): self.st = st
    def begin(self, it): self.key = it.cur_loop
    def inv(self, it):
        st = self.st; s = st['s']; done = it.read(st['ghost']).done
        p = it.read(self.pos(it))
        return [('position', z3.Or(p == NPOS, z3.And(rng(p, 0, s.size), S(s.mem, p)))),
                ('the members before the position were visited', FA('done', I, lambda j: z3.Implies(rng(j, 0, s.size), S(done, j) == z3.And(S(s.mem, j), j < p)))),
                ('nothing else was visited', FA('done2', I, lambda j: z3.Implies(S(done, j), rng(j, 0, s.size))))]
    def pos(self, it):
        d = it.names.get('p_')
        if d is not None and d in it.env: return it.env[d]
        c = [LV(x) for x in it.cells if '@' in x and z3.is_expr(it.cells[x]) and it.cells[x].sort() == I]
        if len(c) == 1: return c[0]
        raise OutOfFragment('position of the loop not identified')

def unit_visit():
    st = {}
    def body(it):
        ctx = it.ctx
        fns = it.ast.find(r'Bitset<>::visit<', unique=False)
        fns = [f for f in fns if 'std::function' in f['_full']] or fns[:1]
        if len(fns) != 1: raise OutOfFragment('visit not found')
        s = bs(it, 'this'); this = it.new_cell('this', s)
        st['s'] = s; st['ghost'] = it.new_cell('ghost', Rec('ghost', {'done': EMPTY}))
        def cb(it2, args):
            k = val(it2, args[0]); done = it2.read(st['ghost']).done
            it2.ctx.terms.append(k)
            it2.ctx.oblige('the callback gets members', z3.And(rng(k, 0, s.size), S(s.mem, k)), 'post-call')
            it2.ctx.oblige('in increasing order, each once', FA('incr', I, lambda j: z3.Implies(S(done, j), j < k)), 'post-call')
            it2.write(st['ghost'], Rec('ghost', {'done': z3.Store(done, k, z3.BoolVal(True))}))
            return None
        ctx.cover('visit: precondition')
        it.call_fn(fns[0], [PyFn(cb)], this)
        ctx.cover('visit: exit')
        ctx.oblige('every member is visited', FA('all', I, lambda j: S(s.mem, j) == S(it.read(st['ghost']).done, j)), 'post')
        ctx.oblige('the bitset is not modified', veq(s, it.read(this)), 'post')
    return Unit('Bitset::visit', ['C10'], body, loops={r'.*visit#for': VisitLoop(st), r'.*visit#while': VisitLoop(st)}, opts={'throw': 'violation'})

class PositionsLoop:
    name = 'positions'; done = True
    def __init__(self, st): self.st = st
    def vec(self, it):
        d = it.names.get('pos')
        if d is not None and d in it.env: return it.env[d]
        c = [LV(x) for x in it.cells if '@' in x and isinstance(it.cells[x], Vec)]
        if len(c) == 1: return c[0]
        raise OutOfFragment('list of positions not identified')
    def inv(self, it, done):
        v = it.read(self.vec(it)); idx = it.read(self.st['ghost']).idx
        if it.cur_elem is not None:
            idx = z3.Store(idx, it.cur_elem, v.len - 1); it.write(self.st['ghost'], Rec('ghost', {'idx': idx}))
            it.ctx.terms.append(v.len - 1)
        return positions_inv(v, idx, done, self.st['s'])

def positions_inv(v, idx, done, s):
    return [('length', v.len >= 0),
            ('entries are visited members, in increasing order', FA('entries', I, lambda j: z3.Implies(rng(j, 0, v.len), z3.And(rng(S(v.el, j), 0, s.size), S(done, S(v.el, j)), S(idx, S(v.el, j)) == j)))),
            ('increasing', FA('incr', [I, I], lambda i, j: z3.Implies(z3.And(0 <= i, i < j, j < v.len), S(v.el, i) < S(v.el, j)))),
            ('every visited member is listed', FA('listed', I, lambda k: z3.Implies(z3.And(rng(k, 0, s.size), S(done, k)), z3.And(rng(S(idx, k), 0, v.len), S(v.el, S(idx, k)) == k))))]

def unit_positions():
    st = {}
    def body(it):
        ctx = it.ctx
        fn = it.ast.find1(r'Bitset<>::positions\(\) const$')
        s = bs(it, 'this'); this = it.new_cell('this', s); st['s'] = s
        st['ghost'] = it.new_cell('ghost', Rec('ghost', {'idx': ctx.fresh('idx', z3.ArraySort(I, I))}))
        ctx.cover('positions: precondition')
        v = val(it, it.call_fn(fn, [], this))
        ctx.cover('positions: exit')
        for nm, g in positions_inv(v, it.read(st['ghost']).idx, s.mem, s): ctx.oblige('exactly the members: ' + nm, g, 'post')
        ctx.oblige('the bitset is not modified', veq(s, it.read(this)), 'post')
    return Unit('Bitset::positions', ['C10'], body, contracts=bitset.CALLS_VISIT, loops={r'.*positions#visit': PositionsLoop(st)}, opts={'throw': 'violation'})

# ---------------------------------------------------------------- algebra and bindings
def setres(m): return lambda x, y: ('set', m(x.mem, y.mem))
SPEC = {   # Python name -> meaning, on sets of positions
    '__and__': setres(set_inter), '__or__': setres(set_union), '__xor__': setres(set_xor), '__sub__': setres(set_diff),
    '__eq__': lambda x, y: ('bool', x.mem == y.mem),
    'isdisjoint': lambda x, y: ('bool', set_inter(x.mem, y.mem) == EMPTY),
    'issubset': lambda x, y: ('bool', subset(x.mem, y.mem)), '__le__': lambda x, y: ('bool', subset(x.mem, y.mem)),
    'issuperset': lambda x, y: ('bool', subset(y.mem, x.mem)), '__ge__': lambda x, y: ('bool', subset(y.mem, x.mem)),
    '__lt__': lambda x, y: ('bool', z3.And(subset(x.mem, y.mem), x.mem != y.mem)), '__gt__': lambda x, y: ('bool', z3.And(subset(y.mem, x.mem), x.mem != y.mem)),
}

def bindings(ast):
    """name -> callable node, from the calls .def("name", f) of tnco::bitset::init<>"""
    fn = [n for d, n in ast.full.items() if 'tnco::bitset::init<>' in d and n['kind'] == 'FunctionDecl']
    if len(fn) != 1: raise OutOfFragment('tnco::bitset::init not found')
    out = {}
    stack = [fn[0]]
    while stack:
        x = stack.pop()
        if not isinstance(x, dict): continue
        if x.get('kind') == 'CXXMemberCallExpr':
            inner = x['inner']; cal = inner[0]
            if cal.get('kind') == 'MemberExpr' and cal.get('name') == 'def' and len(inner) >= 2:
                nm = strip(inner[1])
                if nm.get('kind') == 'CallExpr':
                    ls = [y for y in map(strip, nm['inner'][1:]) if y.get('kind') == 'LambdaExpr']
                    if len(ls) == 2: out['pickle'] = ls
                if nm.get('kind') == 'StringLiteral': out[nm['value'].strip('"')] = strip(inner[2])
        stack.extend(x.get('inner', ()))
    return out
def strip(n):
    while n.get('kind') in ('ImplicitCastExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ParenExpr', 'CXXFunctionalCastExpr') and n.get('inner'): n = n['inner'][-1]
    return n

def apply(it, node, args):
    """Runs the bound callable: a lambda, or a pointer to a member function."""
    if node['kind'] == 'LambdaExpr':
        return val(it, it.call_value(Clo(node, {}), args))
    if node['kind'] == 'UnaryOperator' and node.get('opcode') == '&':
        d = node['inner'][0]
        while d.get('kind') not in ('DeclRefExpr', None): d = d['inner'][0]
        fn = it.ast.by_id.get(d['referencedDecl']['id'])
        if fn is None or not fn.get('_body'): raise OutOfFragment('bound member without a body')
        return val(it, it.call_fn(fn, args[1:], args[0]))
    raise OutOfFragment('bound %s' % node['kind'])

def unit_algebra():
    def body(it):
        ctx = it.ctx
        bnd = bindings(it.ast)
        names = sorted(SPEC)
        nm = names[ctx.choose(len(names))]
        if nm not in bnd: raise OutOfFragment('binding %s not found' % nm)
        x, y = bs(it, 'x'), bs(it, 'y')
        ctx.assume(x.size == y.size)
        cx, cy = it.new_cell('x', x), it.new_cell('y', y)
        ctx.cover('Bitset.%s: precondition' % nm)
        r = apply(it, bnd[nm], [cx, cy])
        kind, want = SPEC[nm](x, y)
        if kind == 'set':
            ctx.oblige('%s: members' % nm, r.mem == want, 'post'); ctx.oblige('%s: size' % nm, r.size == x.size, 'post')
        else: ctx.oblige('%s: answer' % nm, it.as_bool(r) == want, 'post')
        ctx.oblige('%s: operands are not modified' % nm, z3.And(veq(x, it.read(cx)), veq(y, it.read(cy))), 'post')
    return Unit('Bitset algebra (bindings)', ['C10'], body, opts={'throw': 'violation'})

def unit_unary():
    """__invert__, __len__, __getitem__, count"""
    def body(it):
        ctx = it.ctx
        bnd = bindings(it.ast)
        nm = ['__invert__', '__len__', '__getitem__', 'count'][ctx.choose(4)]
        if nm not in bnd: raise OutOfFragment('binding %s not found' % nm)
        x = bs(it, 'x'); cx = it.new_cell('x', x)
        args = [cx]
        if nm == '__getitem__':
            k = ctx.fresh_int('pos'); ctx.assume(k >= 0); ctx.terms.append(k); args.append(k)
            it.opts['on_throw_now'] = (k, x)
        ctx.cover('Bitset.%s: precondition' % nm)
        from vcgen.cxxexec import Thrown
        try: r = apply(it, bnd[nm], args)
        except Thrown:
            ctx.oblige('%s: an exception only for a position out of range' % nm, z3.BoolVal(False) if nm != '__getitem__' else k >= x.size, 'post')
            raise PathEnd()
        if nm == '__invert__':
            ctx.oblige('__invert__: members', FA('inv', I, lambda i: S(r.mem, i) == z3.And(rng(i, 0, x.size), z3.Not(S(x.mem, i)))), 'post')
            ctx.oblige('__invert__: size', r.size == x.size, 'post')
        elif nm == '__len__': ctx.oblige('__len__', r == x.size, 'post')
        elif nm == '__getitem__': ctx.oblige('__getitem__', z3.And(k < x.size, r == S(x.mem, k)), 'post')
        else:
            from vcgen.cxxexec import CARD
            ctx.oblige('count', r == CARD(x.mem), 'post')
        ctx.oblige('%s: the bitset is not modified' % nm, veq(x, it.read(cx)), 'post')
    return Unit('Bitset complement, size, access (bindings)', ['C10'], body)

class CtorLoop:
    name = 'construction'
    def __init__(self, st): self.st = st
    def begin(self, it): pass
    def inv(self, it):
        st = self.st; pos, n = st['pos'], st['n']
        x = it.read(st['this']); k = it.read(it.env['__it']); w = it.read(st['ghost']).first
        it.ctx.terms.append(k)
        return [('index', rng(k, 0, pos.len + 1)), ('size', x.size == n),
                ('the positions so far are members, in range', FA('in', I, lambda j: z3.Implies(rng(j, 0, k), z3.And(rng(S(pos.el, j), 0, n), S(x.mem, S(pos.el, j)))))),
                ('members are positions', FA('only', I, lambda i: z3.Implies(S(x.mem, i), z3.And(rng(S(w, i), 0, k), S(pos.el, S(w, i)) == i))))]
    def step(self, it):
        st = self.st; k = it.read(it.env['__it']) - 1
        g = it.read(st['ghost']); it.ctx.terms.append(k)
        it.write(st['ghost'], Rec('ghost', {'first': z3.Store(g.first, S(st['pos'].el, k), k)}))

def unit_ctor():
    st = {}
    def body(it):
        from vcgen.cxxexec import Thrown
        ctx = it.ctx
        fns = [n for d, n in it.ast.full.items() if n['kind'] == 'CXXConstructorDecl' and n.get('_short') == 'tnco::bitset::Bitset' and len(it.params(n)) == 2 and 'vector' in str(it.params(n)[0].get('type'))]
        if len(fns) != 1: raise OutOfFragment('constructor from positions not found')
        pos = mk(('vec', 'int'), 'positions', ctx.fresh); n = ctx.fresh_int('size')
        ctx.assume(z3.And(n >= 0, n < NPOS, pos.len >= 0)); ctx.assume(FA('nonneg', I, lambda j: S(pos.el, j) >= 0))
        this = it.new_cell('this', SetV(EMPTY, z3.IntVal(0)))
        st.update(pos=pos, n=n, this=this); st['ghost'] = it.new_cell('ghost', Rec('ghost', {'first': ctx.fresh('first', z3.ArraySort(I, I))}))
        ctx.cover('Bitset(positions, size): precondition')
        pc = it.new_cell('positions', pos)
        try: it.call_ctor(fns[0], [pc, n], this)
        except Thrown:
            ctx.cover('Bitset(positions, size): rejected')
            ctx.oblige('only rejected when some position is out of range', EX('bad', I, lambda j: z3.And(rng(j, 0, pos.len), S(pos.el, j) >= n), [it.read(it.env['__it'])] if '__it' in it.env else []), 'post')
            raise PathEnd()
        x = it.read(this); w = it.read(st['ghost']).first
        ctx.cover('Bitset(positions, size): exit')
        ctx.oblige('size', x.size == n, 'post')
        ctx.oblige('every position is a member, and was in range', FA('in', I, lambda j: z3.Implies(rng(j, 0, pos.len), z3.And(S(pos.el, j) < n, S(x.mem, S(pos.el, j))))), 'post')
        ctx.oblige('every member is one of the positions', FA('only', I, lambda i: z3.Implies(S(x.mem, i), z3.And(rng(S(w, i), 0, pos.len), S(pos.el, S(w, i)) == i))), 'post')
    return Unit('Bitset(positions, size)', ['C10'], body, loops={r'.*Bitset#foreach': CtorLoop(st), r'.*Bitset#range': CtorLoop(st)})

class StrLoop:
    name = 'text'
    def __init__(self, st): self.st = st
    def inv(self, it):
        def local(names, pick):
            for n in names:
                d = it.names.get(n)
                if d is not None and d in it.env and pick(it.read(it.env[d])): return it.read(it.env[d])
            c = [it.cells[x] for x in it.cells if '@' in x and not x.startswith(('this', 'ghost')) and pick(it.cells[x])]
            if len(c) == 1: return c[0]
            raise OutOfFragment('loop variable %s not identified' % names[0])
        s = self.st['s']
        v = local(['bits'], lambda v: isinstance(v, Vec)); i = local(['i_', 'i'], lambda v: z3.is_expr(v) and v.sort() == I)
        it.ctx.terms.append(i)
        return [('length', z3.And(v.len == i, rng(i, 0, s.size + 1))), ('characters', FA('chars', I, lambda j: z3.Implies(rng(j, 0, i), S(v.el, j) == z3.If(S(s.mem, j), ord('1'), ord('0')))))]

def text_of(v, s): return [('length', v.len == s.size), ('characters', FA('chars', I, lambda j: z3.Implies(rng(j, 0, s.size), S(v.el, j) == z3.If(S(s.mem, j), ord('1'), ord('0')))))]

def to_text(it, args, this): return it.call_fn(it.ast.find1(r'Bitset<>::operator std::__cxx11::basic_string'), [], this)

def unit_text():
    """Conversion to text, and back: pickling (get state / set state) uses exactly these two."""
    st = {}
    def body(it):
        ctx = it.ctx
        s = bs(it, 'this'); this = it.new_cell('this', s); st['s'] = s
        k = ctx.choose(3)
        if k == 2:
            pk = bindings(it.ast).get('pickle')
            if pk is None: raise OutOfFragment('pickle functions not found')
            state = apply(it, pk[0], [this])
            x = apply(it, pk[1], [it.new_cell('state', state)])
            ctx.cover('pickle: exit')
            ctx.oblige('the restored bitset is the original: size', x.size == s.size, 'post')
            ctx.oblige('the restored bitset is the original: members', FA('back', I, lambda i: S(x.mem, i) == S(s.mem, i)), 'post')
        elif k == 0:
            ctx.cover('to text: precondition')
            v = val(it, to_text(it, [], this))
            ctx.cover('to text: exit')
            for nm, g in text_of(v, s): ctx.oblige('one character per position: ' + nm, g, 'post')
            ctx.oblige('the bitset is not modified', veq(s, it.read(this)), 'post')
        else:
            fn = it.ast.find1(r'^tnco::bitset::Bitset<>::Bitset\(std::__cxx11::basic_string')
            v = Vec(ctx.fresh_int('len'), ctx.fresh('text', z3.ArraySort(I, I)))
            for _, g in text_of(v, s): ctx.assume(g)
            ctx.cover('from text: precondition')
            new = it.new_cell('this', SetV(EMPTY, z3.IntVal(0)))
            it.call_ctor(fn, [v], new)
            x = it.read(new)
            ctx.cover('from text: exit')
            ctx.oblige('the text of a bitset gives back the bitset: size', x.size == s.size, 'post')
            ctx.oblige('the text of a bitset gives back the bitset: members', FA('back', I, lambda i: S(x.mem, i) == S(s.mem, i)), 'post')
    return Unit('Bitset to and from text (pickling)', ['C10'], body, loops={r'.*#for': StrLoop(st), r'.*#while': StrLoop(st)}, opts={'throw': 'violation', 'strings': True})

def units_c10(): return [unit_visit, unit_positions, unit_algebra, unit_unary, unit_ctor, unit_text]
def all_units(): return [u() for u in units_c10()]
