"""Symbolic interpreter of clang's AST for the fragment of C++ used by the tnco headers."""
import re, os, itertools
import z3
from .core import *
from .vals import *
from . import cxxast

class Ret(Exception):
    def __init__(self, v): self.v = v
class Brk(Exception): pass
class Cont(Exception): pass
class Restart(Exception): pass
class Thrown(Exception): pass

class LV:
    """l-value: cell name + path of steps ('f',name) ('i',z3 index) ('t',const) ('tx',z3 idx) ('o',) ('a',k)"""
    __slots__ = ('cell', 'path')
    def __init__(self, cell, path=()): self.cell, self.path = cell, tuple(path)
    def f(self, name): return LV(self.cell, self.path + (('f', name),))
    def i(self, idx): return LV(self.cell, self.path + (('i', idx),))
    def t(self, k): return LV(self.cell, self.path + (('t', k),))
    def o(self): return LV(self.cell, self.path + (('o',),))
    def a(self, k): return LV(self.cell, self.path + (('a', k),))
    def __repr__(self): return 'LV(%s,%s)' % (self.cell, self.path)

LOG2 = z3.Function('log2', R, R)
LOGN = z3.Function('logn', R, R)
POWR = z3.Function('powr', R, R, R)      # real power
POWI = z3.Function('powi', R, I, R)      # integer power
CARD = z3.Function('card', SET, I)

def strip_type(t):
    t = t.strip()
    changed = True
    while changed:
        changed = False
        for p in ('const ', 'volatile ', 'struct ', 'class '):
            if t.startswith(p): t = t[len(p):]; changed = True
        for s in (' const', '&', '*', ' '):
            if t.endswith(s): t = t[:-len(s)]; changed = True
    return t

def typ(n):
    t = n.get('type', {})
    return t.get('desugaredQualType', t.get('qualType', ''))

def tsort(t):
    t = strip_type(t)
    if t in ('double', 'float', 'long double'): return 'real'
    if t == 'bool': return 'bool'
    if t in ('int', 'long', 'unsigned long', 'unsigned int', 'size_t', 'long long', 'unsigned long long', 'char', 'short',
             'std::size_t', 'unsigned char', 'std::ptrdiff_t', '__gnu_cxx::__promote', 'size_type'): return 'int'
    return None

class Interp:
    def __init__(self, ctx, ast, contracts=None, loops=None, modsets=None, opts=None):
        self.ctx, self.ast = ctx, ast
        self.contracts = contracts or {}
        self.loops = loops or {}
        self.modsets = modsets if modsets is not None else {}
        self.cells = {}
        self.env = {}              # decl id -> LV
        self.names = {}            # source name -> decl id (latest)
        self.this = [None]
        self.loopstack = []        # [(key, set(cells existing before))]
        self.tmp = itertools.count()
        self.depth = 0
        self.fstack = []
        self.loopcount = {}
        self.opts = opts or {}
        self.inlined = set()
        self.called = set()

    # ---------------------------------------------------------------- store
    def new_cell(self, name, v, decl=None):
        if decl is None: c = '%s@%d' % (name, next(self.tmp))
        else:
            # named after its declaration, so that it is the same cell on every path
            c = '%s@%s' % (name, decl); k = 0
            while c in self.cells: k += 1; c = '%s@%s+%d' % (name, decl, k)
        self.cells[c] = v
        return LV(c)

    def read(self, lv):
        return self._read(self.cells[lv.cell], lv.path)
    def _read(self, v, path):
        for k, st in enumerate(path):
            if st[0] == 'f':
                v = v.fields[st[1]]
            elif st[0] == 'i':
                if isinstance(v, Vec): v = vsel(v.el, st[1])
                elif isinstance(v, SetV): v = z3.Select(v.mem, st[1])
                else: raise OutOfFragment('index into %r' % (v,))
            elif st[0] == 't':
                v = v.items[st[1]]
            elif st[0] == 'tx':
                items = v.items
                r = items[-1]
                for j in range(len(items) - 2, -1, -1): r = vite(st[1] == j, items[j], r)
                v = r
            elif st[0] == 'o': v = v.val
            elif st[0] == 'a': v = v.alts[st[1]]
        return v

    def write(self, lv, x):
        self.note_write(lv)
        self.cells[lv.cell] = self._write(self.cells[lv.cell], lv.path, x)
    def _write(self, v, path, x):
        if not path:
            if isinstance(v, Val) or not z3.is_expr(v): return x
            return coerce(x, v.sort())
        st, rest = path[0], path[1:]
        if st[0] == 'f':
            d = dict(v.fields); d[st[1]] = self._write(d[st[1]], rest, x)
            return Rec(v.tname, d)
        if st[0] == 'i':
            if isinstance(v, Vec):
                e = vsel(v.el, st[1])
                return Vec(v.len, vsto(v.el, st[1], self._write(e, rest, x)))
            if isinstance(v, SetV):
                return SetV(z3.Store(v.mem, st[1], coerce(x, B)), v.size)
            raise OutOfFragment('write index')
        if st[0] == 't':
            it = list(v.items); it[st[1]] = self._write(it[st[1]], rest, x)
            return Tup(it)
        if st[0] == 'tx':
            it = list(v.items)
            for j in range(len(it)):
                new = self._write(it[j], rest, x)
                it[j] = vite(st[1] == j, new, it[j])
            return Tup(it)
        if st[0] == 'o': return Opt(v.has, self._write(v.val, rest, x))
        if st[0] == 'a':
            a = list(v.alts); a[st[1]] = self._write(a[st[1]], rest, x)
            return Variant(v.tag, a)

    @staticmethod
    def modkey(lv):
        return (lv.cell,) + tuple(s if s[0] in ('f', 't', 'a', 'o') else ('*',) for s in lv.path)

    def note_write(self, lv):
        for key, before in self.loopstack:
            if lv.cell in before:
                mk_ = self.modkey(lv)
                ms = self.modsets.setdefault(key, [])
                if not any(mk_[:len(m)] == m for m in ms):
                    ms[:] = [m for m in ms if m[:len(mk_)] != mk_] + [mk_]
                    raise Restart()

    def havoc(self, key):
        for m in self.modsets.get(key, []):
            cell, path = m[0], m[1:]
            if cell not in self.cells: continue      # created later than this loop
            self.cells[cell] = self._havoc(self.cells[cell], path, cell.split('@')[0])
    def _havoc(self, v, path, nm, lifted=False):
        if not path:
            if isinstance(v, Val):
                return v.map(lambda t: self.ctx.fresh(nm, t.sort()))
            return self.ctx.fresh(nm, v.sort())
        st, rest = path[0], path[1:]
        if st[0] == 'f':
            d = dict(v.fields); d[st[1]] = self._havoc(d[st[1]], rest, nm + '.' + st[1]); return Rec(v.tname, d)
        if st[0] == '*':
            if isinstance(v, Vec): return Vec(v.len, self._havoc(v.el, rest, nm))
            if isinstance(v, SetV): return SetV(self.ctx.fresh(nm, v.mem.sort()), v.size)
            if isinstance(v, Tup): return Tup([self._havoc(i, rest, nm) for i in v.items])
            raise OutOfFragment('havoc')
        if st[0] == 't':
            it = list(v.items); it[st[1]] = self._havoc(it[st[1]], rest, nm); return Tup(it)
        if st[0] == 'o': return Opt(v.has, self._havoc(v.val, rest, nm))
        if st[0] == 'a':
            a = list(v.alts); a[st[1]] = self._havoc(a[st[1]], rest, nm); return Variant(v.tag, a)
        raise OutOfFragment('havoc %r' % (st,))

    # ---------------------------------------------------------------- helpers
    def bind(self, declid, name, lv):
        self.env[declid] = lv
        self.names[name] = declid

    def rv(self, n):
        v = self.ev(n)
        return self.read(v) if isinstance(v, LV) else v
    def lv(self, n):
        v = self.ev(n)
        return v if isinstance(v, LV) else self.new_cell('tmp', v)
    def as_int(self, v): return coerce(v, I)
    def as_bool(self, v):
        if isinstance(v, Ptr): return v.ok
        if isinstance(v, Opt): return v.has
        return coerce(v, B)
    def as_real(self, v): return coerce(v, R)

    def where(self):
        return self.fstack[-1] if self.fstack else self.ctx.func

    def body_of(self, fn):
        for c in fn.get('inner', ()):
            if isinstance(c, dict) and c.get('kind') == 'CompoundStmt': return c
        return None

    def params(self, fn):
        return [c for c in fn.get('inner', ()) if isinstance(c, dict) and c.get('kind') == 'ParmVarDecl']

    # ---------------------------------------------------------------- calls
    def call_fn(self, fn, args, this=None):
        """args: list of LV or values."""
        body = self.body_of(fn)
        if body is None: raise OutOfFragment('no body for %s' % fn.get('_full', fn.get('name')))
        self.depth += 1
        if self.depth > 40: raise OutOfFragment('inlining too deep')
        ps = self.params(fn)
        if len(args) < len(ps):
            for p in ps[len(args):]:
                dflt = [c for c in p.get('inner', ()) if isinstance(c, dict) and 'kind' in c]
                if not dflt: raise OutOfFragment('missing argument')
                args = args + [self.rv(dflt[0])]
        saved_names = dict(self.names)
        for p, a in zip(ps, args):
            t = p.get('type', {}).get('qualType', '')
            td = typ(p)
            isref = t.rstrip().endswith('&') or td.rstrip().endswith('&')
            if isref:
                lvv = a if isinstance(a, LV) else self.new_cell(p.get('name', 'arg'), a, p['id'])
            else:
                v = self.read(a) if isinstance(a, LV) else a
                s = tsort(td)
                if s == 'real' : v = coerce(v, R)
                elif s == 'int': v = coerce(v, I)
                lvv = self.new_cell(p.get('name', 'arg'), v, p['id'])
            self.bind(p['id'], p.get('name', ''), lvv)
        self.this.append(this if this is not None else self.this[-1])
        full = fn.get('_short') or fn.get('name', '?')
        self.fstack.append(full)
        saved_lc = self.loopcount; self.loopcount = {}
        self.inlined.add(full)
        try:
            self.st(body)
            res = None
        except Ret as r:
            res = r.v
        finally:
            self.this.pop(); self.fstack.pop(); self.depth -= 1; self.loopcount = saved_lc
        self.names = saved_names
        rt = fn.get('type', {}).get('qualType', '')
        if isinstance(res, LV):
            # return by value unless the function returns a reference
            ret = typ(fn).split('(')[0] if '->' not in typ(fn) else typ(fn).rsplit('->', 1)[1]
            if not ret.strip().endswith('&'):
                res = self.read(res)
        return res

    def call_ctor(self, fn, args, this):
        """Runs a constructor on the (default) value of `this`: member / base initialisers in order, then the body."""
        for p, a in zip(self.params(fn), args):
            t = p.get('type', {}).get('qualType', ''); td = typ(p)
            if t.rstrip().endswith('&') or td.rstrip().endswith('&'): lvv = a if isinstance(a, LV) else self.new_cell(p.get('name', 'arg'), a, p['id'])
            else: lvv = self.new_cell(p.get('name', 'arg'), self.read(a) if isinstance(a, LV) else a, p['id'])
            self.bind(p['id'], p.get('name', ''), lvv)
        self.this.append(this); self.fstack.append(fn.get('_short') or fn.get('name', '?'))
        self.inlined.add(self.fstack[-1])
        saved_lc = self.loopcount; self.loopcount = {}
        try:
            for c in fn.get('inner', ()):
                if c.get('kind') != 'CXXCtorInitializer': continue
                e = [x for x in c.get('inner', ()) if isinstance(x, dict) and x.get('kind')]
                if not e: raise OutOfFragment('initialiser')
                if 'anyInit' in c: self.write(this.f(c['anyInit']['name']), self.assign_conv(self.read(this.f(c['anyInit']['name'])), self.rv(e[0])))
                elif 'baseInit' in c:
                    v = self.rv(e[0])
                    old = self.read(this)
                    if isinstance(old, Rec) and isinstance(v, Rec):
                        d = dict(old.fields); d.update(v.fields); v = Rec(old.tname, d)
                    self.write(this, v)
                else:
                    v = self.rv(e[0])       # delegating constructor
                    self.write(this, v)
            self.st(self.body_of(fn))
        except Ret: pass
        finally:
            self.this.pop(); self.fstack.pop(); self.loopcount = saved_lc
        return this

    def dispatch(self, fn, args, this=None):
        sn = fn.get('_short', '')
        for pat, c in self.contracts.items():
            if re.fullmatch(pat, sn):
                self.called.add(sn)
                return c(self, args, this)
        return self.call_fn(fn, args, this)

    def call_value(self, f, args, node=None, callee=None):
        """call a closure / opaque callable"""
        if isinstance(f, LV): f = self.read(f)
        if isinstance(f, PyFn): return f.fn(self, args)
        if isinstance(f, Clo):
            fn = None
            if callee is not None and callee.get('_body') and callee.get('name') == 'operator()': fn = callee
            if fn is None: fn = self.pick_operator(f.node, args)
            for d, lv in f.caps.items(): self.env[d] = lv
            for nm, d in getattr(f, 'names', {}).items(): self.names[nm] = d
            saved = self.this[-1]
            return self.call_fn(fn, args, getattr(f, 'this', None) or saved)
        raise OutOfFragment('call of %r' % (f,))

    def pick_operator(self, lam, args):
        """Instantiated operator() of a lambda whose parameter types fit the arguments."""
        rec = lam['inner'][0]
        cands = []
        def rec_walk(n):
            for c in n.get('inner', ()):
                if not isinstance(c, dict): continue
                if c.get('kind') == 'FunctionTemplateDecl' and c.get('name') == 'operator()':
                    ms = [m for m in c.get('inner', ()) if m.get('kind') == 'CXXMethodDecl']
                    cands.extend(m for m in ms[1:] if self.body_of(m))
                elif c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()' and self.body_of(c):
                    cands.append(c)
        rec_walk(rec)
        if len(cands) == 1 and len(self.params(cands[0])) == len(args) and any(c is cands[0] for c in rec.get('inner', ())): return cands[0]     # not a template
        good = []
        for m in cands:
            ps = self.params(m)
            if len(ps) != len(args): continue
            ok = True
            for p, a in zip(ps, args):
                v = self.read(a) if isinstance(a, LV) else a
                if not self.fits(typ(p), v): ok = False
            if ok: good.append(m)
        if not good: raise OutOfFragment('no lambda instantiation fits (%d candidates)' % len(cands))
        return good[0]

    def fits(self, t, v):
        t = strip_type(t)
        if isinstance(v, Vec): return 'vector' in t
        if isinstance(v, SetV): return 'Bitset' in t or 'dynamic_bitset' in t
        if isinstance(v, Rec): return True
        if isinstance(v, Val): return True
        s = tsort(t)
        if s is None: return 'vector' not in t and 'Bitset' not in t
        if z3.is_expr(v):
            if s == 'real': return v.sort() == R
            return v.sort() != R
        return True

    # ---------------------------------------------------------------- statements
    def st(self, n):
        k = n.get('kind')
        m = getattr(self, 'st_' + k, None)
        if m: return m(n)
        if k.endswith('Expr') or k.endswith('Operator') or k in ('ExprWithCleanups',):
            self.ev(n); return
        raise OutOfFragment('statement %s' % k)

    def st_CompoundStmt(self, n):
        for c in n.get('inner', ()):
            if isinstance(c, dict) and c: self.st(c)
    def st_NullStmt(self, n): pass
    def st_AttributedStmt(self, n): 
        self.st([c for c in n['inner'] if c.get('kind', '').endswith('Stmt') or c.get('kind', '').endswith('Expr')][-1])
    def st_BreakStmt(self, n): raise Brk()
    def st_ContinueStmt(self, n): raise Cont()
    def st_ReturnStmt(self, n):
        inner = n.get('inner', [])
        if not inner: raise Ret(None)
        raise Ret(self.ev(inner[0]))
    def st_DeclStmt(self, n):
        for d in n.get('inner', ()): self.decl(d)
    def decl(self, d):
        k = d.get('kind')
        if k == 'VarDecl': self.vardecl(d)
        elif k == 'DecompositionDecl': self.decomp(d)
        elif k in ('TypedefDecl', 'TypeAliasDecl', 'StaticAssertDecl', 'UsingDecl', 'UsingDirectiveDecl', 'CXXRecordDecl', 'EmptyDecl'): pass
        else: raise OutOfFragment('decl %s' % k)
    def vardecl(self, d):
        t = d.get('type', {}).get('qualType', ''); td = typ(d)
        inner = [c for c in d.get('inner', ()) if isinstance(c, dict) and c.get('kind') and not c['kind'].endswith('Attr')]
        if not inner:
            v = self.default_value(td)
            self.bind(d['id'], d['name'], self.new_cell(d['name'], v, d['id'])); return
        v = self.ev(inner[-1])
        if t.rstrip().endswith('&') or td.rstrip().endswith('&'):
            lvv = v if isinstance(v, LV) else self.new_cell(d['name'], v, d['id'])
        else:
            if isinstance(v, LV): v = self.read(v)
            s = tsort(td)
            if s == 'real': v = coerce(v, R)
            elif s == 'int' and z3.is_expr(v): v = coerce(v, I)
            elif s == 'bool': v = self.as_bool(v)
            lvv = self.new_cell(d['name'], v, d['id'])
        self.bind(d['id'], d['name'], lvv)
    def decomp(self, d):
        inner = [c for c in d.get('inner', ()) if isinstance(c, dict)]
        binds = [c for c in inner if c.get('kind') == 'BindingDecl']
        init = [c for c in inner if c.get('kind') != 'BindingDecl'][-1]
        t = d.get('type', {}).get('qualType', '')
        v = self.ev(init)
        if isinstance(v, LV) and (t.rstrip().endswith('&')): lvv = v
        else: lvv = self.new_cell('decomp', self.read(v) if isinstance(v, LV) else v, d['id'])
        val = self.read(lvv)
        for k, b in enumerate(binds):
            if isinstance(val, Rec): l = lvv.f(list(val.fields)[k])
            else: l = lvv.t(k)
            self.bind(b['id'], b.get('name', ''), l)
    def st_IfStmt(self, n):
        inner = [c for c in n['inner']]
        i = 0
        if n.get('hasInit'): self.st(inner[0]); i += 1
        if n.get('hasVar'): self.st(inner[i]); i += 1
        cond, then = inner[i], inner[i + 1]
        els = inner[i + 2] if len(inner) > i + 2 else None
        if n.get('isConstexpr'):
            c = self.const_value(cond)
            if c: 
                if then.get('kind'): self.st(then)
            elif els is not None and els.get('kind'): self.st(els)
            return
        if self.ctx.decide(self.as_bool(self.rv(cond))): self.st(then)
        elif els is not None: self.st(els)
    def const_value(self, n):
        if n.get('kind') == 'ConstantExpr' and 'value' in n: return n['value'] not in ('0', 'false')
        if n.get('kind') == 'CXXBoolLiteralExpr': return n['value']
        v = z3.simplify(self.as_bool(self.rv(n)))
        return z3.is_true(v)

    # ---- loops
    def loop_spec(self, kind):
        fn = self.where()
        k = self.loopcount.get(kind, 0); self.loopcount[kind] = k + 1
        for pat, spec in self.loops.items():
            m = re.match(r'(.*?)#([a-z]+)(?:#(\d+))?$', pat)
            if re.fullmatch(m.group(1), fn) and m.group(2) == kind and (m.group(3) is None or int(m.group(3)) == k):
                return spec
        return None
    def run_loop(self, key, spec, cond, body, inc=None, after_havoc=None):
        """cond() -> bool formula or None (forever); body() executes once."""
        if spec is None: raise OutOfFragment('loop without invariant in %s' % self.where()[:120])
        self.cur_loop = key
        scope = spec.begin(self) if hasattr(spec, 'begin') else None
        for nm, g in spec.inv(self): self.ctx.oblige('loop invariant holds initially [%s] %s' % (spec.name, nm), g, 'inv-init')
        before = set(self.cells)
        self.havoc(key)
        if hasattr(spec, 'havoc'): spec.havoc(self)
        for nm, g in spec.inv(self): self.ctx.assume(g)
        self.ctx.cover('loop head [%s]' % spec.name)
        self.loopstack.append((key, before))
        try:
            if cond is not None and not self.ctx.decide(cond()):
                self.loopstack.pop()
                if hasattr(spec, 'exit'): spec.exit(self)
                return
            try:
                body()
            except Cont:
                pass
            if inc: inc()
        except Brk:
            self.loopstack.pop()
            if hasattr(spec, 'exit'): spec.exit(self)
            return
        self.cur_loop = key
        if hasattr(spec, 'step'): spec.step(self)
        for nm, g in spec.inv(self): self.ctx.oblige('loop invariant is preserved [%s] %s' % (spec.name, nm), g, 'inv-step')
        raise PathEnd()
    def loop_key(self, n):
        return (n.get('id'), tuple(self.fstack))
    def st_WhileStmt(self, n):
        inner = n['inner']; cond, body = inner[-2], inner[-1]
        self.run_loop(self.loop_key(n), self.loop_spec('while'), lambda: self.as_bool(self.rv(cond)), lambda: self.st(body))
    def st_ForStmt(self, n):
        init, _, cond, inc, body = n['inner']
        if init.get('kind'): self.st(init)
        self.run_loop(self.loop_key(n), self.loop_spec('for'), (lambda: self.as_bool(self.rv(cond))) if cond.get('kind') else None,
                      lambda: self.st(body), (lambda: self.ev(inc)) if inc.get('kind') else None)
    def st_CXXForRangeStmt(self, n):
        # inner: [init], range decl, begin, end, cond, inc, loop var, body
        inner = n['inner']
        rng = [c for c in inner if c.get('kind') == 'DeclStmt' and c['inner'][0].get('name', '').startswith('__range')][0]
        var, body = inner[-2], inner[-1]
        init = [c for c in rng['inner'][0]['inner'] if c.get('kind')][-1]
        seq = self.ev(init)
        sv = self.read(seq) if isinstance(seq, LV) else seq
        vd = var['inner'][0]
        if isinstance(sv, Tup):     # initializer list: unrolled (its length is a constant)
            slv = seq if isinstance(seq, LV) else self.new_cell('range', sv)
            try:
                for k in range(len(sv.items)):
                    self.bind(vd['id'], vd['name'], slv.t(k))
                    try: self.st(body)
                    except Cont: pass
            except Brk: pass
            return
        if isinstance(sv, Vec):
            slv = seq if isinstance(seq, LV) else self.new_cell('range', sv, n['id'])
            it = self.new_cell('__it', z3.IntVal(0), n['id'])
            self.names['__it'] = '__it'; self.env['__it'] = it
            self.env['__rng'] = slv; self.names['__rng'] = '__rng'
            def b():
                self.bind(vd['id'], vd['name'], slv.i(self.read(it)))
                self.st(body)
            self.run_loop(self.loop_key(n), self.loop_spec('range'), lambda: self.read(it) < self.read(slv).len, b,
                          lambda: self.write(it, self.read(it) + 1))
            return
        raise OutOfFragment('range-for over %r' % (sv,))
    def st_CXXThrowExpr(self, n): self.ev_CXXThrowExpr(n)

    # ---------------------------------------------------------------- expressions
    def ev(self, n):
        k = n.get('kind')
        m = getattr(self, 'ev_' + k, None)
        if m is None: raise OutOfFragment('expression %s in %s' % (k, self.where()[:80]))
        return m(n)
    def pass_(self, n): return self.ev([c for c in n['inner'] if isinstance(c, dict) and c.get('kind')][0])
    ev_ParenExpr = ev_ExprWithCleanups = ev_MaterializeTemporaryExpr = ev_CXXBindTemporaryExpr = pass_
    ev_ConstantExpr = ev_SubstNonTypeTemplateParmExpr = ev_CXXStdInitializerListExpr = pass_
    def ev_SubstNonTypeTemplateParmExpr(self, n): return self.ev(n['inner'][-1])
    def ev_IntegerLiteral(self, n): return z3.IntVal(int(n['value']))
    def ev_FloatingLiteral(self, n):
        from fractions import Fraction
        return z3.RealVal(str(Fraction(n['value'])))
    def ev_CXXBoolLiteralExpr(self, n): return z3.BoolVal(n['value'])
    def ev_StringLiteral(self, n): return Opaque('str:' + n.get('value', ''))
    def ev_CXXNullPtrLiteralExpr(self, n): return Ptr(z3.BoolVal(False), None)
    def ev_CXXThisExpr(self, n):
        return Ptr(z3.BoolVal(True), self.this[-1])
    def ev_CXXDefaultArgExpr(self, n):
        inner = [c for c in n.get('inner', ()) if c.get('kind')]
        if inner: return self.ev(inner[0])
        return Opaque('defaultarg')
    def ev_CXXDefaultInitExpr(self, n): return self.pass_(n)
    def ev_CXXThrowExpr(self, n):
        h = self.opts.get('throw')
        if h == 'violation':
            self.ctx.oblige('no exception is raised', z3.BoolVal(False), 'throw')
        raise Thrown()
    def ev_DeclRefExpr(self, n):
        r = n['referencedDecl']; i = r['id']
        if i in self.env: return self.env[i]
        nm = r.get('name')
        d = self.ast.by_id.get(i)
        if r['kind'] in ('FunctionDecl', 'CXXMethodDecl'): return ('fn', i, nm)
        if d is not None and d.get('kind') == 'VarDecl':
            inner = [c for c in d.get('inner', ()) if isinstance(c, dict) and c.get('kind') and not c['kind'].endswith('Attr')]
            if inner:
                v = self.rv(inner[-1])
                return v
        if nm == 'npos': return NPOS
        if nm == 'nullopt': return Opaque('nullopt')
        # captured variable of a closure, matched by name as a last resort
        if nm in self.names and self.names[nm] in self.env: return self.env[self.names[nm]]
        raise OutOfFragment('unbound %s %s in %s' % (r['kind'], nm, self.where()[:80]))
    def ev_ImplicitCastExpr(self, n):
        ck = n.get('castKind'); sub = n['inner'][0]
        return self.cast(ck, sub, n)
    def ev_CXXStaticCastExpr(self, n): return self.cast(n.get('castKind'), n['inner'][-1], n)
    def ev_CStyleCastExpr(self, n): return self.cast(n.get('castKind'), n['inner'][-1], n)
    def ev_CXXFunctionalCastExpr(self, n): return self.cast(n.get('castKind'), n['inner'][-1], n)
    def ev_CXXConstCastExpr(self, n): return self.cast(n.get('castKind'), n['inner'][-1], n)
    def cast(self, ck, sub, n):
        if ck == 'LValueToRValue': return self.rv(sub)
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'ConstructorConversion', 'BaseToDerived', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'BuiltinFnToFnPtr', 'UserDefinedConversion', 'NullToPointer', 'ToVoid'):
            return self.ev(sub)
        v = self.rv(sub)
        if isinstance(v, Opaque): return v
        if ck in ('IntegralCast',):
            t = tsort(typ(n))
            if z3.is_expr(v) and v.sort() == B and t == 'int': return coerce(v, I)
            return v
        if ck == 'IntegralToFloating': return coerce(v, R)
        if ck in ('FloatingCast',): return v
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'): return coerce(v, B)
        if ck == 'PointerToBoolean': return v.ok
        if ck == 'FloatingToIntegral': return z3.ToInt(v)
        raise OutOfFragment('cast %s' % ck)
    def ev_MemberExpr(self, n):
        base = n['inner'][0]
        nm = n.get('name')
        b = self.ev(base)
        if isinstance(b, Ptr): b = b.lv
        md = self.ast.by_id.get(n.get('referencedMemberDecl'))
        if typ(n) == '<bound member function type>': return ('bound', b, n)
        if isinstance(b, LV):
            v = self.read(b)
            if isinstance(v, Rec):
                if nm in v.fields:
                    r = b.f(nm)
                    return r
                raise OutOfFragment('no field %s in %s' % (nm, v.tname))
            if isinstance(v, Tup): return b.t({'first': 0, 'second': 1}[nm])
            raise OutOfFragment('member %s of %r' % (nm, v))
        if isinstance(b, Rec): return b.fields[nm]
        if isinstance(b, Tup): return b.items[{'first': 0, 'second': 1}[nm]]
        raise OutOfFragment('member %s' % nm)
    def ev_UnaryOperator(self, n):
        op = n['opcode']; sub = n['inner'][0]
        if op == '*':
            p = self.rv(sub)
            if isinstance(p, Ptr):
                self.ctx.oblige('pointer is not null', p.ok, 'deref')
                return p.lv
            raise OutOfFragment('deref %r' % (p,))
        if op == '&':
            return Ptr(z3.BoolVal(True), self.lv(sub))
        if op in ('++', '--'):
            l = self.lv(sub); old = self.read(l)
            self.write(l, old + 1 if op == '++' else old - 1)
            return old if n.get('isPostfix') else l
        v = self.rv(sub)
        if op == '!': return z3.Not(self.as_bool(v))
        if op == '-': return -coerce(v, I) if v.sort() == B else -v
        if op == '+': return v
        if op == '~': raise OutOfFragment('bitwise not on integers')
        raise OutOfFragment('unary ' + op)
    def guarded(self, cond, n):
        """Evaluate a condition operand under the hypothesis cond (for its own obligations)."""
        if z3.is_true(z3.simplify(cond)): return self.as_bool(self.rv(n))
        k = len(self.ctx.hyps)
        self.ctx.hyps.append(cond)
        try: v = self.as_bool(self.rv(n))
        finally:
            added = self.ctx.hyps[k + 1:]
            del self.ctx.hyps[k:]
            for h in added:
                self.ctx.hyps.append(z3.Implies(cond, h) if not isinstance(h, FA) else FA(h.name, h.sorts, (lambda hh: lambda *x: z3.Implies(cond, hh.body(*x)))(h)))
        return v
    def ev_BinaryOperator(self, n):
        op = n['opcode']; a, b = n['inner']
        if op == '=':
            v = self.rv(b); l = self.lv(a); self.write(l, v); return l
        if op in ('&&', '||') and not self.pure(b):
            x = self.as_bool(self.rv(a))
            if op == '&&': return self.as_bool(self.rv(b)) if self.ctx.decide(x) else z3.BoolVal(False)
            return z3.BoolVal(True) if self.ctx.decide(x) else self.as_bool(self.rv(b))
        if op == '&&':
            x = self.as_bool(self.rv(a)); y = self.guarded(x, b); return z3.And(x, y)
        if op == '||':
            x = self.as_bool(self.rv(a)); y = self.guarded(z3.Not(x), b); return z3.Or(x, y)
        if op == ',':
            self.ev(a); return self.ev(b)
        x, y = self.rv(a), self.rv(b)
        return self.binop(op, x, y, n)
    def pure(self, n):
        """no calls that branch: used to decide whether && / || can be evaluated as a formula"""
        stack = [n]
        while stack:
            x = stack.pop()
            if not isinstance(x, dict): continue
            k = x.get('kind')
            if k in ('CompoundAssignOperator', 'LambdaExpr', 'ConditionalOperator'): return False
            if k == 'UnaryOperator' and x.get('opcode') in ('++', '--'): return False
            if k == 'CallExpr':
                return False
            stack.extend(x.get('inner', ()))
        return True
    def binop(self, op, x, y, n=None):
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            px = x.ok if isinstance(x, Ptr) else z3.BoolVal(False); py = y.ok if isinstance(y, Ptr) else z3.BoolVal(False)
            if op == '==': return px == py if not (isinstance(x, Ptr) and isinstance(y, Ptr) and x.lv is not None and y.lv is not None) else self.oof('pointer comparison')
            if op == '!=': return px != py
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            if op in ('==', '!=', '<', '>', '<=', '>='): return self.ctx.fresh_bool('opaque_cmp')
            return Opaque('expr')
        if isinstance(x, Val) or isinstance(y, Val):
            if op == '==': return veq(x, y)
            if op == '!=': return z3.Not(veq(x, y))
            raise OutOfFragment('binop %s on %r' % (op, x))
        if x.sort() == B and y.sort() == B:
            if op == '==': return x == y
            if op == '!=': return x != y
            if op == '^': return z3.Xor(x, y)
            if op == '&': return z3.And(x, y)
            if op == '|': return z3.Or(x, y)
        if op == '^' or op == '&' or op == '|':
            # operands of !=/^ of comparison results are bool promoted to int
            bx, by = unbool(x), unbool(y)
            if bx is not None and by is not None:
                return coerce({'^': z3.Xor, '&': z3.And, '|': z3.Or}[op](bx, by), I)
            raise OutOfFragment('bitwise %s on integers' % op)
        if x.sort() == B: x = coerce(x, I)
        if y.sort() == B: y = coerce(y, I)
        if x.sort() != y.sort(): x, y = coerce(x, R), coerce(y, R)
        if op == '+': return x + y
        if op == '-': return x - y
        if op == '*': return x * y
        if op == '/':
            self.ctx.oblige('no division by zero', y != 0, 'div') if x.sort() == I else None
            return x / y
        if op == '%':
            self.ctx.oblige('no division by zero (%)', y != 0, 'div')
            r = self.ctx.fresh_int('rem')
            self.ctx.assume(z3.Implies(z3.And(x >= 0, y > 0), z3.And(r >= 0, r < y)))
            return x % y if z3.is_int_value(y) else r
        if op == '==': return x == y
        if op == '!=': return x != y
        if op == '<': return x < y
        if op == '>': return x > y
        if op == '<=': return x <= y
        if op == '>=': return x >= y
        raise OutOfFragment('binop ' + op)
    def oof(self, m): raise OutOfFragment(m)
    def ev_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]; a, b = n['inner']
        l = self.lv(a); y = self.rv(b)
        x = self.read(l)
        v = self.binop(op, x, y, n)
        self.write(l, v)
        return l
    def ev_ConditionalOperator(self, n):
        c, a, b = n['inner']
        cv = z3.simplify(self.as_bool(self.rv(c)))
        t = tsort(typ(n))
        if t is not None and n.get('valueCategory') == 'prvalue' and self.pure(a) and self.pure(b) and not (z3.is_true(cv) or z3.is_false(cv)) and not any('Throw' in x.get('kind', '') for x in (a, b)):
            srt = {'real': R, 'int': I, 'bool': B}[t]
            def g(cond, m):
                k = len(self.ctx.hyps); self.ctx.hyps.append(cond)
                try: return coerce(self.rv(m), srt)
                finally: del self.ctx.hyps[k]
            return z3.If(cv, g(cv, a), g(z3.Not(cv), b))
        if self.ctx.decide(cv): return self.ev(a)
        return self.ev(b)
    def ev_LambdaExpr(self, n):
        inner = n['inner']
        rec = inner[0]
        fields = [c for c in rec.get('inner', ()) if c.get('kind') == 'FieldDecl']
        inits = [c for c in inner[1:] if c.get('kind') and c['kind'] != 'CompoundStmt']
        caps, names = {}, {}
        cap_names = self.capture_names(n)
        vals = []
        for f, c in zip(fields, inits):
            v = self.ev(c)
            t = typ(f)
            if not t.rstrip().endswith('&') and isinstance(v, LV):
                v = self.new_cell('cap', self.read(v))
            elif not isinstance(v, LV):
                v = self.new_cell('cap', v)
            vals.append(v)
        # identify the declarations that the body uses for init-captures
        used = {}
        declared = set()
        stack = [rec]
        while stack:
            x = stack.pop()
            if not isinstance(x, dict): continue
            if x.get('kind') == 'DeclRefExpr':
                r = x['referencedDecl']
                if r['kind'] in ('VarDecl', 'ParmVarDecl', 'BindingDecl'): used[r['id']] = r.get('name')
            if x.get('kind') in ('VarDecl', 'ParmVarDecl', 'BindingDecl'): declared.add(x['id'])
            stack.extend(x.get('inner', ()))
        unknown = [(i, nm) for i, nm in used.items() if i not in declared and i not in self.env and i not in self.ast_globals()]
        bynm = dict(zip(cap_names, vals)) if cap_names is not None and len(cap_names) == len(vals) else None
        if bynm is None and len(set(nm for _, nm in unknown)) == 1 and len(vals) == 1: bynm = {unknown[0][1]: vals[0]}
        for i, nm in used.items():
            if i in declared: continue
            if bynm is not None and nm in bynm:
                # by-name captures of existing variables (`[&x]`) resolve to the captured value
                caps[i] = bynm[nm]; names[nm] = i
            elif i in self.env: caps[i] = self.env[i]
        c = Clo(n, caps); c.names = names; c.this = self.this[-1]
        return c
    def ast_globals(self):
        g = getattr(self.ast, '_globals', None)
        if g is None:
            g = self.ast._globals = set(i for i, n in self.ast.by_id.items() if n.get('kind') == 'VarDecl' and n.get('storageClass') == 'static')
        return g
    def capture_names(self, n):
        m = re.search(r'\(lambda at ([^)]*?):(\d+):(\d+)\)', n['type'].get('qualType', '') + ' ' + typ(n))
        if not m: return None
        try: lines = open(m.group(1)).read().split('\n')
        except OSError: return None
        txt = '\n'.join([lines[int(m.group(2)) - 1][int(m.group(3)) - 1:]] + lines[int(m.group(2)):int(m.group(2)) + 40])
        if not txt.startswith('['): return None
        depth, cur, parts = 0, '', []
        for ch in txt:
            if ch in '[({': depth += 1
            if ch in '])}':
                depth -= 1
                if depth == 0: break
            if depth >= 1 and not (depth == 1 and ch == '['):
                if ch == ',' and depth == 1: parts.append(cur); cur = ''
                else: cur += ch
        parts.append(cur)
        res = []
        for p in parts:
            p = p.strip()
            if p in ('&', '=', ''): return None
            mm = re.match(r'&?\s*([A-Za-z_]\w*)', p)
            if not mm: return None
            res.append(mm.group(1))
        if 'this' in res: res = [r for r in res if r != 'this'] if False else res
        return res
    def ev_InitListExpr(self, n):
        items = [c for c in n.get('inner', ()) if isinstance(c, dict) and c.get('kind')]
        t = strip_type(typ(n))
        if tsort(t) and len(items) == 1: return self.rv(items[0])
        if tsort(t) and not items: return self.default_value(t)
        if len(items) == 1 and ('std::array' in t) and items[0].get('kind') == 'InitListExpr': return self.ev(items[0])
        m = re.match(r'std::array<(.*), (\d+)>', t)
        if not items: return self.default_value(t)
        return Tup([self.rv(c) for c in items])
    def ev_ImplicitValueInitExpr(self, n): return self.default_value(typ(n))
    def ev_CXXScalarValueInitExpr(self, n): return self.default_value(typ(n))
    def ev_UnaryExprOrTypeTraitExpr(self, n): raise OutOfFragment('sizeof')

    def default_value(self, t):
        t = strip_type(t)
        s = tsort(t)
        if s == 'int': return z3.IntVal(0)
        if s == 'real': return z3.RealVal(0)
        if s == 'bool': return z3.BoolVal(False)
        if ('Bitset' in t or t.startswith('boost::dynamic_bitset')) and not t.startswith('std::'): return SetV(EMPTY, z3.IntVal(0))
        if self.opts.get('strings') and (t == 'std::string' or t.startswith(('std::basic_string', 'std::__cxx11::basic_string'))): return Vec(z3.IntVal(0), z3.K(I, z3.IntVal(0)))
        m = re.match(r'std::(?:vector|stack)<(.*)>$', t)
        if m:
            el = split_targs(m.group(1))[0]
            return Vec(z3.IntVal(0), self.lift_const(self.default_value(el)))
        m = re.match(r'std::array<(.*)>$', t)
        if m:
            a = split_targs(m.group(1)); return Tup([self.default_value(a[0]) for _ in range(int(re.sub('[^0-9]', '', a[1])))])
        m = re.match(r'std::(?:pair|tuple)<(.*)>$', t)
        if m: return Tup([self.default_value(a) for a in split_targs(m.group(1))])
        if t.startswith('std::optional<'): return Opt(z3.BoolVal(False), self.default_value(split_targs(t[14:-1])[0]))
        if t.startswith('std::variant<'): return Variant(z3.IntVal(0), [self.default_value(a) for a in split_targs(t[13:-1])])
        if 'Node<' in t: return Rec('Node', {'children': Tup([z3.IntVal(-1), z3.IntVal(-1)]), 'parent': z3.IntVal(-1)})
        return Opaque(t)
    def lift_const(self, v):
        return vmap(v, lambda a: z3.K(I, a))

    def ev_CXXConstructExpr(self, n): return self.construct(n, [c for c in n.get('inner', ()) if isinstance(c, dict) and c.get('kind')])
    ev_CXXTemporaryObjectExpr = ev_CXXConstructExpr
    def construct(self, n, args):
        t = strip_type(typ(n))
        # copy / move
        ct = n.get('ctorType', {}).get('qualType', '')
        h = self.opts.get('construct')
        if h:
            r = h(self, t, args, n)
            if r is not None: return r
        if len(args) == 1:
            v = self.rv(args[0])
            if isinstance(v, tuple) and v and v[0] == 'fn': raise OutOfFragment('function value')
            if t.startswith('std::function'): return v
            if t.startswith('std::optional<'):
                if isinstance(v, Opt): return v
                if isinstance(v, Opaque) and v.name == 'nullopt': return self.default_value(t)
                return Opt(z3.BoolVal(True), v)
            if t.startswith('std::variant<'):
                if isinstance(v, Variant): return v
                alts = split_targs(t[13:-1])
                for k, a in enumerate(alts):
                    if self.fits_strict(a, v):
                        av = [self.default_value(x) for x in alts]; av[k] = v
                        return Variant(z3.IntVal(k), av)
                raise OutOfFragment('variant construction')
            if t.startswith('std::vector<'):
                if isinstance(v, Vec): return v
                if isinstance(v, Tup):
                    el = None
                    arr = self.lift_const(self.default_value(split_targs(t[12:-1])[0]))
                    for k, x in enumerate(v.items): arr = vsto(arr, z3.IntVal(k), x)
                    return Vec(z3.IntVal(len(v.items)), arr)
                if z3.is_expr(v) and v.sort() == I:
                    el = split_targs(t[12:-1])[0]
                    return Vec(v, self.lift_const(self.default_value(el)))
            if 'Bitset' in t and not t.startswith('std::'):
                if isinstance(v, SetV): return v
                if z3.is_expr(v) and v.sort() == I: return SetV(EMPTY, v)
                if isinstance(v, Opaque): raise OutOfFragment('bitset from string')
                if isinstance(v, Vec) and self.opts.get('strings'):
                    fn = self.ast.find1(r'^tnco::bitset::Bitset<>::Bitset\(std::__cxx11::basic_string')
                    return self.read(self.call_ctor(fn, [v], self.new_cell('new', SetV(EMPTY, z3.IntVal(0)))))
            if t.startswith('std::tuple') or t.startswith('std::pair'):
                if isinstance(v, Tup): return v
                return Tup([v])
            if isinstance(v, (Rec, Tup, Clo, Opaque, Opt, Variant, Vec, SetV)): return v
        if t.startswith('std::vector<') and len(args) == 2:
            el = split_targs(t[12:-1])[0]
            a0 = self.rv(args[0])
            if z3.is_expr(a0):
                a1 = self.rv(args[1]) if args[1].get('kind') != 'CXXDefaultArgExpr' else None
                if a1 is None or isinstance(a1, Opaque): return Vec(a0, self.lift_const(self.default_value(el)))
                return Vec(a0, self.lift_const(self.convert(el, a1)))
            if isinstance(a0, Tup) or isinstance(a0, Vec):   # initializer list + allocator
                if isinstance(a0, Vec): return a0
                arr = self.lift_const(self.default_value(el))
                for k, x in enumerate(a0.items): arr = vsto(arr, z3.IntVal(k), x)
                return Vec(z3.IntVal(len(a0.items)), arr)
        if t.startswith('std::vector<') and len(args) == 3:
            el = split_targs(t[12:-1])[0]
            a0, a1 = self.rv(args[0]), self.rv(args[1])
            if z3.is_expr(a0) and z3.is_expr(a1): return Vec(a0, self.lift_const(self.convert(el, a1)))
        if t.startswith('std::tuple') or t.startswith('std::pair'):
            if not args: return self.default_value(t)
            its = split_targs(t[t.index('<') + 1:-1])
            return Tup([self.convert(s, self.rv(a)) for s, a in zip(its, args)])
        if 'basic_string' in t or t == 'std::string':
            if not self.opts.get('strings'): return Opaque('string')
            vs = [self.rv(a) for a in args if a.get('kind') != 'CXXDefaultArgExpr']
            if not vs: return Vec(z3.IntVal(0), z3.K(I, z3.IntVal(0)))
            if len(vs) == 1 and isinstance(vs[0], Vec): return vs[0]
            if len(vs) == 1 and isinstance(vs[0], Opaque) and vs[0].name.startswith('str:'): return self.str_append(Vec(z3.IntVal(0), z3.K(I, z3.IntVal(0))), vs[0])
            if len(vs) == 2 and all(isinstance(v, Rec) and v.tname in ('iter', 'riter') for v in vs) and vs[0].tname == vs[1].tname:
                v = vs[0].fields['seq']; lo, hi = vs[0].fields['pos'], vs[1].fields['pos']
                el = self.ctx.fresh('string', v.el.sort()); rev = vs[0].tname == 'riter'
                self.ctx.assume(FA('string', I, lambda i: z3.Implies(z3.And(0 <= i, i < hi - lo), z3.Select(el, i) == z3.Select(v.el, v.len - 1 - lo - i if rev else lo + i))))
                return Vec(hi - lo, el)
            raise OutOfFragment('string construction')
        if t.startswith('std::stack') or t.startswith('std::optional') or t.startswith('std::vector') or t.startswith('std::variant'):
            if not args or all(a.get('kind') == 'CXXDefaultArgExpr' for a in args): return self.default_value(t)
        if not args and (t.startswith('std::') or tsort(t)): return self.default_value(t)
        if 'Bitset' in t and not t.startswith('std::'):
            vs = [self.rv(a) for a in args if a.get('kind') != 'CXXDefaultArgExpr']
            if not vs: return SetV(EMPTY, z3.IntVal(0))
            if len(vs) == 1 and z3.is_expr(vs[0]): return SetV(EMPTY, vs[0])
            if len(vs) == 2 and isinstance(vs[0], Vec):
                c = self.find_contract('Bitset<>::Bitset<std::vector')
                if c: return c(self, vs, None)
            raise OutOfFragment('bitset constructor')
        if t.startswith('boost::dynamic_bitset'):
            vs = [self.rv(a) for a in args if a.get('kind') != 'CXXDefaultArgExpr']
            if not vs: return SetV(EMPTY, z3.IntVal(0))
            if len(vs) == 1 and isinstance(vs[0], SetV): return vs[0]
            if len(vs) == 1 and z3.is_expr(vs[0]): return SetV(EMPTY, coerce(vs[0], I))
            if len(vs) == 1 and isinstance(vs[0], Vec):
                # boost: position i is the i-th character from the end; only '0' and '1' are accepted
                v = vs[0]; m = self.ctx.fresh('from_string', SET)
                self.ctx.assume(FA('from_string', I, lambda i: z3.Select(m, i) == z3.And(0 <= i, i < v.len, z3.Select(v.el, v.len - 1 - i) == ord('1'))))
                self.ctx.oblige('the text has only the characters 0 and 1', FA('digits', I, lambda i: z3.Implies(z3.And(0 <= i, i < v.len), z3.Or(z3.Select(v.el, i) == ord('0'), z3.Select(v.el, i) == ord('1')))), 'call-pre')
                return SetV(m, v.len)
        if 'uniform_real_distribution' in t: return Opaque('uniform')
        if not args and 'Node<' in t: return self.default_value(t)
        raise OutOfFragment('construct %s/%d in %s' % (t[:80], len(args), self.where()[:60]))
    def str_append(self, v, lit):
        import json
        for ch in json.loads(lit.name[4:]): v = Vec(v.len + 1, z3.Store(v.el, v.len, z3.IntVal(ord(ch))))
        return v
    def find_contract(self, name):
        for pat, c in self.contracts.items():
            if re.fullmatch(pat, name): return c
        return None
    def fits_strict(self, t, v):
        t = strip_type(t)
        if isinstance(v, Vec): return t.startswith('std::vector')
        if isinstance(v, Opaque): return 'string' in t
        if z3.is_expr(v): 
            s = tsort(t)
            return s == {'Int': 'int', 'Real': 'real', 'Bool': 'bool'}[str(v.sort())]
        return False
    def convert(self, t, v):
        s = tsort(t)
        if s == 'real': return coerce(v, R)
        if s == 'int': return coerce(v, I)
        if s == 'bool': return self.as_bool(v)
        return v

    # ---- calls
    def ev_CXXOperatorCallExpr(self, n):
        callee, args = n['inner'][0], n['inner'][1:]
        ref = self.callee_ref(callee)
        name = ref.get('name', '')
        fn = self.ast.by_id.get(ref.get('id'))
        return self.operator(name, fn, args, n)
    def callee_ref(self, c):
        while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): c = c['inner'][0]
        return c.get('referencedDecl', {})
    def operator(self, name, fn, args, n):
        op = name[len('operator'):]
        if op == '()':
            f = self.ev(args[0])
            fv = self.read(f) if isinstance(f, LV) else f
            av = [self.ev(a) for a in args[1:]]
            if isinstance(fv, (Clo, PyFn)): return self.call_value(fv, av, n, fn)
            if isinstance(fv, Opaque):
                h = self.opts.get('opaque_call')
                if h:
                    r = h(self, fv, av)
                    if r is not None: return r
                raise OutOfFragment('call of opaque %s' % fv.name)
            if isinstance(fv, Rec):
                if fn is None: raise OutOfFragment('functor')
                return self.dispatch(fn, av, f if isinstance(f, LV) else self.new_cell('f', fv))
        if fn is not None and (fn.get('_body') or self.find_contract(fn.get('_short', '@'))):
            # tnco-defined operator
            if fn['kind'] == 'CXXMethodDecl':
                th = self.lv(args[0]); av = [self.ev(a) for a in args[1:]]
                v = self.read(th)
                if op == '=':
                    self.write(th, self.rv(args[1])); return th
                return self.dispatch(fn, av, th)
            return self.dispatch(fn, [self.ev(a) for a in args], None)
        if op == '=':
            v = self.rv(args[1]); l = self.lv(args[0])
            old = self.read(l)
            v = self.assign_conv(old, v)
            self.write(l, v); return l
        if op == '[]':
            b = self.ev(args[0]); i = self.rv(args[1])
            return self.index(b, i)
        if op == '+=' and self.opts.get('strings'):
            l = self.lv(args[0]); x, y = self.read(l), self.rv(args[1])
            if isinstance(x, Vec) and isinstance(y, Opaque) and y.name.startswith('str:'):
                self.write(l, self.str_append(x, y)); return l
            if isinstance(x, Vec) and z3.is_expr(y) and y.sort() == I:
                self.write(l, Vec(x.len + 1, z3.Store(x.el, x.len, y))); return l
            raise OutOfFragment('string append')
        if op in ('&=', '|=', '^=', '-='):
            l = self.lv(args[0]); x, y = self.read(l), self.rv(args[1])
            if isinstance(x, SetV):
                self.write(l, self.setop(op[0], x, y)); return l
        if op == '*' and len(args) == 1:
            v = self.ev(args[0])
            vv = self.read(v) if isinstance(v, LV) else v
            if isinstance(vv, Ptr): return vv.lv
            if isinstance(vv, Opt):
                self.ctx.oblige('optional has a value', vv.has, 'deref'); return v.o() if isinstance(v, LV) else vv.val
            return v       # shared_ptr / unique_ptr: identified with the pointee
        if op == '->':
            v = self.ev(args[0])
            vv = self.read(v) if isinstance(v, LV) else v
            if isinstance(vv, Ptr): return vv
            return Ptr(z3.BoolVal(True), v if isinstance(v, LV) else self.new_cell('p', vv))
        if op == '<<' or op == '>>': 
            for a in args: self.ev(a)
            return Opaque('stream')
        vals = [self.rv(a) for a in args]
        if len(vals) == 2:
            x, y = vals
            if isinstance(x, SetV) and isinstance(y, SetV):
                if op in ('&', '|', '^', '-'): return self.setop(op, x, y)
                if op == '==': return z3.And(x.mem == y.mem, x.size == y.size)
                if op == '!=': return z3.Not(z3.And(x.mem == y.mem, x.size == y.size))
            if isinstance(x, Rec) and x.tname in ('iter', 'riter') and op in ('+', '-') and z3.is_expr(y): return Rec(x.tname, dict(x.fields, pos=x.fields['pos'] + y if op == '+' else x.fields['pos'] - y))
            if op == '==' and isinstance(x, Vec): return self.vec_eq(x, y)
            if op == '!=' and isinstance(x, Vec): return z3.Not(self.vec_eq(x, y))
            return self.binop(op, x, y)
        if op == '~' and isinstance(vals[0], SetV): return self.complement(vals[0])
        if op == '!' : return z3.Not(self.as_bool(vals[0]))
        raise OutOfFragment('operator %s in %s' % (name, self.where()[:80]))
    def vec_eq(self, x, y):
        """Equality of vectors as a fresh boolean defined by its meaning (forked)."""
        if self.ctx.decide(self.ctx.fresh_bool('veceq')):
            self.ctx.assume(x.len == y.len)
            def body(i):
                return z3.Implies(z3.And(0 <= i, i < x.len), self.elem_eq(vsel(x.el, i), vsel(y.el, i)))
            self.ctx.assume(FA('veq', I, body))
            return z3.BoolVal(True)
        w = self.ctx.fresh_int('vneq'); self.ctx.terms.append(w)
        self.ctx.assume(z3.Or(x.len != y.len, z3.And(0 <= w, w < x.len, z3.Not(self.elem_eq(vsel(x.el, w), vsel(y.el, w))))))
        return z3.BoolVal(False)
    def elem_eq(self, a, b): return veq(a, b)
    def assign_conv(self, old, v):
        if isinstance(old, Variant) and not isinstance(v, Variant):
            for k, a in enumerate(old.alts):
                ok = (isinstance(a, Vec) and isinstance(v, Vec)) or (not isinstance(a, Val) and not isinstance(v, Val))
                if ok:
                    al = list(old.alts); al[k] = coerce(v, a.sort()) if not isinstance(v, Val) else v
                    return Variant(z3.IntVal(k), al)
        if isinstance(old, Opt) and not isinstance(v, Opt): return Opt(z3.BoolVal(True), v)
        return v
    def index(self, b, i):
        v = self.read(b) if isinstance(b, LV) else b
        i = coerce(i, I)
        if isinstance(v, Vec):
            self.ctx.oblige('index within bounds in %s' % short(self.where()), z3.And(0 <= i, i < v.len), 'bounds')
            if isinstance(b, LV): return b.i(i)
            return vsel(v.el, i)
        if isinstance(v, SetV):
            self.ctx.oblige('bit position within bounds in %s' % short(self.where()), z3.And(0 <= i, i < v.size), 'bounds')
            if isinstance(b, LV): return b.i(i)
            return z3.Select(v.mem, i)
        if isinstance(v, Tup):
            s = z3.simplify(i)
            if z3.is_int_value(s):
                k = s.as_long()
                if not 0 <= k < len(v.items):
                    self.ctx.oblige('array index within bounds', z3.BoolVal(False), 'bounds'); raise PathEnd()
                return b.t(k) if isinstance(b, LV) else v.items[k]
            self.ctx.oblige('array index within bounds', z3.And(0 <= i, i < len(v.items)), 'bounds')
            if isinstance(b, LV): return LV(b.cell, b.path + (('tx', i),))
            r = v.items[-1]
            for j in range(len(v.items) - 2, -1, -1): r = vite(i == j, v.items[j], r)
            return r
        if isinstance(v, Rec) and '__index__' in v.fields: return v.fields['__index__'].fn(self, [i])
        raise OutOfFragment('index into %r' % (v,))
    def setop(self, op, x, y):
        if not (isinstance(x, SetV) and isinstance(y, SetV)): raise OutOfFragment('set operation')
        self.ctx.oblige('bitsets of equal size', x.size == y.size, 'bounds')
        f = {'&': set_inter, '|': set_union, '^': set_xor, '-': set_diff}[op]
        return SetV(f(x.mem, y.mem), x.size)
    def complement(self, x):
        """Positions below size that are not in x."""
        r = self.ctx.fresh('compl', SET)
        self.ctx.assume(FA('compl', I, lambda k: z3.Select(r, k) == z3.And(0 <= k, k < x.size, z3.Not(z3.Select(x.mem, k)))))
        return SetV(r, x.size)

    def ev_CXXMemberCallExpr(self, n):
        callee = n['inner'][0]; args = n['inner'][1:]
        while callee.get('kind') in ('ParenExpr', 'ImplicitCastExpr'): callee = callee['inner'][0]
        if callee.get('kind') != 'MemberExpr': raise OutOfFragment('member call')
        name = callee.get('name', '')
        fn = self.ast.by_id.get(callee.get('referencedMemberDecl'))
        obj = self.ev(callee['inner'][0])
        if isinstance(obj, Ptr): obj = obj.lv
        ov = self.read(obj) if isinstance(obj, LV) else obj
        if fn is not None and (fn.get('_body') or self.find_contract(fn.get('_short', '@'))) and not (isinstance(ov, SetV) and name in ('visit_',)):
            th = obj if isinstance(obj, LV) else self.new_cell('obj', obj)
            return self.dispatch(fn, [self.ev(a) for a in args], th)
        if fn is not None and not fn.get('_body') and isinstance(ov, Rec) and ('method:' + name) in ov.fields:
            return ov.fields['method:' + name].fn(self, [self.ev(a) for a in args])
        return self.std_method(name, obj, ov, args, n)

    def std_method(self, name, obj, v, args, n):
        if isinstance(v, SetV):
            if name == 'set':
                i = coerce(self.rv(args[0]), I)
                self.ctx.oblige('bit position within bounds in %s' % short(self.where()), z3.And(0 <= i, i < v.size), 'bounds')
                x = self.rv(args[1]) if len(args) > 1 and args[1].get('kind') != 'CXXDefaultArgExpr' else z3.BoolVal(True)
                self.write(obj, SetV(z3.Store(v.mem, i, coerce(x, B)), v.size)); return obj
            if name == 'reset':
                i = coerce(self.rv(args[0]), I)
                self.ctx.oblige('bit position within bounds in %s' % short(self.where()), z3.And(0 <= i, i < v.size), 'bounds')
                self.write(obj, SetV(z3.Store(v.mem, i, z3.BoolVal(False)), v.size)); return obj
            if name == 'test':
                i = coerce(self.rv(args[0]), I)
                self.ctx.oblige('bit position within bounds in %s' % short(self.where()), z3.And(0 <= i, i < v.size), 'bounds')
                return z3.Select(v.mem, i)
            if name == 'flip':
                i = coerce(self.rv(args[0]), I)
                self.ctx.oblige('bit position within bounds in %s' % short(self.where()), z3.And(0 <= i, i < v.size), 'bounds')
                self.write(obj, SetV(z3.Store(v.mem, i, z3.Not(z3.Select(v.mem, i))), v.size)); return obj
            if name == 'size': return v.size
            if name == 'count': return self.card(v)
            if name in ('intersects',):
                y = self.rv(args[0]); self.ctx.oblige('bitsets of equal size', v.size == y.size, 'bounds')
                return z3.Not(set_inter(v.mem, y.mem) == EMPTY)
            if name == 'is_subset_of':
                y = self.rv(args[0]); self.ctx.oblige('bitsets of equal size', v.size == y.size, 'bounds')
                return subset(v.mem, y.mem)
            if name == 'is_proper_subset_of':
                y = self.rv(args[0]); return z3.And(subset(v.mem, y.mem), v.mem != y.mem)
            if name == 'any': return z3.Not(v.mem == EMPTY)
            if name == 'none': return v.mem == EMPTY
            if name == 'find_first': return self.find_from(v, z3.IntVal(0))
            if name == 'find_next':
                p = coerce(self.rv(args[0]), I); return self.find_from(v, p + 1)
            if name in ('bool',): return v
        if isinstance(v, Vec):
            if name in ('size',): return v.len
            if name == 'empty': return v.len == 0
            if name == 'back':
                self.ctx.oblige('back() of a non-empty vector', v.len > 0, 'bounds')
                return obj.i(v.len - 1) if isinstance(obj, LV) else vsel(v.el, v.len - 1)
            if name == 'top':
                self.ctx.oblige('top() of a non-empty stack', v.len > 0, 'bounds')
                return obj.i(v.len - 1) if isinstance(obj, LV) else vsel(v.el, v.len - 1)
            if name == 'front':
                self.ctx.oblige('front() of a non-empty vector', v.len > 0, 'bounds')
                return obj.i(z3.IntVal(0)) if isinstance(obj, LV) else vsel(v.el, 0)
            if name in ('push_back', 'push', 'emplace_back', 'emplace'):
                x = self.rv(args[0])
                if isinstance(x, Rec) is False and isinstance(x, Tup) and isinstance(v.el, Tup): pass
                self.write(obj, Vec(v.len + 1, vsto(v.el, v.len, x))); return None
            if name in ('pop', 'pop_back'):
                self.ctx.oblige('%s() of a non-empty container' % name, v.len > 0, 'bounds')
                self.write(obj, Vec(v.len - 1, v.el)); return None
            if name in ('reserve', 'shrink_to_fit'): return None
            if name == 'at':
                return self.index(obj, self.rv(args[0]))
            if name == 'resize':
                nl = coerce(self.rv(args[0]), I)
                # new elements are value-initialised
                new = v.el.map(lambda t: self.ctx.fresh('resized', t.sort())) if isinstance(v.el, Val) else self.ctx.fresh('resized', v.el.sort())
                olen = v.len
                dv = self.elem_default(v)
                self.ctx.assume(FA('resize', I, lambda i: z3.And(z3.Implies(z3.And(0 <= i, i < olen, i < nl), veq(vsel(new, i), vsel(v.el, i))),
                                                                 z3.Implies(z3.And(olen <= i, i < nl), veq(vsel(new, i), dv)))))
                self.write(obj, Vec(nl, new)); return None
            if name == 'clear': self.write(obj, Vec(z3.IntVal(0), v.el)); return None
            if name in ('begin', 'cbegin'): return Rec('iter', {'seq': v, 'pos': z3.IntVal(0), 'lv': obj if isinstance(obj, LV) else None})
            if name in ('end', 'cend'): return Rec('iter', {'seq': v, 'pos': v.len, 'lv': obj if isinstance(obj, LV) else None})
        if isinstance(v, Opt):
            if name == 'has_value': return v.has
            if name == 'value':
                self.ctx.oblige('optional has a value', v.has, 'deref')
                return obj.o() if isinstance(obj, LV) else v.val
            if name == 'operator bool': return v.has
        if isinstance(v, Variant):
            if name == 'index': return v.tag
        if isinstance(v, Tup) and name == 'size': return z3.IntVal(len(v.items))
        if isinstance(v, Ptr) and name in ('get',): return v
        if name in ('get',) and isinstance(obj, LV): return Ptr(z3.BoolVal(True), obj)
        if isinstance(v, Opaque):
            for a in args: self.ev(a)
            return Opaque(name)
        if name.startswith('operator ') and z3.is_expr(v): return v
        raise OutOfFragment('method %s of %s in %s' % (name, type(v).__name__, self.where()[:80]))
    def elem_default(self, v):
        def d(t):
            s = t.sort().range()
            if s == I: return z3.IntVal(0)
            if s == R: return z3.RealVal(0)
            if s == B: return z3.BoolVal(False)
            if s == SET: return EMPTY
            raise OutOfFragment('resize')
        return vmap(v.el, d)
    def card(self, v):
        c = CARD(v.mem)
        self.ctx.assume(c >= 0)
        self.ctx.assume((c == 0) == (v.mem == EMPTY))
        return c
    def find_from(self, v, p):
        """boost contract: the least element >= p, or npos (a value larger than every position)."""
        r = self.ctx.fresh_int('found')
        self.ctx.terms.append(r)
        self.ctx.assume(z3.Or(r == NPOS, z3.And(r >= p, 0 <= r, r < v.size, z3.Select(v.mem, r))))
        self.ctx.assume(z3.Implies(r != NPOS, r < NPOS))
        self.ctx.assume(v.size < NPOS)
        self.ctx.assume(FA('find', I, lambda k: z3.Implies(z3.And(k >= p, z3.Select(v.mem, k), 0 <= k, k < v.size), k >= r)))
        self.ctx.assume(FA('find_npos', I, lambda k: z3.Implies(z3.And(r == NPOS, k >= p, 0 <= k, k < v.size), z3.Not(z3.Select(v.mem, k)))))
        return r

    def ev_CallExpr(self, n):
        callee, args = n['inner'][0], n['inner'][1:]
        ref = self.callee_ref(callee)
        name = ref.get('name', '')
        fn = self.ast.by_id.get(ref.get('id'))
        if fn is not None and fn.get('_full') and (fn.get('_body') or self.find_contract(fn.get('_short', '@'))):
            return self.dispatch(fn, [self.ev(a) for a in args], None)
        h = getattr(self, 'std_' + name, None)
        if h: return h(args, n)
        raise OutOfFragment('call of %s in %s' % (name, self.where()[:80]))

    # ---- std functions
    def std_size(self, a, n):
        v = self.rv(a[0])
        if isinstance(v, Vec): return v.len
        if isinstance(v, SetV): return v.size
        if isinstance(v, Tup): return z3.IntVal(len(v.items))
        if isinstance(v, Rec):
            if 'nodes' in v.fields:
                return v.fields['nodes'].len
        raise OutOfFragment('std::size of %r' % (v,))
    def std_empty(self, a, n):
        v = self.rv(a[0])
        if isinstance(v, Vec): return v.len == 0
        raise OutOfFragment('std::empty')
    def std_move(self, a, n): return self.ev(a[0])
    def std_forward(self, a, n): return self.ev(a[0])
    def std_as_const(self, a, n): return self.ev(a[0])
    def std_swap(self, a, n):
        x, y = self.lv(a[0]), self.lv(a[1])
        vx, vy = self.read(x), self.read(y)
        self.write(x, vy); self.write(y, vx)
        return None
    def std_exchange(self, a, n):
        x = self.lv(a[0]); old = self.read(x); self.write(x, self.rv(a[1])); return old
    def std_max(self, a, n):
        x, y = self.rv(a[0]), self.rv(a[1]); return z3.If(x < y, y, x)
    def std_min(self, a, n):
        x, y = self.rv(a[0]), self.rv(a[1]); return z3.If(y < x, y, x)
    def std_abs(self, a, n):
        x = self.rv(a[0]); return z3.If(x < 0, -x, x)
    std_fabs = std_abs
    def std_log2(self, a, n): return LOG2(coerce(self.rv(a[0]), R))
    def std_log(self, a, n): return LOGN(coerce(self.rv(a[0]), R))
    def std_pow(self, a, n):
        x, y = self.rv(a[0]), self.rv(a[1])
        if y.sort() == I: return POWI(coerce(x, R), y)
        return POWR(coerce(x, R), y)
    def permuted(self, a):
        """The range becomes a permutation of itself: new[j] = old[perm[j]] with perm a bijection of [lo, hi)."""
        v, lo, hi, lv = self.seq_range(a[0], a[1])
        if lv is None or not isinstance(v, Vec): raise OutOfFragment('permutation of %r' % (v,))
        p, q = self.ctx.fresh('perm', z3.ArraySort(I, I)), self.ctx.fresh('pinv', z3.ArraySort(I, I))
        new = v.el.map(lambda t: self.ctx.fresh('permuted', t.sort())) if isinstance(v.el, Val) else self.ctx.fresh('permuted', v.el.sort())
        inr = lambda i: z3.And(lo <= i, i < hi)
        S = z3.Select
        self.ctx.assume(FA('perm', I, lambda i: z3.If(inr(i), z3.And(inr(S(p, i)), inr(S(q, i)), S(q, S(p, i)) == i, S(p, S(q, i)) == i, veq(vsel(new, i), vsel(v.el, S(p, i)))),
                                                      veq(vsel(new, i), vsel(v.el, i)))))
        self.write(lv, Vec(v.len, new))
        return v, lo, hi
    def std_shuffle(self, a, n):
        self.permuted(a); return None
    def std_stable_sort(self, a, n):
        v, lo, hi = self.permuted(a)
        if len(a) > 2:
            # the comparator is evaluated on elements of the range only (its own obligations)
            f = self.ev(a[2])
            i, j = self.ctx.fresh_int('cmp'), self.ctx.fresh_int('cmp')
            k = len(self.ctx.hyps)
            self.ctx.hyps.append(z3.And(lo <= i, i < hi, lo <= j, j < hi)); self.ctx.terms += [i, j]
            self.pure_call(f, [vsel(v.el, i), vsel(v.el, j)])
            del self.ctx.hyps[k:]
        return None
    std_sort = std_stable_sort
    def for_each_rule(self, key, spec, fresh_elem, call):
        """call(x) for each x of a finite collection in any order: invariant of the callback's effects."""
        self.cur_loop = key
        inv = spec.inv if spec is not None else (lambda it: [])
        nm0 = getattr(spec, 'name', 'for each')
        for nm, g in inv(self): self.ctx.oblige('loop invariant holds initially [%s] %s' % (nm0, nm), g, 'inv-init')
        before = set(self.cells)
        self.havoc(key)
        for nm, g in inv(self): self.ctx.assume(g)
        if self.ctx.choose(2) == 0:
            self.loopstack.append((key, before))
            x = fresh_elem()
            call(x)
            self.loopstack.pop(); self.cur_loop = key
            for nm, g in inv(self): self.ctx.oblige('loop invariant is preserved [%s] %s' % (nm0, nm), g, 'inv-step')
            raise PathEnd()
    def std_isnan(self, a, n): return z3.BoolVal(False)
    def std_isinf(self, a, n): return z3.BoolVal(False)
    def std_make_pair(self, a, n): return Tup([self.rv(x) for x in a])
    def std_make_tuple(self, a, n): return Tup([self.rv(x) for x in a])
    def std_get(self, a, n):
        l = self.ev(a[0])
        v = self.read(l) if isinstance(l, LV) else l
        t = typ(n)
        if isinstance(v, Variant):
            for k, alt in enumerate(v.alts):
                if self.fits_strict(t, alt):
                    self.ctx.oblige('variant holds the requested alternative', v.tag == k, 'deref')
                    return l.a(k) if isinstance(l, LV) else alt
        raise OutOfFragment('std::get')
    def std_get_if(self, a, n):
        p = self.rv(a[0]); v = self.read(p.lv); t = typ(n)
        for k, alt in enumerate(v.alts):
            if self.fits_strict(t, alt): return Ptr(v.tag == k, p.lv.a(k))
        raise OutOfFragment('std::get_if')
    def std_holds_alternative(self, a, n):
        v = self.rv(a[0])
        ref = self.callee_ref(n['inner'][0])
        raise OutOfFragment('holds_alternative')
    def std_visit(self, a, n):
        f = self.ev(a[0]); l = self.lv(a[1]); v = self.read(l)
        if not isinstance(v, Variant): raise OutOfFragment('visit of %r' % (v,))
        for k in range(len(v.alts)):
            if k == len(v.alts) - 1 or self.ctx.decide(v.tag == k):
                return self.call_value(f, [l.a(k)])
    def std_begin(self, a, n):
        l = self.ev(a[0]); v = self.read(l) if isinstance(l, LV) else l
        if isinstance(v, (Vec, Tup)): return Rec('iter', {'seq': v, 'pos': z3.IntVal(0), 'lv': l if isinstance(l, LV) else None})
        raise OutOfFragment('std::begin')
    std_cbegin = std_begin
    def std_end(self, a, n):
        l = self.ev(a[0]); v = self.read(l) if isinstance(l, LV) else l
        ln = v.len if isinstance(v, Vec) else z3.IntVal(len(v.items))
        return Rec('iter', {'seq': v, 'pos': ln, 'lv': l if isinstance(l, LV) else None})
    std_cend = std_end
    def std_rbegin(self, a, n):
        r = self.std_begin(a, n); return Rec('riter', r.fields)
    def std_rend(self, a, n):
        r = self.std_end(a, n); return Rec('riter', r.fields)
    def std_make_move_iterator(self, a, n): return self.rv(a[0])
    def std_for_each(self, a, n):
        v, lo, hi, lv = self.seq_range(a[0], a[1]); f = self.ev(a[2])
        if not isinstance(v, Vec): raise OutOfFragment('for_each')
        slv = lv if lv is not None else self.new_cell('range', v, n['id'])
        it = self.new_cell('__it', lo, n['id'])
        self.names['__it'] = '__it'; self.env['__it'] = it
        self.run_loop(self.loop_key(n), self.loop_spec('foreach'), lambda: self.read(it) < hi,
                      lambda: self.call_value(f, [slv.i(self.read(it))]), lambda: self.write(it, self.read(it) + 1))
        return f
    def seq_range(self, a, b):
        """(vector, lo, hi) of an iterator range"""
        x, y = self.rv(a), self.rv(b)
        if not (isinstance(x, Rec) and isinstance(y, Rec) and x.tname == 'iter'): raise OutOfFragment('iterator')
        return x.fields['seq'], x.fields['pos'], y.fields['pos'], x.fields['lv']
    def binop_iter(self, op, x, y): pass
    def pred_formula(self, f, v, i):
        """Value of a pure boolean callback at element i of v, as one formula (all its paths merged)."""
        el = vsel(v.el, i)
        return self.pure_call(f, [el])
    def pure_call(self, f, vals, want='bool'):
        """Symbolically run a side-effect-free closure over all its paths and merge the results."""
        sub = PureRun(self)
        return sub.run(lambda: self.call_value(f, [self.new_cell('arg', x) for x in vals]), want)
    def quant(self, a, kind):
        v, lo, hi, _ = self.seq_range(a[0], a[1])
        f = self.ev(a[2])
        body = lambda i: self.pred_formula(f, v, i)
        if isinstance(v, Tup):
            fs = [self.pure_call(f, [x]) for x in v.items]
            return {'all': z3.And(*fs), 'any': z3.Or(*fs), 'none': z3.Not(z3.Or(*fs))}[kind]
        # check the body once at a generic element (for its own obligations)
        g = self.ctx.fresh_int('elem'); 
        k = len(self.ctx.hyps)
        self.ctx.hyps.append(z3.And(lo <= g, g < hi))
        body_g = body(g)
        del self.ctx.hyps[k:]
        inst = lambda i: z3.substitute(body_g, (g, i))
        res = self.ctx.fresh_bool(kind + '_of')
        neg = kind in ('any', 'none')
        p = (lambda i: z3.Not(inst(i))) if neg else inst
        # allp: every element satisfies p
        allp = z3.Not(res) if kind == 'any' else res
        if self.ctx.decide(allp):
            self.ctx.assume(FA(kind, I, lambda i: z3.Implies(z3.And(lo <= i, i < hi), p(i))))
        else:
            w = self.ctx.fresh_int('wit'); self.ctx.terms.append(w)
            self.ctx.assume(z3.And(lo <= w, w < hi, z3.Not(p(w))))
        return res
    def std_count_if(self, a, n):
        """A number c of elements satisfying the predicate: c is 0 iff none does, 1 iff exactly one does, hi-lo iff all do."""
        v, lo, hi, _ = self.seq_range(a[0], a[1]); f = self.ev(a[2])
        if not isinstance(v, Vec): raise OutOfFragment('count_if')
        g = self.ctx.fresh_int('elem'); k = len(self.ctx.hyps)
        self.ctx.hyps.append(z3.And(lo <= g, g < hi))
        body_g = self.pred_formula(f, v, g)
        del self.ctx.hyps[k:]
        P = lambda i: z3.substitute(body_g, (g, i))
        inr = lambda i: z3.And(lo <= i, i < hi)
        c = self.ctx.fresh_int('count'); w1, w2, w3 = [self.ctx.fresh_int('counted') for _ in range(3)]
        self.ctx.terms += [w1, w2, w3]
        A = self.ctx.assume
        A(z3.And(c >= 0, z3.Implies(hi >= lo, c <= hi - lo)))
        A(z3.Implies(c >= 1, z3.And(inr(w1), P(w1)))); A(z3.Implies(c >= 2, z3.And(inr(w2), P(w2), w1 != w2)))
        A(z3.Implies(z3.And(hi >= lo, c < hi - lo), z3.And(inr(w3), z3.Not(P(w3)))))
        A(FA('count', I, lambda i: z3.And(z3.Implies(z3.And(inr(i), P(i)), c >= 1), z3.Implies(z3.And(inr(i), z3.Not(P(i))), c < hi - lo),
                                           z3.Implies(z3.And(inr(i), P(i), c == 1), i == w1))))
        return c
    def std_all_of(self, a, n): return self.quant(a, 'all')
    def std_any_of(self, a, n): return self.quant(a, 'any')
    def std_none_of(self, a, n): return self.quant(a, 'none')

class PureRun:
    """All paths of a side-effect-free expression, merged into one formula."""
    def __init__(self, it): self.it = it
    def run(self, thunk, want):
        it = self.it; octx = it.ctx
        results = []
        work = [[]]
        cells0, env0, names0 = dict(it.cells), dict(it.env), dict(it.names)
        base_h = list(octx.hyps)
        while work:
            prefix = work.pop()
            sub = SubCtx(octx, prefix, work)
            it.ctx = sub
            it.cells, it.env, it.names = dict(cells0), dict(env0), dict(names0)
            d0 = (it.depth, list(it.this), list(it.fstack), it.loopcount)
            try:
                v = thunk()
                v = it.read(v) if isinstance(v, LV) else v
                results.append((z3.And(*sub.conds) if sub.conds else z3.BoolVal(True), v))
            except PathEnd: pass
            finally:
                it.ctx = octx
                it.depth, it.this, it.fstack, it.loopcount = d0
            if len(results) > 200: raise OutOfFragment('callback too branching')
        it.cells, it.env, it.names = cells0, env0, names0
        octx.hyps[:] = base_h
        if want == 'bool':
            return z3.Or(*[z3.And(c, it.as_bool(v)) for c, v in results])
        r = results[-1][1]
        for c, v in results[:-1][::-1]: r = vite(c, v, r)
        return r

class SubCtx:
    def __init__(self, parent, prefix, work):
        self.p, self.prefix, self.work = parent, prefix, work
        self.taken, self.conds = [], []
        self.hyps, self.terms, self.func = parent.hyps, parent.terms, parent.func
        self.h0 = len(parent.hyps)
    def __getattr__(self, k): return getattr(self.p, k)
    def fresh(self, n, s): return self.p.fresh(n, s)
    def assume(self, h): self.p.assume(h)
    def oblige(self, name, goal, kind='assert', loc=None):
        hs = self.p.hyps; k = len(hs)
        hs.extend(self.conds)
        try: self.p.oblige(name, goal, kind, loc)
        finally: del hs[k:]
    def cover(self, n): pass
    def decide(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        k = len(self.taken)
        if k < len(self.prefix): v = self.prefix[k]
        else:
            v = True; self.work.append(self.taken + [False])
        self.taken.append(v); self.conds.append(cond if v else z3.Not(cond))
        return v

NPOS = z3.IntVal(2 ** 64 - 1)

def unbool(x):
    if x.sort() == B: return x
    s = z3.simplify(x) if False else x
    if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = s.children()
        if z3.is_int_value(a) and z3.is_int_value(b) and a.as_long() == 1 and b.as_long() == 0: return c
    return None

def split_targs(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([': d += 1
        if ch in '>)]': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

def short(full):
    m = re.match(r'(?:.*\s)?((?:tnco::)?[\w:]+?)(?:<|\(|\[)', full)
    s = re.sub(r'<[^<>]*>', '', full)
    for _ in range(6): s = re.sub(r'<[^<>]*>', '', s)
    return s.split('(')[0].split(' ')[-1][-60:]
