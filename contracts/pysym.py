"""Contracts of get_symbol and the einsum expressions (C19)."""
import z3
from vcgen.core import *
from vcgen.run import Unit
from vcgen.pyexec import *
from .pyset import no_throw, rng, arb_seq

S = z3.Select
NSYM = 0x110000 - 2048                       # characters that are not surrogates
SYM = z3.Function('symcode', I, I); INV = z3.Function('symnumber', I, I)
SEP = [ord(c) for c in ',->']

def unit_symbol():
    def body(it):
        ctx = it.ctx
        i, j = ctx.fresh('i', I), ctx.fresh('j', I)
        for k in (i, j): ctx.assume(rng(k, 0, NSYM))
        ctx.cover('get_symbol')
        code = []
        for k in (i, j):
            f = it.fn('tnco.utils.tn.get_symbol')
            r = it.get(no_throw(it, lambda: it.call_fn(f, [k], {}), 'get_symbol'))
            if isinstance(r, str):
                ctx.oblige('get_symbol: one character', z3.BoolVal(len(r) == 1), 'post'); r = Chr(z3.IntVal(ord(r[0])))
            if isinstance(r, Rope):
                raise OutOfFragment('symbol built from pieces')
            code.append(r.code)
            ctx.oblige('get_symbol: not a separator of the einsum expression', z3.And(*[r.code != c for c in SEP]), 'post')
        ctx.oblige('get_symbol: different numbers have different symbols', z3.Implies(i != j, code[0] != code[1]), 'post')
        ctx.oblige('get_symbol: equal numbers have equal symbols', z3.Implies(i == j, code[0] == code[1]), 'post')
    return Unit('get_symbol', ['C19'], body, lang='python')

def symbol_contract(it, args, kw):
    """requires 0 <= i < NSYM; the result is the character SYM(i)"""
    i = zint(it.get(args[0] if args else kw['i']))
    it.guard(rng(i, 0, NSYM), 'ValueError')
    return Chr(SYM(i))
def symbol_facts(it):
    # established by unit_symbol: injective (INV is its inverse), one character, no separator
    it.ctx.assume(FA('symbols', I, lambda i: z3.Implies(rng(i, 0, NSYM), z3.And(INV(SYM(i)) == i, *[SYM(i) != c for c in SEP]))))

def arb_rows(it, nm):
    """a list of index lists"""
    n = it.ctx.fresh(nm + '.n', I); ln = it.ctx.fresh(nm + '.len', z3.ArraySort(I, I)); el = it.ctx.fresh(nm, z3.ArraySort(I, z3.ArraySort(I, U)))
    it.ctx.assume(n >= 0); it.ctx.assume(FA('rowlen', I, lambda i: S(ln, i) >= 0))
    return Seq(n, lambda i: Seq(S(ln, zint(i)), lambda j, i=i: S(S(el, zint(i)), zint(j)), 'list'), 'list')

def normal(it, r):
    """the pieces of an einsum expression: ([(row count, row of pieces)], output)"""
    w = it.get(r)
    if isinstance(w, str): w = Rope([w])
    if not isinstance(w, Rope): raise OutOfFragment('the expression is not a text built from characters')
    return w.parts

def operands(it, parts):
    """splits at the separators: (operands, output); an operand is a Seq of codes or ('join', sep, Seq of Rope)"""
    groups = [[]]
    for p in parts:
        if isinstance(p, str):
            toks = re.findall(r'->|,|[^,\->]+', p)
            if ''.join(toks) != p: return None
            for t in toks:
                if t in (',', '->'): groups.append(t); groups.append([])
                else: groups[-1].append(('chars', Seq(z3.IntVal(len(t)), lambda i, t=t: seq(tuple(z3.IntVal(ord(c)) for c in t)).get(i))))
        else: groups[-1].append(p)
    return groups

def chars(it, g):
    """one run of characters"""
    if not g: return Seq(z3.IntVal(0), lambda i: z3.IntVal(0))
    s = g[0][1]
    for x in g[1:]: s = it.concat(s, x[1])
    return s

class Code:
    """index -> its symbol: the same code for equal indices, another one for different indices"""
    def __init__(self, it, what): self.it, self.what, self.at = it, what, []
    def add(self, where, ix, code, guard):
        """guard(xs) -> formula, ix(xs) -> index, code(xs) -> character, for positions xs"""
        self.at.append((where, ix, code, guard))
    def oblige(self):
        ctx = self.it.ctx
        for a, (wa, ixa, ca, ga) in enumerate(self.at):
            ctx.oblige('%s: the symbols of %s are not separators' % (self.what, wa), FA('sep', [I, I], lambda i, j: z3.Implies(ga(i, j), z3.And(*[ca(i, j) != c for c in SEP]))), 'post')
            for b, (wb, ixb, cb, gb) in enumerate(self.at[:a + 1]):
                ctx.oblige('%s: equal indices have equal symbols (%s, %s)' % (self.what, wa, wb), FA('same', [I] * 4, lambda i, j, k, l: z3.Implies(z3.And(ga(i, j), gb(k, l), ixa(i, j) == ixb(k, l)), ca(i, j) == cb(k, l))), 'post')
                ctx.oblige('%s: different indices have different symbols (%s, %s)' % (self.what, wa, wb), FA('other', [I] * 4, lambda i, j, k, l: z3.Implies(z3.And(ga(i, j), gb(k, l), ixa(i, j) != ixb(k, l)), ca(i, j) != cb(k, l))), 'post')

def limited(it, *seqs):
    """at most NSYM indices in all"""
    return sum((s.n for s in seqs), z3.IntVal(0)) <= NSYM

def unit_tn():
    def body(it):
        ctx = it.ctx
        symbol_facts(it)
        k = ctx.choose(2); rows = arb_rows(it, 'ts'); out = arb_seq(it, 'out', 'list')
        # there are enough symbols for all the indices (stated on the length of the flattened list)
        it.opts = dict(it.opts, flat_max=NSYM - out.n)
        args = [rows, out] if k == 0 else [it.new_ref(Seq(rows.n, rows.get, 'iter'), 'iter'), it.new_ref(Seq(out.n, out.get, 'iter'), 'iter')]
        ctx.cover('get_einsum_subscripts')
        f = it.fn('tnco.utils.tn.get_einsum_subscripts')
        r = no_throw(it, lambda: it.call_fn(f, args, {}), 'get_einsum_subscripts')
        g = operands(it, normal(it, r))
        W = 'get_einsum_subscripts'
        if not (g and len(g) == 3 and g[1] == '->'): ctx.oblige(W + ': operands, arrow, output', z3.BoolVal(False), 'post'); return
        if len(g[0]) != 1 or g[0][0][0] != 'join' or g[0][0][1] != ',': raise OutOfFragment('operands not joined by commas')
        ops = g[0][0][2]
        ctx.oblige(W + ': one operand per tensor', ops.n == rows.n, 'post')
        def op(i):
            p = ops.get(i).parts
            if len(p) != 1 or p[0][0] != 'chars': raise OutOfFragment('operand')
            return p[0][1]
        ctx.oblige(W + ': one symbol per index of a tensor', FA('oplen', I, lambda i: z3.Implies(rng(i, 0, rows.n), op(i).n == rows.get(i).n)), 'post')
        o = chars(it, g[2])
        ctx.oblige(W + ': one symbol per output index', o.n == out.n, 'post')
        C = Code(it, W)
        C.add('the operands', lambda i, j: rows.get(i).get(j), lambda i, j: op(i).get(j), lambda i, j: z3.And(rng(i, 0, rows.n), rng(j, 0, rows.get(i).n)))
        C.add('the output', lambda i, j: out.get(j), lambda i, j: o.get(j), lambda i, j: rng(j, 0, out.n))
        C.oblige()
    return Unit('tn.get_einsum_subscripts', ['C19'], body, contracts={r'tnco\.utils\.tn\.get_symbol': symbol_contract}, lang='python')

def unit_tensor():
    def body(it):
        ctx = it.ctx
        symbol_facts(it)
        k = ctx.choose(3); kind = ('list', 'tuple', 'list')[k]
        a, b, out = (arb_seq(it, nm, kind) for nm in ('a', 'b', 'out'))
        ctx.assume(limited(it, a, b, out))
        ctx.cover('tensor.get_einsum_subscripts')
        f = it.fn('tnco.utils.tensor.get_einsum_subscripts')
        r = no_throw(it, lambda: it.call_fn(f, [a, b, out] if k < 2 else [it.new_ref(Seq(s.n, s.get, 'iter'), 'iter') for s in (a, b, out)], {}), 'get_einsum_subscripts')
        g = operands(it, normal(it, r))
        W = 'tensor.get_einsum_subscripts'
        if not (g and [x for x in g if isinstance(x, str)] == [',', '->']): ctx.oblige(W + ': two operands, arrow, output', z3.BoolVal(False), 'post'); return
        C = Code(it, W)
        for nm, s, x in (('the first operand', a, g[0]), ('the second operand', b, g[2]), ('the output', out, g[4])):
            c = chars(it, x)
            ctx.oblige('%s: one symbol per index of %s' % (W, nm), c.n == s.n, 'post')
            C.add(nm, lambda i, j, s=s: s.get(j), lambda i, j, c=c: c.get(j), lambda i, j, s=s: rng(j, 0, s.n))
        C.oblige()
    return Unit('tensor.get_einsum_subscripts', ['C19'], body, contracts={r'tnco\.utils\.tn\.get_symbol': symbol_contract}, lang='python')

def units_c19(): return [unit_symbol, unit_tensor, unit_tn]
def all_units(): return [u() for u in units_c19()]
