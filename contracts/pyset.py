"""Contracts of tnco/ordered_frozenset.py (C18)."""
import z3
from vcgen.core import *
from vcgen.run import Unit
from vcgen.pyexec import *

S = z3.Select
Q = 'tnco.ordered_frozenset.OrderedFrozenSet'
EMPTYU = z3.K(U, z3.BoolVal(False))
def rng(i, lo, hi): return z3.And(lo <= i, i < hi)

def arb_seq(it, nm, kind='tuple', distinct=False):
    s = it.fresh_seq(nm, U); s.kind = kind; s.distinct = distinct
    return s
def rep(it, ref):
    """(order, members) of an ordered frozen set"""
    o = it.get(ref)
    return it.get(o.fields['_order']), it.get(o.fields['_set'])
def invariant(order, st):
    """the representation: the order lists the members, each once (pos: where)"""
    pos = z3.Const('pos!%d' % id(order), z3.ArraySort(U, I))
    return pos, [('listed', FA('listed', U, lambda x: z3.Implies(S(st.mem, x), z3.And(rng(S(pos, x), 0, order.n), order.get(S(pos, x)) == x)))),
                 ('members', FA('members', I, lambda i: z3.Implies(rng(i, 0, order.n), z3.And(S(st.mem, order.get(i)), S(pos, order.get(i)) == i))))]
def arb_set(it, nm):
    order = arb_seq(it, nm, distinct=True); st = PSet(it.ctx.fresh(nm + '.set', z3.ArraySort(U, B)))
    pos, inv = invariant(order, st); order.pos = pos
    for _, g in inv: it.ctx.assume(g)
    m = it.mods.load('tnco.ordered_frozenset')
    if m is None or 'OrderedFrozenSet' not in m: raise OutOfFragment('OrderedFrozenSet not found')
    return it.new_ref(Obj(m['OrderedFrozenSet'], {'_order': order, '_set': st}), nm), order, st

def check_result(it, r, mem, source, what):
    """r is an ordered frozen set with the members mem (element -> formula), in the order of source (pos: element -> first position in the source)"""
    ctx = it.ctx
    if not (isinstance(it.get(r), Obj) and it.get(r).cls.qual == Q): raise OutOfFragment('result is not an OrderedFrozenSet')
    order, st = rep(it, r)
    ctx.oblige(what + ': the members are those of the set operation', FA('mem', U, lambda x: S(st.mem, x) == mem(x)), 'post')
    ctx.oblige(what + ': every member is listed', FA('listed', I, lambda i: z3.Implies(rng(i, 0, order.n), S(st.mem, order.get(i)))), 'post')
    ctx.oblige(what + ': nothing is listed twice', FA('once', [I, I], lambda i, j: z3.Implies(z3.And(rng(i, 0, order.n), rng(j, 0, order.n), i != j), order.get(i) != order.get(j))), 'post')
    pos = list_pos(it, order)
    ctx.oblige(what + ': every listed element is a member and conversely', FA('all', U, lambda x: z3.Implies(S(st.mem, x), pos(x))), 'post')
    ctx.oblige(what + ': in the order of first insertion', FA('order', [I, I], lambda i, j: z3.Implies(z3.And(rng(i, 0, order.n), rng(j, 0, order.n), i < j), source(order.get(i)) < source(order.get(j)))), 'post')

def list_pos(it, order):
    """x occurs in the listing"""
    mem = it.toset(order).mem
    return lambda x: S(mem, x)

def first_pos(it, s):
    """element -> position of its first occurrence in s"""
    f = it.ctx.fresh('firstpos', z3.ArraySort(U, I))
    it.ctx.assume(FA('firstpos', I, lambda i: z3.Implies(rng(i, 0, s.n), z3.And(rng(S(f, s.get(i)), 0, i + 1), s.get(S(f, s.get(i))) == s.get(i)))))
    return lambda x: S(f, x)

def no_throw(it, fn, what):
    try: return fn()
    except PyThrown as e:
        it.ctx.oblige('%s: no exception' % what, z3.BoolVal(False), 'post'); raise PathEnd()

def unit_new():
    def body(it):
        ctx = it.ctx
        k = ctx.choose(3)
        s = arb_seq(it, 'given')
        # the iterable: a list or tuple, a one-shot iterator, or another ordered frozen set
        m = it.mods.load('tnco.ordered_frozenset')
        if k == 2:
            ref, order, st = arb_set(it, 'other'); arg, s = ref, order
        elif k == 1: arg = it.new_ref(Seq(s.n, s.get, 'iter'), 'iter')
        else: arg = s
        members = it.toset(s).mem
        first = first_pos(it, s)
        ctx.cover('OrderedFrozenSet(iterable)')
        r = no_throw(it, lambda: it.instantiate(m['OrderedFrozenSet'], [arg], {}), 'construction')
        check_result(it, r, lambda x: S(members, x), first, 'construction')
        if k == 2:
            c = no_throw(it, lambda: it.call_method(ref, 'copy', [], {}), 'copy')
            check_result(it, c, lambda x: S(st.mem, x), lambda x: S(order.pos, x), 'copy')
            o2, s2 = rep(it, ref)
            ctx.oblige('copy: the original is not modified', z3.BoolVal(o2 is order and s2 is st), 'post')
    return Unit('OrderedFrozenSet(iterable), copy', ['C18'], body, lang='python')

BIN = {'union': lambda a, b: z3.Or(a, b), 'intersection': lambda a, b: z3.And(a, b), 'difference': lambda a, b: z3.And(a, z3.Not(b)), 'symmetric_difference': lambda a, b: a != b}
DUNDER = {'union': '__or__', 'intersection': '__and__', 'difference': '__sub__', 'symmetric_difference': '__xor__'}

def other_operand(it, kinds):
    """another operand: ordered frozen set, set, frozenset, list or iterator; returns (value, members, first position)"""
    k = kinds[it.ctx.choose(len(kinds))]
    if k == 'ordered':
        ref, order, st = arb_set(it, 'other'); return k, ref, (lambda x: S(st.mem, x)), (lambda x: S(order.pos, x)), order
    if k in ('set', 'frozenset'):
        v = PSet(it.ctx.fresh('other', z3.ArraySort(U, B)), k); return k, v, (lambda x: S(v.mem, x)), None, None
    s = arb_seq(it, 'other')
    members = it.toset(s).mem; first = first_pos(it, s)
    return k, (it.new_ref(Seq(s.n, s.get, 'iter'), 'iter') if k == 'iterator' else s), (lambda x: S(members, x)), first, s

def unit_algebra(name):
    def body(it):
        ctx = it.ctx
        dunder = ctx.choose(2)
        a, ao, as_ = arb_set(it, 'self')
        k, b, bm, bfirst, bs = other_operand(it, ['ordered', 'frozenset', 'set'] if dunder else ['ordered', 'frozenset', 'list', 'iterator'])
        ctx.cover('%s with %s' % (name, k))
        meth = DUNDER[name] if dunder else name
        r = no_throw(it, lambda: it.call_method(a, meth, [b], {}), name)
        pa = lambda x: S(ao.pos, x)
        if bfirst is None:
            # a plain set has no insertion order: the elements of self come first, in their order
            src = lambda x: z3.If(S(as_.mem, x), pa(x), ao.n)
            order, st = rep(it, r)
            ctx.oblige(name + ': the members are those of the set operation', FA('mem', U, lambda x: S(st.mem, x) == BIN[name](S(as_.mem, x), bm(x))), 'post')
            ctx.oblige(name + ': nothing is listed twice', FA('once', [I, I], lambda i, j: z3.Implies(z3.And(rng(i, 0, order.n), rng(j, 0, order.n), i != j), order.get(i) != order.get(j))), 'post')
            pos = list_pos(it, order)
            ctx.oblige(name + ': the members are the listed elements', FA('all', U, lambda x: S(st.mem, x) == pos(x)), 'post')
            ctx.oblige(name + ': in the order of first insertion', FA('order', [I, I], lambda i, j: z3.Implies(z3.And(rng(i, 0, order.n), rng(j, 0, order.n), i < j, S(as_.mem, order.get(j))), z3.And(S(as_.mem, order.get(i)), pa(order.get(i)) < pa(order.get(j))))), 'post')
        else:
            src = lambda x: z3.If(S(as_.mem, x), pa(x), ao.n + bfirst(x))
            check_result(it, r, lambda x: BIN[name](S(as_.mem, x), bm(x)), src, name)
        o2, s2 = rep(it, a)
        ctx.oblige(name + ': the operand is not modified', z3.BoolVal(o2 is ao and s2 is as_), 'post')
    return Unit('OrderedFrozenSet.%s' % name, ['C18'], body, lang='python')

def unit_tests():
    """subset, superset, disjointness, comparisons, equality, hash, length, membership, iteration"""
    def body(it):
        ctx = it.ctx
        a, ao, as_ = arb_set(it, 'self')
        k, b, bm, _, bs = other_operand(it, ['ordered', 'frozenset', 'set', 'list', 'iterator'])
        bset = PSet(ctx.fresh('othermem', z3.ArraySort(U, B)))
        ctx.assume(FA('othermem', U, lambda x: S(bset.mem, x) == bm(x)))
        A, Bm = as_.mem, bset.mem
        def iff(r, name, cond):
            """r <=> forall x. cond(x)"""
            r = it.truth(r)
            if isinstance(r, bool): r = z3.BoolVal(r)
            if ctx.decide(r): ctx.oblige('%s: true only when it holds' % name, FA('iff', U, cond), 'post')
            else:
                # it must not hold: assume it does and find a contradiction
                ctx.assume(FA('iffnot', U, cond)); ctx.oblige('%s: false only when it does not hold' % name, z3.BoolVal(False), 'post'); raise PathEnd()
        inA, inB = (lambda x: S(A, x)), bm
        sub = lambda x: z3.Implies(inA(x), inB(x)); sup = lambda x: z3.Implies(inB(x), inA(x)); same = lambda x: inA(x) == inB(x)
        if k in ('list', 'iterator'):
            m = ctx.choose(3); name = ('issubset', 'issuperset', 'isdisjoint')[m]
            ctx.cover(name + ' of ' + k)
            r = no_throw(it, lambda: it.call_method(a, name, [b], {}), name)
            iff(r, name, (sub, sup, lambda x: z3.Not(z3.And(inA(x), inB(x))))[m]); return
        m = ctx.choose(12)
        name = ['issubset', 'issuperset', 'isdisjoint', '__le__', '__ge__', '__lt__', '__gt__', '__eq__', '__hash__', '__len__', '__contains__', '__iter__'][m]
        ctx.cover(name + ' of ' + k)
        if m < 5:
            r = no_throw(it, lambda: it.call_method(a, name, [b], {}), name)
            iff(r, name, (sub, sup, lambda x: z3.Not(z3.And(inA(x), inB(x))), sub, sup)[m]); return
        if m in (5, 6):
            r = it.truth(no_throw(it, lambda: it.call_method(a, name, [b], {}), name))
            if ctx.decide(zval(r)):
                ctx.oblige('%s: true only for a proper inclusion (inclusion)' % name, FA('iff', U, sub if m == 5 else sup), 'post')
                ctx.assume(FA('iffnot', U, sup if m == 5 else sub)); ctx.oblige('%s: true only for a proper inclusion (difference)' % name, z3.BoolVal(False), 'post'); raise PathEnd()
            w = ctx.fresh('witness', U)
            ctx.assume(FA('iffnot', U, sub if m == 5 else sup)); ctx.assume(z3.Not((sup if m == 5 else sub)(w))); ctx.terms.append(w)
            ctx.oblige('%s: false only when it is not a proper inclusion' % name, z3.BoolVal(False), 'post'); raise PathEnd()
        if m == 7:
            r = no_throw(it, lambda: it.call_method(a, name, [b], {}), name); iff(r, 'equality', same); return
        if m == 8:
            ra = no_throw(it, lambda: it.call_method(a, '__hash__', [], {}), 'hash')
            rb = it.b_hash(bset) if k != 'ordered' else no_throw(it, lambda: it.call_method(b, '__hash__', [], {}), 'hash')
            if k == 'ordered':
                Bm = rep(it, b)[1].mem
            ctx.assume(A == Bm)
            if k != 'ordered': rb = it.b_hash(PSet(Bm))
            ctx.oblige('hash: equal sets have equal hashes', ra == rb, 'post'); return
        if m == 9:
            n = no_throw(it, lambda: it.b_len(a), 'len')
            # the number of distinct elements: the listing has each member once and n is its length
            ctx.oblige('len: the number of distinct elements', zint(n) == ao.n, 'post'); return
        if m == 10:
            x = ctx.fresh('x', U); r = no_throw(it, lambda: it.contains(x, a), 'in')
            ctx.oblige('membership', zval(r) == S(A, x), 'post'); return
        s = no_throw(it, lambda: it.iterate(a), 'iter')
        ctx.oblige('iteration: in the order of insertion', FA('iter', I, lambda i: z3.Implies(rng(i, 0, ao.n), s.get(i) == ao.get(i))), 'post')
        ctx.oblige('iteration: as many elements as the set has', s.n == ao.n, 'post')
    return Unit('OrderedFrozenSet comparisons', ['C18'], body, lang='python')

def units_c18(): return [unit_new, unit_tests] + [lambda n=n: unit_algebra(n) for n in BIN]
def all_units(): return [u() for u in units_c18()]
