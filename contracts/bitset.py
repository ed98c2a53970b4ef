"""Contracts of include/tnco/bitset.hpp used by callers (the functions themselves are verified under C10)."""
import z3
from vcgen.core import *
from vcgen.vals import *
from vcgen.cxxexec import LV
from .tree import rng

def positions_facts(ctx, s, pos):
    """pos (vector of int) lists exactly the members of s below its size, each once."""
    idx = ctx.fresh('posidx', z3.ArraySort(I, I))
    S = z3.Select
    ctx.assume(pos.len >= 0); ctx.assume(pos.len <= s.size)
    ctx.assume(FA('positions', I, lambda j: z3.Implies(rng(j, 0, pos.len), z3.And(rng(S(pos.el, j), 0, s.size), S(s.mem, S(pos.el, j)), S(idx, S(pos.el, j)) == j))))
    ctx.assume(FA('positions_all', I, lambda k: z3.Implies(z3.And(rng(k, 0, s.size), S(s.mem, k)), z3.And(rng(S(idx, k), 0, pos.len), S(pos.el, S(idx, k)) == k))))
    return idx

def positions(it, args, this):
    s = it.read(this)
    pos = mk(('vec', 'int'), 'positions', it.ctx.fresh)
    positions_facts(it.ctx, s, pos)
    return pos

def visit(it, args, this):
    """visit(f): f(k) for each member k, in increasing order (verified under C10).

    A loop specification with done=True has an invariant inv(it, done) over the set of members visited so far."""
    ctx = it.ctx
    s = it.read(this); f = args[0]
    spec = it.loop_spec('visit')
    key = ('visit',) + tuple(it.fstack) + (it.loopcount['visit'],)
    inv = (spec.inv if getattr(spec, 'done', False) else (lambda i, done: spec.inv(i))) if spec is not None else (lambda i, done: [])
    nm0 = getattr(spec, 'name', 'for each index')
    it.cur_loop = key; it.cur_elem = None
    for nm, g in inv(it, EMPTY): ctx.oblige('loop invariant holds initially [%s] %s' % (nm0, nm), g, 'inv-init')
    before = set(it.cells)
    it.havoc(key)
    if ctx.choose(2) == 0:
        done = ctx.fresh('visited', SET); k = ctx.fresh_int('member'); ctx.terms.append(k)
        ctx.assume(z3.And(rng(k, 0, s.size), z3.Select(s.mem, k), z3.Not(z3.Select(done, k))))
        ctx.assume(FA('visited', I, lambda j: z3.Select(done, j) == z3.And(rng(j, 0, s.size), z3.Select(s.mem, j), j < k)))
        for nm, g in inv(it, done): ctx.assume(g)
        it.loopstack.append((key, before))
        it.call_value(f, [k])
        it.loopstack.pop(); it.cur_loop = key; it.cur_elem = k
        for nm, g in inv(it, z3.Store(done, k, z3.BoolVal(True))): ctx.oblige('loop invariant is preserved [%s] %s' % (nm0, nm), g, 'inv-step')
        it.cur_elem = None
        raise PathEnd()
    for nm, g in inv(it, s.mem): ctx.assume(g)
    return None
CALLS = {r'tnco::bitset::Bitset::positions': positions, r'tnco::bitset::Bitset::visit': visit}
CALLS_VISIT = {r'tnco::bitset::Bitset::visit': visit}
