"""Contracts of contraction trees: what it means that a tree is a contraction of a network (exactness)."""
import z3
from vcgen.core import *
from vcgen.vals import *
from .tree import *

DIMS = ('var', ['int', ('vec', 'int')])
CTREE = ('rec', 'ContractionTree', {'nodes': ('vec', NODE), 'inds': ('vec', 'set'), 'dims': DIMS})

class G:
    """Ghost state of a contraction tree."""
    def __init__(self, ctx, tag=''):
        self.rank = ctx.fresh('rank' + tag, z3.ArraySort(I, R))
        self.below = ctx.fresh('below' + tag, z3.ArraySort(I, SET))
        self.out = ctx.fresh('out' + tag, z3.ArraySort(I, SET))
        self.nl = ctx.fresh_int('n_leaves' + tag)
        self.ninds = ctx.fresh_int('n_inds' + tag)
    def copy(self):
        g = object.__new__(G); g.__dict__.update(self.__dict__); return g

def inds_(t, i): return z3.Select(t.inds.el.mem, i)
def isz(t, i): return z3.Select(t.inds.el.size, i)
def S(a, i): return z3.Select(a, i)

def sizes_ok(t, g):
    n = t.nodes.len
    return [('one index set per node', t.inds.len == n),
            ('index sets have n_inds positions', FA('isz', I, lambda i: z3.Implies(rng(i, 0, n), isz(t, i) == g.ninds))),
            ('n_inds', g.ninds >= 0)]

def dims_ok(t, g):
    d = t.dims
    dv = d.alts[1]
    return [('dims', z3.And(z3.Or(d.tag == 0, d.tag == 1), z3.Implies(d.tag == 0, d.alts[0] >= 1), z3.Implies(d.tag == 1, dv.len == g.ninds))),
            ('dims positive', FA('dims', I, lambda i: z3.Implies(z3.And(d.tag == 1, rng(i, 0, g.ninds)), S(dv.el, i) >= 1)))]

def exact(t, g):
    """inds[i] = (indices of the leaves below i) and (indices needed outside of i)."""
    n = t.nodes.len; nodes = t.nodes
    def ex(i):
        return z3.Implies(rng(i, 0, n), inds_(t, i) == set_inter(S(g.below, i), S(g.out, i)))
    def below(i):
        return z3.Implies(rng(i, 0, n), z3.If(i < g.nl, S(g.below, i) == inds_(t, i),
                          S(g.below, i) == set_union(S(g.below, c0(nodes, i)), S(g.below, c1(nodes, i)))))
    def out(i):
        L, Rr = c0(nodes, i), c1(nodes, i)
        return z3.Implies(rng(i, g.nl, n), z3.And(S(g.out, L) == set_union(S(g.out, i), S(g.below, Rr)),
                                                  S(g.out, Rr) == set_union(S(g.out, i), S(g.below, L))))
    return [('each tensor carries exactly the indices needed outside its subtree', FA('exact', I, ex)),
            ('below', FA('below', I, below)), ('out', FA('out', I, out)),
            ('the root carries the output indices', z3.And(S(g.out, n - 1) == inds_(t, n - 1)))]

def shared(t, g):
    """every contraction joins two tensors that share an index"""
    nodes = t.nodes
    return FA('shared', I, lambda i: z3.Implies(rng(i, g.nl, nodes.len), set_inter(inds_(t, c0(nodes, i)), inds_(t, c1(nodes, i))) != EMPTY))

def ctree_inv(t, g):
    return wf(t.nodes, g.nl, g.rank) + sizes_ok(t, g) + exact(t, g)

def hyper_ok(t, g, hyper):
    """hyper[i] = inds[i] & inds[left] & inds[right]; empty for leaves"""
    nodes = t.nodes
    def f(i):
        m = S(hyper.el.mem, i)
        return z3.Implies(rng(i, 0, nodes.len), z3.And(S(hyper.el.size, i) == g.ninds,
            z3.If(i < g.nl, m == EMPTY, m == set_inter(set_inter(inds_(t, i), inds_(t, c0(nodes, i))), inds_(t, c1(nodes, i))))))
    return [('one hyper set per node', hyper.len == nodes.len), ('hyper-index cache', FA('hyper', I, f))]

K = z3.Function('K', SET, R)       # cost of contracting over a set of indices (the cost model's contract, C06)
def union3(a, b, c): return set_union(set_union(a, b), c)

def ccost_ok(t, g, ccost, extra=None):
    nodes = t.nodes
    def f(i):
        u = set_union(inds_(t, c0(nodes, i)), inds_(t, c1(nodes, i)))
        if extra is not None: u = set_union(u, extra)
        return z3.Implies(rng(i, 0, nodes.len), S(ccost.el, i) == z3.If(i < g.nl, z3.RealVal(0), K(u)))
    return [('one contraction cost per node', ccost.len == nodes.len), ('contraction-cost cache', FA('ccost', I, f))]

def partial_eq(t, g, partial, ccost, i):
    nodes = t.nodes
    return S(partial.el, i) == z3.If(i < g.nl, z3.RealVal(0), S(partial.el, c0(nodes, i)) + S(partial.el, c1(nodes, i)) + S(ccost.el, i))
def partial_ok(t, g, partial, ccost, stale=None):
    """partial[i] = partial[left] + partial[right] + cost of i (for every node but the stale one)"""
    nodes = t.nodes
    def f(i):
        c = partial_eq(t, g, partial, ccost, i)
        if stale is not None: c = z3.Or(i == stale, c)
        return z3.Implies(rng(i, 0, nodes.len), c)
    return [('one partial cost per node', partial.len == nodes.len), ('partial-cost cache', FA('partial', I, f))]
