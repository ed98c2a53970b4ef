"""Contracts of include/tnco/node.hpp, tree.hpp (C01, C08) and of traverse (C09)."""
import z3
from vcgen.core import *
from vcgen.vals import *
from vcgen.run import Unit
from vcgen.cxxexec import LV, Thrown

NODE = ('rec', 'Node', {'children': ('tup', ['int', 'int']), 'parent': 'int'})
TREE = ('rec', 'Tree', {'nodes': ('vec', NODE)})

def c0(nodes, i): return z3.Select(nodes.el.fields['children'].items[0], i)
def c1(nodes, i): return z3.Select(nodes.el.fields['children'].items[1], i)
def par(nodes, i): return z3.Select(nodes.el.fields['parent'], i)

def rng(i, lo, hi): return z3.And(lo <= i, i < hi)

def wf(nodes, nl, rank):
    """A valid rooted binary tree: leaves are 0..nl-1, the root is the last node, every inner node has two
    distinct children whose parent it is, and rank (ghost) strictly decreases downwards, so that there is no
    cycle and every node is below the root."""
    n = nodes.len
    def kids(i):
        return z3.Implies(rng(i, 0, n), z3.If(i < nl,
            z3.And(c0(nodes, i) == -1, c1(nodes, i) == -1),
            z3.And(rng(c0(nodes, i), 0, n), rng(c1(nodes, i), 0, n), c0(nodes, i) != c1(nodes, i),
                   par(nodes, c0(nodes, i)) == i, par(nodes, c1(nodes, i)) == i)))
    def parents(i):
        p = par(nodes, i)
        return z3.Implies(rng(i, 0, n), z3.If(i == n - 1, p == -1,
            z3.And(rng(p, nl, n), z3.Or(c0(nodes, p) == i, c1(nodes, p) == i))))
    def ranks(i):
        return z3.Implies(z3.And(rng(i, 0, n), i != n - 1), z3.Select(rank, par(nodes, i)) > z3.Select(rank, i))
    return [('sizes', z3.And(nl >= 1, n == 2 * nl - 1)),
            ('children', FA('kids', I, kids)),
            ('parents', FA('parents', I, parents)),
            ('acyclic', FA('ranks', I, ranks))]

def assume_all(ctx, fs):
    for _, f in fs: ctx.assume(f)

def swapped(nodes, D):
    """Declarative effect of exchanging D with its uncle, as (applies, A, B, C, position of C below A, of D below B)."""
    B = par(nodes, D); A = par(nodes, B)
    C = z3.If(c0(nodes, A) == B, c1(nodes, A), c0(nodes, A))
    applies = z3.And(0 <= D, D < nodes.len, par(nodes, D) != -1, par(nodes, B) != -1)
    return applies, A, B, C

def swap_post(old, new, D):
    """new is old with subtrees D and C (uncle of D) exchanged: every link is specified."""
    ok, A, B, C = swapped(old, D)
    def one(i):
        e0 = z3.If(z3.And(ok, i == A), z3.If(c0(old, A) == C, D, c0(old, A)),
             z3.If(z3.And(ok, i == B), z3.If(c0(old, B) == D, C, c0(old, B)), c0(old, i)))
        e1 = z3.If(z3.And(ok, i == A), z3.If(c1(old, A) == C, D, c1(old, A)),
             z3.If(z3.And(ok, i == B), z3.If(c1(old, B) == D, C, c1(old, B)), c1(old, i)))
        # the two children may come in either order
        pe = z3.If(z3.And(ok, i == D), A, z3.If(z3.And(ok, i == C), B, par(old, i)))
        return z3.Implies(rng(i, 0, old.len),
            z3.And(par(new, i) == pe,
                   z3.Or(z3.And(c0(new, i) == e0, c1(new, i) == e1),
                         z3.And(ok, z3.Or(i == A, i == B), c0(new, i) == e1, c1(new, i) == e0))))
    return [('same number of nodes', new.len == old.len), ('every link', FA('links', I, one))]

def swap_rank(old, rank, D):
    """Ghost update: only B needs a new rank (between its new child C and A)."""
    ok, A, B, C = swapped(old, D)
    mx = z3.If(z3.Select(rank, C) > z3.Select(rank, B), z3.Select(rank, C), z3.Select(rank, B))
    return z3.If(ok, z3.Store(rank, B, (mx + z3.Select(rank, A)) / 2), rank)

def unit_swap(debug=True):
    def body(it):
        fn = it.ast.find1(r'tree::Tree<tnco::node::Node<long> >::swap_with_nn\(')
        ctx = it.ctx
        t = mk(TREE, 'tree', ctx.fresh); rank = ctx.fresh('rank', z3.ArraySort(I, R)); nl = ctx.fresh_int('n_leaves')
        D = ctx.fresh_int('pos'); ctx.terms += [D]
        assume_all(ctx, wf(t.nodes, nl, rank))
        ctx.cover('swap_with_nn: precondition')
        it.nl = nl
        ok, A, B, C = swapped(t.nodes, D)
        ctx.terms += [B, A, C]
        this = it.new_cell('this', t)
        it.ghost_swap = (t.nodes, rank, D)
        it.call_fn(fn, [D], this)
        new = it.read(this).nodes
        ctx.cover('swap_with_nn: exit')
        for nm, g in swap_post(t.nodes, new, D): ctx.oblige('exact exchange: ' + nm, g, 'post')
        for nm, g in wf(new, nl, swap_rank(t.nodes, rank, D)): ctx.oblige('the result is a valid tree: ' + nm, g, 'post')
    def is_valid(it, args, this):
        # contract of Tree::is_valid (proved under C08): a well-formed tree is reported valid
        nodes, rank, D = it.ghost_swap
        for nm, g in wf(it.read(this).nodes, it.nl, swap_rank(nodes, rank, D)): it.ctx.oblige('Tree::is_valid() is satisfied: ' + nm, g, 'call-pre')
        return Tup([z3.BoolVal(True), Opaque('str')])
    return Unit('Tree::swap_with_nn', ['C01'], body, contracts={r'tnco::tree::Tree::is_valid': is_valid}, opts={'throw': 'violation'})
