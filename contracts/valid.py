"""Contracts of the validity checks and constructors of nodes, trees and contraction trees (C08)."""
import z3
from vcgen.core import *
from vcgen.vals import *
from vcgen.run import Unit
from vcgen.cxxexec import LV, Thrown
from .tree import *
from .ctree import CTREE, inds_, isz, DIMS

S = z3.Select
def val(it, r): return it.read(r) if isinstance(r, LV) else r
def ctor(it, short, k, pick=lambda fn: True):
    fns = [n for d, n in it.ast.full.items() if n['kind'] == 'CXXConstructorDecl' and n.get('_short') == short and len(it.params(n)) == k and pick(n)]
    if len(fns) != 1: raise OutOfFragment('%d constructors %s/%d' % (len(fns), short, k))
    return fns[0]

# ---------------------------------------------------------------- nodes
def node_ok(a, b, p):
    """both children or none; children distinct and different from the parent"""
    return z3.And((a < 0) == (b < 0), z3.Implies(a >= 0, z3.And(a != b, p != a, p != b)))
def neg(x): return z3.If(x < 0, z3.IntVal(-1), x)

def unit_node():
    def body(it):
        ctx = it.ctx
        a, b, p = [ctx.fresh_int(x) for x in ('child0', 'child1', 'parent')]
        if ctx.choose(2) == 0:
            nd = Rec('Node', {'children': Tup([a, b]), 'parent': p}); this = it.new_cell('this', nd)
            fn = it.ast.find1(r'^tnco::node::Node<long>::is_valid\(\) const$')
            ctx.cover('Node::is_valid: entry')
            r = val(it, it.call_fn(fn, [], this)).items[0]
            ctx.oblige('valid exactly when well formed', it.as_bool(r) == z3.And(node_ok(a, b, p), a >= -1, b >= -1, p >= -1), 'post')
            ctx.oblige('the node is not modified', veq(nd, it.read(this)), 'post')
            return
        this = it.new_cell('this', Rec('Node', {'children': Tup([z3.IntVal(-1), z3.IntVal(-1)]), 'parent': z3.IntVal(-1)}))
        try: it.call_ctor(ctor(it, 'tnco::node::Node::Node', 2), [Tup([a, b]), p], this)
        except Thrown:
            ctx.cover('Node(children, parent): rejected')
            ctx.oblige('rejected only when malformed', z3.Not(node_ok(a, b, p)), 'post'); raise PathEnd()
        ctx.cover('Node(children, parent): accepted')
        nd = it.read(this)
        ctx.oblige('accepted only when well formed', node_ok(a, b, p), 'post')
        ctx.oblige('links are kept (negative: none)', z3.And(nd.children.items[0] == neg(a), nd.children.items[1] == neg(b), nd.parent == neg(p)), 'post')
    return Unit('Node construction and validity', ['C08'], body, lang='c++release')

# ---------------------------------------------------------------- trees
def mutual(nodes, j):
    n = nodes.len; a, b, p = c0(nodes, j), c1(nodes, j), par(nodes, j)
    return z3.And(z3.Implies(a != -1, z3.And(par(nodes, a) == j, par(nodes, b) == j)), z3.Implies(p != -1, z3.Or(c0(nodes, p) == j, c1(nodes, p) == j)))

class LinksLoop:
    name = 'links'
    def __init__(self, st): self.st = st
    def inv(self, it):
        nodes = self.st['nodes']
        k = it.read(find_int(it, ['pos', 'i', 'i_']))
        it.ctx.terms += [k]
        return [('index', rng(k, 0, nodes.len + 1)), ('links so far are mutual', FA('mutual', I, lambda j: z3.Implies(rng(j, 0, k), mutual(nodes, j))))]

def find_int(it, names):
    for n in names:
        d = it.names.get(n)
        if d is not None and d in it.env and z3.is_expr(it.read(it.env[d])) and it.read(it.env[d]).sort() == I: return it.env[d]
    raise OutOfFragment('loop variable %s not identified' % names[0])
def find_vec(it, names, srt):
    ok = lambda v: isinstance(v, Vec) and z3.is_expr(v.el) and v.el.sort() == z3.ArraySort(I, srt)
    for n in names:
        d = it.names.get(n)
        if d is not None and d in it.env and ok(it.read(it.env[d])): return it.read(it.env[d])
    c = [it.cells[x] for x in it.cells if '@' in x and not x.startswith(('ghost', 'this')) and ok(it.cells[x])]
    if len(c) == 1: return c[0]
    raise OutOfFragment('loop variable %s not identified' % names[0])

class ReachLoop:
    name = 'reachability'
    def __init__(self, st): self.st = st
    def inv(self, it):
        st = self.st; nodes = st['nodes']; n = nodes.len
        stack, reached = find_vec(it, ['stack'], I), find_vec(it, ['reached'], B)
        gh = it.read(st['ghost']); on, dep = gh.on, gh.dep
        L = stack.len; Rd = lambda x: S(reached.el, x)
        onst = lambda x: z3.And(rng(S(on, x), 0, L), S(stack.el, S(on, x)) == x)
        above = lambda x: z3.And(Rd(par(nodes, x)), S(dep, x) < S(dep, par(nodes, x)))
        def entry(j):
            x = S(stack.el, j)
            return z3.Implies(rng(j, 0, L), z3.And(rng(x, 0, n), z3.Not(Rd(x)), S(on, x) == j, z3.Or(x == n - 1, above(x))))
        return [('one flag per node', reached.len == n), ('stack', L >= 0),
                ('entries are distinct unreached children of reached nodes', FA('entry', I, entry)),
                ('reached nodes have reached parents of larger rank', FA('up', I, lambda x: z3.Implies(z3.And(rng(x, 0, n), Rd(x), x != n - 1), above(x)))),
                ('children of a reached node are reached or on the stack', FA('down', I, lambda x: z3.Implies(z3.And(rng(x, 0, n), Rd(x), c0(nodes, x) != -1), z3.And(*[z3.Or(Rd(c), onst(c)) for c in (c0(nodes, x), c1(nodes, x))])))),
                ('the root is reached or on the stack', z3.Or(Rd(n - 1), onst(n - 1)))]
    def havoc(self, it):
        st = self.st; nodes = st['nodes']
        stack = find_vec(it, ['stack'], I); top = S(stack.el, stack.len - 1)
        it.ctx.terms += [top, par(nodes, top), c0(nodes, top), c1(nodes, top), nodes.len - 1, stack.len - 1]
        self.old = (stack.len, find_vec(it, ['reached'], B).el, top)
    def step(self, it):
        st = self.st; nodes = st['nodes']
        stack, reached = find_vec(it, ['stack'], I), find_vec(it, ['reached'], B)
        gh = it.read(st['ghost']); on, dep = gh.on, gh.dep
        d = z3.simplify(stack.len - self.old[0])
        if not z3.is_int_value(d): raise OutOfFragment('stack height')
        L = stack.len
        for k in range(d.as_long() + 1, 0, -1):
            x = S(stack.el, L - k)
            on = z3.Store(on, x, L - k); dep = z3.Store(dep, x, S(dep, par(nodes, x)) - 1)
            it.ctx.terms += [x, L - k]
        it.write(st['ghost'], Rec('ghost', {'on': on, 'dep': dep}))
        it.ctx.oblige('termination: each iteration reaches a node that was not reached', z3.And(z3.Not(S(self.old[1], self.old[2])), S(reached.el, self.old[2])), 'variant')
    def exit(self, it):
        """finite-set argument: if some node is not reached, then one of maximal (given) rank is not"""
        st = self.st
        if st['rank'] is None: return
        nodes, rank = st['nodes'], st['rank']; reached = find_vec(it, ['reached'], B); n = nodes.len
        m = it.ctx.fresh_int('unreached'); it.ctx.terms += [m, par(nodes, m), n - 1]
        it.ctx.assume(FA('maxrank', I, lambda k: z3.Implies(z3.And(rng(k, 0, n), z3.Not(S(reached.el, k))), z3.And(rng(m, 0, n), z3.Not(S(reached.el, m)), S(rank, k) <= S(rank, m)))))

def unit_tree():
    st = {}
    def body(it):
        ctx = it.ctx
        fn = it.ast.find1(r'^tnco::tree::Tree<tnco::node::Node<long> >::is_valid\(\) const$')
        t = mk(TREE, 'tree', ctx.fresh); nodes = t.nodes; n = nodes.len; this = it.new_cell('this', t)
        ctx.assume(n >= 1); ctx.terms += [n - 1]
        st.update(nodes=nodes, rank=None, nl=None)
        st['ghost'] = it.new_cell('ghost', Rec('ghost', {'on': z3.Store(ctx.fresh('on', z3.ArraySort(I, I)), n - 1, z3.IntVal(0)), 'dep': ctx.fresh('dep', z3.ArraySort(I, R))}))
        if ctx.choose(2) == 0:
            # reported valid => well formed
            r = it.as_bool(val(it, it.call_fn(fn, [], this)).items[0])
            ctx.assume(r)
            if not ctx.feasible(z3.BoolVal(True)): raise PathEnd()
            ctx.cover('Tree::is_valid: reported valid')
            nl = ctx.fresh_int('half'); ctx.assume(nl == (n + 1) / 2)
            dep = it.read(st['ghost']).dep
            leaf = lambda i: c0(nodes, i) == -1
            prem = [('every link is mutual', FA('mutual', I, lambda j: z3.Implies(rng(j, 0, n), z3.And(mutual(nodes, j), z3.Implies(z3.Not(leaf(j)), c0(nodes, j) != c1(nodes, j)))))),
                    ('the only root is the last node', FA('root', I, lambda j: z3.Implies(rng(j, 0, n), (par(nodes, j) == -1) == (j == n - 1)))),
                    ('the first (n+1)/2 nodes are leaves, and n is odd', z3.And(n == 2 * nl - 1)), ('leaves first', FA('leaves', I, lambda j: z3.Implies(rng(j, 0, nl), leaf(j))))]
            for nm, g in prem: ctx.oblige('counting premise: ' + nm, g, 'lemma-pre')
            # counting: the n-1 nodes that have a parent fill the child positions of the inner nodes two by two, so exactly (n-1)/2 nodes are inner
            ctx.assume(FA('counting', I, lambda j: z3.Implies(rng(j, nl, n), z3.Not(leaf(j)))))
            for nm, g in wf(nodes, nl, dep): ctx.oblige('reported valid only when well formed: ' + nm, g, 'post')
        else:
            nl = ctx.fresh_int('n_leaves'); rank = ctx.fresh('rank', z3.ArraySort(I, R)); st['rank'] = rank
            assume_all(ctx, wf(nodes, nl, rank))
            ctx.terms += [nl]
            ctx.cover('Tree::is_valid: well formed')
            r = it.as_bool(val(it, it.call_fn(fn, [], this)).items[0])
            ctx.oblige('a well-formed tree is reported valid', r, 'post')
        ctx.oblige('the tree is not modified', veq(t, it.read(this)), 'post')
    return Unit('Tree::is_valid', ['C08'], body, loops={r'.*Tree::is_valid#for': LinksLoop(st), r'.*Tree::is_valid#while': ReachLoop(st)}, opts={'throw': 'violation'}, lang='c++release')

def unit_tree_ctor():
    st = {}
    def is_valid(it, args, this):
        b = it.ctx.fresh_bool('valid'); st['valid'] = b; st['at'] = it.read(this)
        return Tup([b, Opaque('str')])
    def body(it):
        ctx = it.ctx
        v = mk(('vec', NODE), 'nodes', ctx.fresh); ctx.assume(v.len >= 0)
        this = it.new_cell('this', Rec('Tree', {'nodes': Vec(z3.IntVal(0), v.el)})); st.clear()
        try: it.call_ctor(ctor(it, 'tnco::tree::Tree::Tree', 1, lambda f: 'vector' in str(it.params(f)[0]['type'])), [v], this)
        except Thrown:
            ctx.cover('Tree(nodes): rejected')
            ctx.oblige('rejected only when empty or invalid', z3.Or(v.len == 0, z3.Not(st['valid'])) if 'valid' in st else v.len == 0, 'post'); raise PathEnd()
        ctx.cover('Tree(nodes): accepted')
        ctx.oblige('accepted only when the validity check says so', z3.And(v.len > 0, st['valid'] if 'valid' in st else z3.BoolVal(False)), 'post')
        ctx.oblige('the validity check sees the nodes', veq(st['at'].nodes, v) if 'at' in st else z3.BoolVal(False), 'post')
        ctx.oblige('the nodes are kept', veq(it.read(this).nodes, v), 'post')
    return Unit('Tree(nodes)', ['C08'], body, contracts={r'tnco::tree::Tree::is_valid': is_valid}, lang='c++release')

# ---------------------------------------------------------------- contraction trees
def dims_good(t, k):
    d = t.dims; dv = d.alts[1]
    return [('dims', z3.If(d.tag == 0, d.alts[0] != 0, dv.len == k)), ('every dimension is positive', FA('dims', I, lambda i: z3.Implies(z3.And(d.tag == 1, rng(i, 0, dv.len)), S(dv.el, i) != 0)))]
def contraction_good(t, nl, check, i):
    nodes = t.nodes; a, b, x = inds_(t, c0(nodes, i)), inds_(t, c1(nodes, i)), inds_(t, i)
    return z3.Implies(rng(i, nl, nodes.len), z3.And(subset(set_xor(a, b), x), subset(x, set_union(a, b)), z3.Implies(check, set_inter(a, b) != EMPTY)))

class ContrLoop:
    name = 'contraction'
    def __init__(self, st): self.st = st
    def inv(self, it):
        st = self.st; t = st['t']
        nl, check = st['nl'], st['check']
        k = it.read(find_int(it, ['i_', 'i', 'pos'])); it.ctx.terms.append(k)
        return [('index', rng(k, 0, t.nodes.len + 1)), ('contractions so far', FA('contr', I, lambda i: z3.Implies(i < k, contraction_good(t, nl, check, i))))]

def unit_ctree():
    st = {}
    def tree_valid(it, args, this):
        # contract of Tree::is_valid (unit above): valid iff well formed
        ctx = it.ctx
        if st['mode'] == 1: return Tup([z3.BoolVal(True), Opaque('str')])
        st['asked'] = True
        if ctx.decide(ctx.fresh_bool('tree_valid')):
            st['nl'] = ctx.fresh_int('n_leaves'); st['rank'] = ctx.fresh('rank', z3.ArraySort(I, R))
            assume_all(ctx, wf(st['t'].nodes, st['nl'], st['rank'])); st['ok'] = True
            return Tup([z3.BoolVal(True), Opaque('str')])
        return Tup([z3.BoolVal(False), Opaque('str')])
    def body(it):
        ctx = it.ctx
        fn = it.ast.find1(r'^tnco::ctree::ContractionTree<[^(]*>::is_valid\(bool\) const$')
        t = mk(CTREE, 'tree', ctx.fresh); this = it.new_cell('this', t); n = t.nodes.len
        check = ctx.fresh_bool('check_shared_inds')
        ctx.assume(z3.And(n >= 1, t.inds.len >= 0, t.dims.alts[1].len >= 0, t.dims.alts[0] >= 0, z3.Or(t.dims.tag == 0, t.dims.tag == 1)))
        ctx.assume(FA('unsigned', I, lambda i: S(t.dims.alts[1].el, i) >= 0)); ctx.assume(FA('usize', I, lambda i: isz(t, i) >= 0))
        k = isz(t, z3.IntVal(0)); ctx.terms += [z3.IntVal(0), n - 1]
        st.clear(); st.update(t=t, check=check, ok=False, mode=ctx.choose(2))
        good = lambda: (lambda nl: [('one index set per node', t.inds.len == n), ('sizes', FA('isz', I, lambda i: z3.Implies(rng(i, 0, n), isz(t, i) == k)))] + dims_good(t, k) + \
                       [('each contraction keeps what exactly one operand carries and nothing that neither carries', FA('contr', I, lambda i: contraction_good(t, nl, check, i)))])(st['nl'])
        if st['mode'] == 0:
            r = it.as_bool(val(it, it.call_fn(fn, [check], this)).items[0])
            ctx.assume(r)
            if not ctx.feasible(z3.BoolVal(True)): raise PathEnd()
            ctx.cover('ContractionTree::is_valid: reported valid')
            ctx.oblige('reported valid only for a valid tree', z3.BoolVal(st['ok']), 'post')
            if not st['ok']: raise PathEnd()
            for nm, g in good(): ctx.oblige('reported valid only when well formed: ' + nm, g, 'post')
        else:
            st['nl'] = ctx.fresh_int('n_leaves'); st['rank'] = ctx.fresh('rank', z3.ArraySort(I, R))
            assume_all(ctx, wf(t.nodes, st['nl'], st['rank'])); assume_all(ctx, good())
            ctx.cover('ContractionTree::is_valid: well formed')
            r = it.as_bool(val(it, it.call_fn(fn, [check], this)).items[0])
            ctx.oblige('a well-formed contraction tree is reported valid', r, 'post')
        ctx.oblige('the tree is not modified', veq(t, it.read(this)), 'post')
    return Unit('ContractionTree::is_valid', ['C08'], body, contracts={r'tnco::tree::Tree::is_valid': tree_valid}, loops={r'.*ContractionTree::is_valid#for': ContrLoop(st)}, opts={'throw': 'violation'}, lang='c++release')

def units_c08(): return [unit_node, unit_tree, unit_tree_ctor, unit_ctree]
def all_units(): return [u() for u in units_c08()]
