"""Contract of tnco::utils::traverse: the callback is called exactly once per node, a node after its children (proved under C09)."""
import z3
from vcgen.core import *
from vcgen.vals import *
from vcgen.cxxexec import LV
from .tree import rng, c0, c1, wf

ALL = z3.K(I, z3.BoolVal(True))

def traverse(it, args, this):
    ctx = it.ctx
    tree = it.read(args[0]) if isinstance(args[0], LV) else args[0]
    cb = args[1]
    spec = it.loop_spec('traverse')
    if spec is None: raise OutOfFragment('traverse without invariant in %s' % it.where()[:100])
    key = ('traverse',) + tuple(it.fstack) + (it.loopcount['traverse'],)
    nodes = tree.nodes; n = nodes.len
    nl, rank = spec.tree_ghost(it)
    for nm, g in wf(nodes, nl, rank): ctx.oblige('traverse is called on a valid tree: ' + nm, g, 'call-pre')
    it.cur_loop = key
    if hasattr(spec, 'begin'): spec.begin(it)
    for nm, g in spec.inv(it, EMPTY): ctx.oblige('invariant holds before the traversal [%s] %s' % (spec.name, nm), g, 'inv-init')
    before = set(it.cells)
    it.havoc(key)
    if ctx.choose(2) == 0:
        called = ctx.fresh('called', SET); p = ctx.fresh_int('node')
        ctx.assume(z3.And(rng(p, 0, n), z3.Not(z3.Select(called, p))))
        ctx.assume(z3.Implies(p >= nl, z3.And(z3.Select(called, c0(nodes, p)), z3.Select(called, c1(nodes, p)))))
        ctx.terms += [p, c0(nodes, p), c1(nodes, p)]
        for nm, g in spec.inv(it, called): ctx.assume(g)
        ctx.cover('traverse callback [%s]' % spec.name)
        spec.node = p
        it.loopstack.append((key, before))
        it.call_value(cb, [p])
        it.loopstack.pop()
        it.cur_loop = key
        if hasattr(spec, 'step'): spec.step(it)
        for nm, g in spec.inv(it, z3.Store(called, p, z3.BoolVal(True))): ctx.oblige('invariant is preserved by the callback [%s] %s' % (spec.name, nm), g, 'inv-step')
        raise PathEnd()
    for nm, g in spec.inv(it, ALL): ctx.assume(g)
    if hasattr(spec, 'exit'): spec.exit(it)
    return None
CALLS = {r'tnco::utils::traverse': traverse}

# ---------------------------------------------------------------- traverse itself (C09)
from vcgen.run import Unit
from .tree import TREE, par, assume_all

def S(a, i): return z3.Select(a, i)

class TravLoop:
    """Depth-first traversal with an explicit stack.

    Every entry but the bottom one (the root) has its parent below it on the stack, visited; entries are distinct and
    uncalled; a child of a visited node on the stack is called or above it; a called node has called children, and its
    parent is called or visited on the stack."""
    name = 'traverse'
    def __init__(self, st): self.st = st
    def begin(self, it):
        self.key = it.cur_loop
    def vars(self, it):
        def local(names, pick):
            for n in names:
                d = it.names.get(n)
                if d is not None and d in it.env and pick(it.read(it.env[d])): return it.env[d]
            c = [LV(x) for x in it.cells if '@' in x and not x.startswith(('ghost', 'this', 'tree')) and pick(it.cells[x])]
            if len(c) == 1: return c[0]
            raise OutOfFragment('loop variable %s not identified' % names[0])
        isv = lambda srt: (lambda v: isinstance(v, Vec) and z3.is_expr(v.el) and v.el.sort() == z3.ArraySort(I, srt))
        return it.read(local(['stack'], isv(I))), it.read(local(['visited'], isv(B)))
    def inv(self, it):
        st = self.st; nodes, nl = st['nodes'], st['nl']; n = nodes.len
        stack, vis = self.vars(it)
        gh = it.read(st['ghost']); called, on = gh.called, gh.on
        L = stack.len
        onst = lambda x: z3.And(rng(S(on, x), 0, L), S(stack.el, S(on, x)) == x)
        V = lambda x: S(vis.el, x); C = lambda x: S(called, x)
        pend = lambda x: z3.And(onst(x), V(x))      # waiting for its children
        def entry(j):
            x = S(stack.el, j)
            return z3.Implies(rng(j, 0, L), z3.And(rng(x, 0, n), z3.Not(C(x)), S(on, x) == j, (x == n - 1) == (j == 0),
                   z3.Implies(j > 0, z3.And(pend(par(nodes, x)), S(on, par(nodes, x)) < j))))
        def child(x):
            return z3.Implies(z3.And(rng(x, 0, n), x != n - 1, pend(par(nodes, x))), z3.Or(C(x), z3.And(onst(x), S(on, x) > S(on, par(nodes, x)))))
        return [('visited has one flag per node', vis.len == n), ('stack', L >= 0),
                ('the root is called when the stack is empty', z3.Implies(L == 0, C(n - 1))),
                ('entries are distinct uncalled nodes above their visited parents', FA('entry', I, entry)),
                ('children of a visited node are called or above it', FA('child', I, child)),
                ('called nodes have called children', FA('down', I, lambda x: z3.Implies(z3.And(rng(x, nl, n), C(x)), z3.And(C(c0(nodes, x)), C(c1(nodes, x)))))),
                ('a called node has a called parent or a visited one on the stack', FA('up', I, lambda x: z3.Implies(z3.And(rng(x, 0, n), C(x), x != n - 1), z3.Or(C(par(nodes, x)), pend(par(nodes, x)))))),
                ('visited nodes are called or on the stack', FA('visited', I, lambda x: z3.Implies(z3.And(rng(x, 0, n), V(x)), z3.Or(C(x), onst(x))))),
                ('only nodes of the tree are called', FA('calledrange', I, lambda x: z3.Implies(C(x), rng(x, 0, n))))]
    def havoc(self, it):
        stack, vis = self.vars(it)
        nodes = self.st['nodes']
        top = S(stack.el, stack.len - 1)
        it.ctx.terms += [top, par(nodes, top), c0(nodes, top), c1(nodes, top), nodes.len - 1, z3.IntVal(0)]
        gh = it.read(self.st['ghost'])
        self.old = (gh.called, vis.el, top, stack.len)
    def step(self, it):
        st = self.st
        stack, vis = self.vars(it)
        gh = it.read(st['ghost'])
        L = stack.len; on = gh.on
        d = z3.simplify(L - self.old[3])
        if not z3.is_int_value(d): raise OutOfFragment('stack height')
        for k in range(d.as_long(), 0, -1): on = z3.Store(on, S(stack.el, L - k), L - k)
        it.ctx.terms += [S(stack.el, L - 1), S(stack.el, L - 2), L - 1, L - 2, L]
        it.write(st['ghost'], Rec('ghost', {'called': gh.called, 'on': on}))
        n = st['nodes'].len
        it.ctx.oblige('termination: each iteration calls a node, or visits one, that it had not (finitely many)', EX('progress', I,
            lambda x: z3.And(rng(x, 0, n), z3.Or(z3.And(S(gh.called, x), z3.Not(S(self.old[0], x))), z3.And(S(vis.el, x), z3.Not(S(self.old[1], x))))), [self.old[2]] + st['called_now']), 'variant')
        it.ctx.oblige('termination: nothing is forgotten', FA('mono', I, lambda x: z3.And(z3.Implies(S(self.old[0], x), S(gh.called, x)), z3.Implies(S(self.old[1], x), S(vis.el, x)))), 'variant')

def unit_traverse():
    st = {}
    def body(it):
        ctx = it.ctx
        fn = it.ast.find1(r'^void tnco::utils::traverse<tnco::tree::Tree<.*std::function<void \(unsigned long\)> const&>\(')
        t = mk(TREE, 'tree', ctx.fresh); rank = ctx.fresh('rank', z3.ArraySort(I, R)); nl = ctx.fresh_int('n_leaves')
        assume_all(ctx, wf(t.nodes, nl, rank))
        ctx.cover('traverse: precondition')
        nodes = t.nodes; n = nodes.len
        st.update(nodes=nodes, nl=nl, called_now=[])
        st['ghost'] = it.new_cell('ghost', Rec('ghost', {'called': EMPTY, 'on': z3.Store(z3.K(I, z3.IntVal(0)), n - 1, z3.IntVal(0))}))
        tree = it.new_cell('tree', t)
        def cb(it2, args):
            p = it2.read(args[0]) if isinstance(args[0], LV) else args[0]
            gh = it2.read(st['ghost'])
            ctx2 = it2.ctx
            ctx2.oblige('the callback is called on nodes of the tree', rng(p, 0, n), 'post-call')
            ctx2.oblige('no node is called twice', z3.Not(S(gh.called, p)), 'post-call')
            ctx2.oblige('a node is called after its children', z3.Implies(p >= nl, z3.And(S(gh.called, c0(nodes, p)), S(gh.called, c1(nodes, p)))), 'post-call')
            ctx2.oblige('the root is called last', z3.Implies(p != n - 1, z3.Not(S(gh.called, n - 1))), 'post-call')
            it2.write(st['ghost'], Rec('ghost', {'called': z3.Store(gh.called, p, z3.BoolVal(True)), 'on': gh.on}))
            st['called_now'].append(p)
            return None
        it.call_fn(fn, [tree, PyFn(cb)])
        called = it.read(st['ghost']).called
        ctx.cover('traverse: exit')
        if ctx.choose(2) == 0:
            # finite-set argument: if some node is not called, one of maximal rank is not
            w = ctx.fresh_int('uncalled'); ctx.terms += [w, par(nodes, w), n - 1]
            ctx.assume(z3.And(rng(w, 0, n), z3.Not(S(called, w))))
            ctx.assume(FA('maxrank', I, lambda k: z3.Implies(z3.And(rng(k, 0, n), z3.Not(S(called, k))), S(rank, k) <= S(rank, w))))
            ctx.oblige('every node is called (one of maximal rank cannot be missing)', z3.BoolVal(False), 'post')
            raise PathEnd()
        ctx.oblige('the tree is not modified', veq(t, it.read(tree)), 'post')
    return Unit('utils::traverse', ['C09'], body, loops={r'.*traverse.*#while': TravLoop(st)}, opts={'throw': 'violation'})

# ---------------------------------------------------------------- get_contraction (C09)
class ContractionSpec:
    name = 'get_contraction'
    def __init__(self, st): self.st = st
    def tree_ghost(self, it): return self.st['nl'], self.st['rank']
    def res(self, it):
        for n in ('contraction',):
            d = it.names.get(n)
            if d is not None and d in it.env: return it.env[d]
        c = [LV(x) for x in it.cells if '@' in x and isinstance(it.cells[x], Vec) and isinstance(it.cells[x].el, Tup) and len(it.cells[x].el.items) == 3]
        if len(c) == 1: return c[0]
        raise OutOfFragment('the list of contractions is not identified')
    def begin(self, it): self.lv = self.res(it)
    def inv(self, it, called):
        return contraction_inv(self.st['nodes'], self.st['nl'], it.read(self.lv), it.read(self.st['ghost']).when, called)
    def step(self, it):
        gh = it.read(self.st['ghost']); v = it.read(self.lv); p = self.node
        it.ctx.terms += [v.len - 1, v.len]
        it.write(self.st['ghost'], Rec('ghost', {'when': z3.If(p >= self.st['nl'], z3.Store(gh.when, p, v.len - 1), gh.when)}))

def contraction_inv(nodes, nl, v, when, called):
    n = nodes.len
    a, b, c = v.el.items
    def entry(k):
        p = S(c, k)
        return z3.Implies(rng(k, 0, v.len), z3.And(rng(p, nl, n), S(called, p), S(when, p) == k,
               z3.Or(z3.And(S(a, k) == c0(nodes, p), S(b, k) == c1(nodes, p)), z3.And(S(a, k) == c1(nodes, p), S(b, k) == c0(nodes, p)))))
    def there(p):
        return z3.Implies(z3.And(rng(p, nl, n), S(called, p)), z3.And(rng(S(when, p), 0, v.len), S(c, S(when, p)) == p))
    def order(p):
        return z3.Implies(z3.And(rng(p, nl, n), S(called, p)), z3.And(*[z3.Implies(x >= nl, z3.And(S(called, x), S(when, x) < S(when, p))) for x in (c0(nodes, p), c1(nodes, p))]))
    return [('length', v.len >= 0), ('each entry names an inner node and its two children', FA('entry', I, entry)),
            ('one entry per inner node', FA('there', I, there)), ('operands exist before they are contracted', FA('order', I, order))]

def unit_get_contraction():
    st = {}
    def body(it):
        ctx = it.ctx
        fn = it.ast.find1(r'tnco::utils::get_contraction<tnco::tree::Tree<[^(]*(?<!const&) ?>\(tnco::tree::Tree<[^{]*const&\)$')
        t = mk(TREE, 'tree', ctx.fresh); rank = ctx.fresh('rank', z3.ArraySort(I, R)); nl = ctx.fresh_int('n_leaves')
        assume_all(ctx, wf(t.nodes, nl, rank))
        ctx.cover('get_contraction: precondition')
        st.update(nodes=t.nodes, nl=nl, rank=rank)
        st['ghost'] = it.new_cell('ghost', Rec('ghost', {'when': ctx.fresh('when', z3.ArraySort(I, I))}))
        tree = it.new_cell('tree', t)
        r = it.call_fn(fn, [tree])
        r = it.read(r) if isinstance(r, LV) else r
        ctx.cover('get_contraction: exit')
        for nm, g in contraction_inv(t.nodes, nl, r, it.read(st['ghost']).when, ALL): ctx.oblige(nm, g, 'post')
        ctx.oblige('the tree is not modified', veq(t, it.read(tree)), 'post')
    return Unit('utils::get_contraction', ['C09'], body, contracts=CALLS, loops={r'.*get_contraction.*#traverse': ContractionSpec(st)}, opts={'throw': 'violation'})
