#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the entries stay easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))
I = 'include/tnco/'
prop('C01', 'Neighbour swap is an exact exchange that keeps a valid tree',
 "Swapping any node of a valid tree with its uncle yields again a valid binary tree with the same nodes, leaves and root, in which exactly those two subtrees have exchanged parents and every other parent/child link is untouched. Asking for a node that has no uncle, or that is not in the tree, leaves the tree unchanged.",
 ['inputs', 'histories'], "every valid tree of any size, every node, every sequence of swaps",
 "Tests apply a few random swaps to random trees of one size; a wrong child slot or a missed parent link shows only for particular left/right arrangements or at the boundary (root, children of the root, out of range), and nothing compares the untouched links.",
 [I+'tree.hpp', I+'node.hpp'], [('Tree::swap_with_nn', I+'tree.hpp')],
 [('nodes', 'children and parent of every node; leaves first, root last', I+'tree.hpp')], ['tnco_core.Tree.swap_with_nn'])
prop('C02', 'Optimizer steps keep the contraction tree a contraction of the same network',
 "Whatever sequence of optimizer steps is run, the current tree stays a valid contraction tree for the same network: leaf tensors, output indices and dimensions never change, and each intermediate tensor carries exactly the indices that are needed outside its subtree (hyper-indices included). This holds for the unbounded-memory and for the width-limited optimizer, and for their remembered best tree. (A network is well formed when no tensor repeats an index and every index carried by a single tensor is an output index.)",
 ['inputs', 'histories'], "every valid starting tree (hyper-indices or not), every random choice, acceptance decision and number of steps",
 "Tests run a fixed number of steps on a few random networks and ask the library's own validity check, which accepts some wrong index sets for hyper-indices; a slip that needs a particular arrangement of hyper-indices around the swapped nodes is not sampled.",
 [I+'optimize/infinite_memory/optimizer.hpp', I+'optimize/finite_width/greedy/optimizer.hpp', I+'optimize/optimizer.hpp', I+'optimize/infinite_memory/utils.hpp', I+'tree.hpp', I+'ctree.hpp'],
 [('Optimizer::update', I+'optimize/infinite_memory/optimizer.hpp'), ('Optimizer::update', I+'optimize/finite_width/greedy/optimizer.hpp'), ('HyperCache', I+'optimize/infinite_memory/utils.hpp'), ('get_ctree_nn', I+'optimize/optimizer.hpp')],
 [('ctree', 'current contraction tree', I+'optimize/optimizer.hpp'), ('hyper_cache', 'indices kept by each contraction although both operands carry them', I+'optimize/infinite_memory/utils.hpp')],
 ['Optimizer.ctree', 'Optimizer.min_ctree'])
prop('C03', 'The reported total cost is the cost of the current tree',
 "After any history of optimizer steps (accepted or rejected moves, re-slicing or not), the total cost reported by an optimizer equals the cost of its current tree (and current slices) recomputed from scratch with its cost model, up to floating-point rounding.",
 ['inputs', 'histories'], "every starting tree, cost model, random choice, acceptance decision and number of steps",
 "The incremental per-node costs are only compared with a recomputation after a few random runs, in debug builds; a stale cache entry after one kind of move (rejected re-slicing, swap near the root) needs a specific history.",
 [I+'optimize/infinite_memory/optimizer.hpp', I+'optimize/finite_width/greedy/optimizer.hpp', I+'optimize/infinite_memory/utils.hpp', I+'optimize/finite_width/utils.hpp'],
 [('CostCache', I+'optimize/infinite_memory/utils.hpp'), ('Optimizer::update (cost propagation)', I+'optimize/infinite_memory/optimizer.hpp')],
 [('cost_cache', 'per-node contraction cost and cost of the subtree', I+'optimize/infinite_memory/utils.hpp')], ['Optimizer.total_cost', 'Optimizer.log2_total_cost'])
prop('C04', 'The remembered best is consistent and never gets worse',
 "The best cost reported by an optimizer never increases, is never larger than the cost of the state after any step since the optimizer was created, and is always the cost of the remembered best tree (with the remembered best slices), which the optimizer does not otherwise change.",
 ['inputs', 'histories'], "every starting tree, random choice, acceptance decision and number of steps",
 "Tests look at the final best of a few runs; a best that is compared with the wrong quantity or stored together with the wrong slices only shows after a history in which a better state is later abandoned.",
 [I+'optimize/infinite_memory/optimizer.hpp', I+'optimize/finite_width/greedy/optimizer.hpp'],
 [('Optimizer::update (min)', I+'optimize/infinite_memory/optimizer.hpp'), ('Optimizer::update (min)', I+'optimize/finite_width/greedy/optimizer.hpp')],
 [('min_total_cost/min_ctree/min_slices', 'best state seen', I+'optimize/finite_width/greedy/optimizer.hpp')], ['Optimizer.min_total_cost', 'Optimizer.min_ctree', 'Optimizer.min_slices'])
prop('C05', 'Width-limited optimization respects the width limit and forbidden slices',
 "At every step of the width-limited optimizer, every tensor of the current tree has, after removing the sliced indices, a width not larger than the requested maximum, and the same holds for the remembered best tree with its slices. An index declared as not sliceable is never added to the slices.",
 ['inputs', 'histories', 'configurations'], "every starting tree, width limit that can be met, forbidden set, number of new slices per step, random choice and number of steps",
 "Tests use a handful of limits and rely on debug assertions; the incremental sliced width is only wrong for particular index dimensions or after several slices were added in one step.",
 [I+'optimize/finite_width/greedy/optimizer.hpp', I+'optimize/finite_width/greedy/utils.hpp', I+'optimize/finite_width/cost_model/simple.hpp', I+'optimize/finite_width/cost_model/simple_sparse_inds.hpp'],
 [('Optimizer::update', I+'optimize/finite_width/greedy/optimizer.hpp'), ('get_slices', I+'optimize/finite_width/greedy/utils.hpp')],
 [('slices', 'indices that are sliced', I+'optimize/finite_width/greedy/optimizer.hpp'), ('width_cache', 'width of each tensor before slicing', I+'optimize/finite_width/utils.hpp')],
 ['Optimizer.slices', 'Optimizer.min_slices', 'Optimizer.ctree'])
prop('C06', 'Cost models compute the defined contraction cost and width',
 "The cost of contracting two tensors is the product of the dimensions of all indices involved; with slices, the sliced indices count too; with sparse indices, the product over the sparse indices involved is capped at the number of projections. The width of a tensor is the base-2 logarithm of the (equally capped) product of its dimensions, and the width change reported for removing an index equals the difference of the two widths.",
 ['inputs'], "all index sets, dimensions (one common dimension or one per index), slices, sparse sets and projection counts",
 "Tests recompute the formulas for random small index sets in one float type; they do not relate the uniform-dimension and per-index branches, nor the incremental width to the full one, over all overlaps of indices, slices and sparse indices.",
 [I+'optimize/infinite_memory/cost_model/simple.hpp', I+'optimize/infinite_memory/cost_model/simple_sparse_inds.hpp', I+'optimize/finite_width/cost_model/simple.hpp', I+'optimize/finite_width/cost_model/simple_sparse_inds.hpp'],
 [('get_cost', I+'optimize/infinite_memory/cost_model/simple.hpp'), ('get_width/get_delta_width', I+'optimize/finite_width/cost_model/simple.hpp')], (), ['CostModel.contraction_cost', 'CostModel.width', 'CostModel.delta_width'])
prop('C07', 'Acceptance probabilities are probabilities and never reject an improvement',
 "For every change of cost and every positive current cost, a move that does not increase the cost is accepted with probability 1 and every other move with a probability between 0 and 1: always 1 for the base rule, 0 for the greedy rule, and (1 + increase/current)^(-beta) for Metropolis-Hastings, which does not grow with the increase or with a larger beta.",
 ['inputs', 'configurations'], "all cost changes, positive current costs and non-negative inverse temperatures",
 "Tests evaluate the rules on random numbers and compare with the same formula; they cannot settle bounds and monotonicity over the reals.",
 [I+'optimize/prob/base.hpp', I+'optimize/prob/greedy.hpp', I+'optimize/prob/mh.hpp'],
 [('Probability::operator()', I+'optimize/prob/mh.hpp'), ('Probability::operator()', I+'optimize/prob/greedy.hpp')], (), ['tnco_core.optimize.prob.*.__call__'])
prop('C08', 'Only well-formed nodes, trees and contraction trees are accepted',
 "A node, tree or contraction tree is accepted (by its validity check and therefore by construction) exactly when it is well formed: a tree has its leaves first and its single root last, every inner node has two distinct children whose parent it is, and every node is reachable from the root; in a contraction tree each intermediate tensor carries every index that exactly one of its two operands carries and no index that neither carries, and all dimensions are positive.",
 ['inputs'], "all lists of nodes, index sets and dimensions, well formed or not",
 "Tests build valid objects and a few hand-made invalid ones; the set of malformed inputs (inconsistent parent links, disconnected cycles, doubly used children) is not enumerated.",
 [I+'node.hpp', I+'tree.hpp', I+'ctree.hpp'], [('Node::is_valid', I+'node.hpp'), ('Tree::is_valid', I+'tree.hpp'), ('ContractionTree::is_valid', I+'ctree.hpp')],
 (), ['tnco_core.Node', 'tnco_core.Tree', 'tnco_core.ContractionTree'])
prop('C09', 'Traversal visits each node once, children before parents',
 "Traversing a valid tree calls the callback exactly once per node, a node only after both of its children, and the root last; the derived list of contractions has one entry per inner node, naming that node's two children and the node itself, in an order in which every operand already exists.",
 ['inputs'], "all valid trees",
 "Tests traverse random trees of a few sizes; cost, slices and exported paths all rely on the order for every shape.",
 [I+'utils.hpp'], [('traverse', I+'utils.hpp'), ('get_contraction', I+'utils.hpp')], (), ['tnco_core.utils.traverse', 'tnco_core.utils.get_contraction'])
prop('C10', 'Bitsets behave as finite sets of positions',
 "A bitset built from positions and a size contains exactly those positions (out-of-range positions are rejected); intersection, union, symmetric difference, difference, complement, subset and disjointness tests agree with the same operations on sets of positions; and listing positions, converting to text and back, and pickling lose nothing.",
 ['inputs'], "all bitsets of equal size, all positions",
 "Tests compare with Python sets on random bitsets; block boundaries, empty sets and the order of text conversion are only sampled.",
 [I+'bitset.hpp', 'tnco/bitset.py'], [('Bitset', I+'bitset.hpp')], (), ['tnco_core.Bitset', 'tnco.bitset.Bitset'])
prop('C11', 'A contraction tree built from a path describes exactly that contraction',
 "Building a contraction tree of a well-formed network (no tensor repeats an index, every index carried by a single tensor is an output index) from a contraction path, tensor indices and output indices yields a tree with one leaf per contracted tensor carrying that tensor's indices, one inner node per path step joining exactly the tensors that the step names, and for every inner node exactly the indices of its subtree that are output indices or also occur outside of it. The indices of the root are the output indices present in the network.",
 ['inputs'], "all networks (hyper-indices, arbitrary output indices, tensors not mentioned by the path) and all valid paths",
 "Tests check validity of the result and a few known networks; index sets of intermediate tensors are not compared with their definition for hyper-indices that are outputs or vanish at different depths.",
 ['tnco/ctree.py'], [('ContractionTree.__init__', 'tnco/ctree.py')], (), ['tnco.ctree.ContractionTree'])
prop('C12', 'Exporting a path from a contraction tree gives that same contraction',
 "The path exported from a contraction tree is a valid linear contraction path over the original list of tensors, contracts exactly the tensors that are leaves of the tree, and building a tree from it and the same tensors gives a tree with the same set of intermediate tensors and the same cost; this stays true after any optimizer history.",
 ['inputs', 'histories'], "all contraction trees, including those that skip some tensors, and all trees reached by optimization",
 "Tests do a round trip on random trees; positions shift after every step, so an off-by-one shows only for particular orders or when some tensors are skipped.",
 ['tnco/ctree.py', I+'utils.hpp'], [('ContractionTree.path', 'tnco/ctree.py'), ('get_contraction', I+'utils.hpp')], (), ['tnco.ctree.ContractionTree.path'])
prop('C13', 'Merging and splitting contraction paths preserve the contraction',
 "Merging per-component contraction paths and splitting a path by components are faithful: each merged step contracts exactly the tensors that the corresponding component step contracts, every component is contracted completely, and splitting a merged path returns the component paths.",
 ['inputs'], "all lists of per-component paths, all ways of distributing tensors over components",
 "Tests use random components and compare costs; index bookkeeping in linear paths is position dependent and wrong only for particular interleavings of components.",
 ['tnco/utils/tn.py'], [('merge_contraction_paths', 'tnco/utils/tn.py'), ('split_contraction_paths', 'tnco/utils/tn.py')], (), ['tnco.utils.tn.merge_contraction_paths', 'tnco.utils.tn.split_contraction_paths'])
prop('C14', 'Random contraction paths are valid and cover every component',
 "A random contraction path contracts every connected component of the network to a single tensor, mentions no tensor twice, and contracts only tensors that share an index; the same seed gives the same path.",
 ['inputs'], "all networks (hyper-indices, disconnected components, repeated index sets) and seeds",
 "Tests draw random networks of one kind.",
 ['tnco/utils/tn.py'], [('get_random_contraction_path', 'tnco/utils/tn.py')], (), ['tnco.utils.tn.get_random_contraction_path'])
prop('C15', 'The value of a contraction does not depend on the path',
 "Contracting a well-formed tensor network (every index carried by a single tensor is an output index) along any valid path yields the tensor defined by summing the product of all tensors over the non-output indices, with its axes in the order of the returned indices; without arrays, the same indices are returned.",
 ['inputs'], "all networks, arrays, output indices and valid paths",
 "Numerical comparison on random networks only.",
 ['tnco/utils/tn.py', 'tnco/utils/tensor.py'], [('contract', 'tnco/utils/tn.py'), ('tensordot', 'tnco/utils/tensor.py')], (), ['tnco.utils.tn.contract'])
prop('C16', 'Fusing small tensors respects the width limit and preserves the network',
 "Fusing a network returns a path that only contracts tensors sharing an index into tensors whose width does not exceed the requested maximum, never contracts an index that is excluded from fusion or that is an output index, and yields the same fused network whichever form (indices or arrays) it is given.",
 ['inputs', 'configurations'], "all networks, width limits, output and excluded indices, seeds",
 "Tests check random networks with few limits.",
 ['tnco/utils/tn.py'], [('fuse', 'tnco/utils/tn.py')], (), ['tnco.utils.tn.fuse'])
prop('C17', 'Decomposing diagonal tensors preserves the value of the network',
 "Replacing tensors that are diagonal in some indices by smaller tensors on shared (hyper-)indices leaves the value of the network, for every assignment of its output indices, unchanged.",
 ['inputs'], "all tensors, index lists and tolerances",
 "Random diagonal tensors only.",
 ['tnco/utils/tensor.py', 'tnco/utils/tn.py'], [('decompose_hyper_inds', 'tnco/utils/tensor.py'), ('decompose_hyper_inds', 'tnco/utils/tn.py')], (), ['tnco.utils.tn.decompose_hyper_inds'])
prop('C18', 'Ordered frozen sets are sets that remember insertion order',
 "An ordered frozen set has the same elements, membership, length, equality, ordering and algebra (union, intersection, difference, symmetric difference, subset, superset, disjointness) as the frozen set of its elements, iterates its distinct elements in order of first insertion, keeps that order through its operations, and equal sets have equal hashes.",
 ['inputs'], "all iterables of hashable elements and all operand types",
 "Tests compare random integer sets; order after each operator and mixed operand types are sampled.",
 ['tnco/ordered_frozenset.py'], [('OrderedFrozenSet', 'tnco/ordered_frozenset.py')], (), ['tnco.ordered_frozenset.OrderedFrozenSet'])
prop('C19', 'Index symbols are unique',
 "Distinct index numbers are given distinct one-character symbols, so that the einsum expression built for any number of tensors uses one symbol per index, the same symbol for equal indices and different symbols for different indices, with the operands and the output in the order given.",
 ['inputs'], "all numbers of indices up to the size of the character range, all index lists",
 "Tests compare with opt_einsum for the first symbols only.",
 ['tnco/utils/tn.py', 'tnco/utils/tensor.py'], [('get_symbol', 'tnco/utils/tn.py'), ('get_einsum_subscripts', 'tnco/utils/tn.py')], (), ['tnco.utils.tn.get_symbol', 'tnco.utils.tn.get_einsum_subscripts'])
prop('C20', 'Saving and restoring an optimizer continues the same run',
 "Pickling a tree, contraction tree, cost model, acceptance rule or optimizer and restoring it gives an object that is equal and behaves identically: an optimizer restored at any point of a run, given the same later calls, goes through exactly the same states as the original, including its random numbers, its best state, its slices and its slicing options.",
 ['inputs', 'histories', 'crash_points'], "every object state reachable by construction and optimization, every point at which it is saved, every continuation",
 "Tests compare attributes right after a round trip for default options; an option or a piece of state that is dropped shows only in later behaviour for non-default options.",
 ['tnco/optimize/infinite_memory/optimizer.py', 'tnco/optimize/finite_width/optimizer.py', 'tnco/optimize/infinite_memory/cost_model.py', 'tnco/optimize/finite_width/cost_model.py', 'tnco/optimize/prob.py', 'tnco/ctree.py', I+'optimize/optimizer.hpp'],
 [('__reduce__/__build__', 'tnco/optimize/finite_width/optimizer.py'), ('get_prng_state', I+'optimize/optimizer.hpp')], (), ['pickle'])
prop('C21', 'Extended-precision numbers follow their arithmetic and predicates',
 "For the 1024-bit floating type every arithmetic, comparison and mathematical operation returns what that operation mathematically returns on its operands, correctly rounded, and each classification (zero, finite, infinite, not-a-number, sign) answers the question it names.",
 ['inputs'], "all values, including zero, infinities and not-a-number",
 "Tests cover a few operations on random finite values.",
 [I+'fixed_float.hpp'], [('FixedFloat', I+'fixed_float.hpp')], (), ['tnco_core.float1024'])
prop('C22', 'Writing results never destroys or misplaces data',
 "Writing results to a file never overwrites an existing file unless overwriting was requested, refuses inconsistent requests before doing any work, and what is written can be read back as the same data in the requested format and compression.",
 ['inputs', 'configurations'], "all combinations of file name, format, compression, overwrite flag and existing files",
 "Tests exercise some combinations.",
 ['tnco/app/app.py'], [('dump_results', 'tnco/app/app.py'), ('load_file', 'tnco/app/app.py')], (), ['tnco.app.app.dump_results'])
prop('C23', 'Loading a network keeps all of its tensors and indices',
 "Reading a network from a specification or file yields exactly its tensors with their indices in order, its output indices and its dimensions, whatever the form (list, text, JSON, compressed file, network object); inconsistent input (conflicting or non-positive dimensions, arrays of another shape, output or sparse indices that no tensor carries, identical tokens) is rejected. Fusing and hyper-index decomposition while loading keep the value of the network for every assignment of its output indices.",
 ['inputs'], "all well-formed and malformed specifications",
 "A few examples per format.",
 ['tnco/utils/tn.py', 'tnco/app/app.py', 'tnco/app/tn.py'], [('read_inds', 'tnco/utils/tn.py'), ('load_tn', 'tnco/app/app.py'), ('TensorNetwork', 'tnco/app/tn.py')], (), ['tnco.utils.tn.read_inds', 'tnco.app.app.load_tn'])
prop('C24', 'Parallel runs return one result per task, in order',
 "Running a function in parallel returns the result of every task in the order of the tasks whatever the scheduling, tells every task to stop once the timeout has passed without losing finished results, and releases its timer and shared memory, also when a task fails.",
 ['schedules', 'fault_sequences'], "all interleavings of workers, failures and stop requests",
 "Only the schedules that happen to occur.",
 ['tnco/parallel.py'], [('Parallel', 'tnco/parallel.py'), ('Buffer', 'tnco/parallel.py')], (), ['tnco.parallel.Parallel'])
prop('C25', 'Loading a circuit preserves its amplitudes',
 "The tensor network loaded from a circuit of unitary gates (with any initial and final states, fused or decomposed or not) has, for each assignment of its open qubits, the amplitude that the circuit defines; when gates that cancel are simplified, up to one global phase common to all amplitudes.",
 ['inputs', 'configurations'], "all circuits and loading options",
 "Random circuits of a few qubits.",
 ['tnco/utils/circuit.py'], [('load', 'tnco/utils/circuit.py')], (), ['tnco.utils.circuit.load'])
prop('C26', 'Sampling follows the distribution of the circuit',
 "Bitstrings sampled from a circuit follow the probability distribution given by the squared amplitudes of its state, with bits in the order of the reported qubits, independently for each sample, for every supported circuit type.",
 ['inputs', 'configurations'], "all circuits, numbers of samples and fusion options",
 "Statistical tests on small circuits.",
 ['tnco/app/circuit/sampling.py'], [('sample', 'tnco/app/circuit/sampling.py')], (), ['tnco.app.circuit.sampling.sample'])
prop('C27', 'Requested shared-index contractions are kept',
 "When contractions of tensors that share no index are not allowed, every contraction in a tree produced or accepted by the library (by construction and after any number of optimizer steps) joins two tensors that share at least one index.",
 ['inputs', 'histories'], "all valid starting trees, random choices and numbers of steps",
 "Tests run a few steps and rely on debug assertions.",
 [I+'optimize/optimizer.hpp', I+'ctree.hpp', I+'optimize/infinite_memory/optimizer.hpp', I+'optimize/finite_width/greedy/optimizer.hpp'], [('get_ctree_nn', I+'optimize/optimizer.hpp'), ('ContractionTree::is_valid', I+'ctree.hpp')], (), ['Optimizer.ctree'])
prop('C28', 'Optimization results report true costs of complete contractions',
 "Optimizing a network through the application interface returns one result per run, sorted by cost; in each result the path of every connected component contracts that component completely by contracting tensors that share an index, the merged path contains exactly those contractions, every reported cost is the cost of the reported path (and slices) under the chosen cost model, and with a maximum width no tensor is wider than it once the reported slices are removed. The same seed gives the same results.",
 ['inputs', 'configurations', 'histories'], "every network (hyper-indices, sparse indices, several components, scalars), width limit, temperature schedule, number of runs and seed",
 "Tests look at a few runs; a result that pairs the best cost with another path, or slices of another component, needs a particular history or a network with several components.",
 ['tnco/app/infinite_memory/sa.py', 'tnco/app/finite_width/sa.py', 'tnco/app/app.py'], [('Optimizer.optimize', 'tnco/app/infinite_memory/sa.py'), ('Optimizer.optimize', 'tnco/app/finite_width/sa.py')], (), ['tnco.app.Optimizer.optimize'])
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
