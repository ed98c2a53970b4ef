"""Which functions carry which property, and with what run-time harness."""
from . import tree, traverse, bitset_units, optimizer as opt, models, valid, pyset, pysym

TRUSTED = ['the VC generator /verif/vcgen (symbolic interpreter of the clang/Python AST)', 'clang 18 front end (AST)', 'z3 (and cvc5 where named)',
           'models of std::vector, std::array, std::pair, <algorithm> and boost::dynamic_bitset member functions in vcgen/cxxexec.py']

def asts(units):
    langs = set(u.lang for u in units)
    res = {}
    for l in langs:
        if l in ('c++', 'c++release'):
            from vcgen import cxxast
            res[l] = cxxast.load(debug=(l == 'c++'))
        elif l == 'python':
            from vcgen.pyexec import PyMods
            from vlib.build import REPO
            res[l] = PyMods(REPO)
    return res

OPT = ['costs and widths are mathematical reals (rounding is outside the contracts)', 'std::mt19937 yields some non-negative number, std::uniform_real_distribution a real in [0,1)',
       'finite-sum lemma: the partial cost of the root is the sum of the contraction costs (induction over a finite tree)', 'width lemma: W is monotone (sum of non-negative logarithms)',
       'the optimizer starts from a contraction tree of the network (C11) and caches computed by its constructor']

TRAV = ['precondition: the tree is valid (C08)', 'finite-set argument: among the nodes that are not called there is one of maximal rank', 'a callback does not modify the tree it is called for (it is passed by const reference)', 'std::stack is a sequence with push/pop/top at its end']
VALID = ['counting lemma: in a forest whose only root is the last node, the n-1 nodes that have a parent fill the child positions of the inner nodes two by two, so exactly (n-1)/2 nodes are inner (its premises are discharged as obligations)',
         'finite-set argument: a non-empty finite set of nodes has one of maximal rank', 'std::all_of, std::any_of, std::count_if behave as documented',
         'the constructor of ContractionTree from lists of positions is evaluated at run time only']
BITS = ['boost::dynamic_bitset: set/test/find_first/find_next/size/count/intersects/is_subset_of/is_proper_subset_of/~ and &=,|=,^=,-= on equally sized operands, and construction from text, behave as documented',
        'binary operations: both bitsets have the same size (boost asserts it)', 'sizes are smaller than npos = 2^64-1', 'pybind11 converts arguments and results faithfully and calls the bound function', 'std::for_each, std::string append and reverse iterators behave as documented']
MODELS = ['machine floats are treated as mathematical reals (overflow to infinity, rounding: outside the contracts; the run-time harness compares with exact rationals)',
          'definitions: PROD / WSUM / CARD are the finite product, sum and cardinality over the members of a set (axioms: empty set, insertion of one member in increasing order)',
          'bitset members are smaller than the size']

PY = ['Python: the statements of the functions under contract are interpreted by the generator from the ast of the module source (language semantics of the fragment as implemented in vcgen/pyexec.py)']
PYSET = PY + ['elements are hashable, with an equality consistent with their hash and equivalent to a mathematical equality (NaN-like elements are outside)',
         'more_itertools.unique_everseen, itertools.chain, filter, tuple, frozenset behave as documented']
PYSYM = PY + ['at most 1112064 indices (the characters that are no surrogates)', 'indices are hashable with a mathematical equality', 'chr, dict, map, zip, enumerate, itertools.starmap/count/chain, more_itertools.flatten/unique_everseen, str.join behave as documented; a text is the sequence of its characters']

PROPS = {
 'C01': dict(units=[tree.unit_swap], build='base', budget=60,
             assumptions=['precondition: the tree is valid (established by the constructor, C08) with at least one node; positions are mathematical integers (int_fast32_t has 64 bits, sizes < 2^63)']),

 'C02': dict(units=[opt.unit_nn, opt.unit_inf_update, opt.unit_fin_update], build='lite', budget=45, assumptions=OPT),
 'C03': dict(units=[opt.unit_inf_update, opt.unit_fin_update], build='lite', budget=45, assumptions=OPT),
 'C04': dict(units=[opt.unit_inf_update, opt.unit_fin_update], build='lite', budget=45, assumptions=OPT),
 'C05': dict(units=[opt.unit_fin_update], build='lite', budget=45, assumptions=OPT),
 'C27': dict(units=[opt.unit_nn, opt.unit_inf_update, opt.unit_fin_update], build='lite', budget=45, assumptions=OPT),

 'C06': dict(units=models.units_c06(), build='models', budget=30, assumptions=MODELS),
 'C07': dict(units=models.units_c07() + [opt.unit_inf_update, opt.unit_fin_update], build='models', budget=30, assumptions=MODELS + ['std::pow(b, e) with b >= 1, e <= 0 lies in (0, 1]', 'std::exp and std::mt19937: only ranges are assumed']),
 'C08': dict(units=valid.units_c08(), build='base', budget=20, assumptions=VALID),
 'C09': dict(units=[traverse.unit_traverse, traverse.unit_get_contraction], build='base', budget=20, assumptions=TRAV), 'C10': dict(units=bitset_units.units_c10(), build='base', budget=20, assumptions=BITS), 'C21': dict(units=[], build='base', budget=40),
 'C11': dict(units=[], build='base', budget=30), 'C12': dict(units=[], build='lite', budget=40), 'C13': dict(units=[], build='base', budget=30), 'C14': dict(units=[], build='base', budget=30), 'C15': dict(units=[], build='base', budget=40), 'C16': dict(units=[], build='base', budget=40), 'C17': dict(units=[], build='base', budget=40), 'C20': dict(units=[], build='lite', budget=40), 'C18': dict(units=pyset.units_c18(), build='base', budget=20, assumptions=PYSET), 'C19': dict(units=pysym.units_c19(), build='base', budget=20, assumptions=PYSYM),
 'C22': dict(units=[], build='lite', budget=30), 'C23': dict(units=[], build='base', budget=30), 'C24': dict(units=[], build='base', budget=40), 'C25': dict(units=[], build='base', budget=40), 'C26': dict(units=[], build='lite', budget=40), 'C28': dict(units=[], build='lite', budget=40),
}
NOT_APPLICABLE = {}
for _p in PROPS.values():
    if not _p['units']:
        _p['level'] = 'exploration'
        _p['budget'] = min(_p['budget'], 30)
        _p.setdefault('technique', 'bounded run-time evaluation of the contracts on the real code (stand-in: the functions are outside the reach of the verifier; not counted as proved)')
        _p.setdefault('note', 'Bounded: the contracts are evaluated on generated inputs only; nothing is proved for this property.')
