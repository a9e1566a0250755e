"""What each check decides, and how far by proof."""

TRUSTED = [
    'clang 18: the syntax tree it prints for the instantiated headers is the program that runs',
    'the symbolic executor vf/exec.py (semantics of C++ statements and expressions) and vf/stl.py (contracts of the standard library)',
    'z3 5.3.2 and cvc5 1.4.2: answer "unsat" is right',
]
ASSUMPTIONS = [
    'index and size arithmetic does not reach 2^64 (integers are mathematical; unsigned subtraction below zero and negative values converted to unsigned are obligations)',
    'floating-point values are real numbers: sums are exact, products, quotients and roots of variables are uninterpreted functions',
    'instantiation <unsigned long, double, int>',
    'allocation never fails; iteration order of unordered containers is arbitrary but fixed while unmodified',
    'loops over a range or with a counter advanced in their header are taken to terminate; every other loop under contract has a proved variant, except the one of compute_neighbourhood_based_wall_distance',
]

B = 'The rest of the statement is checked by a bounded search of the real code under sanitizers, not proved.'
SCOPE = {p: dict(level='exploration', note=B, technique='sanitized search over random meshes and options (bounded)') for p in
         ['C%02d' % i for i in range(1, 23)]}


def set_(p, level, note, technique='contract-based deductive verification of the headers (symbolic execution of the clang tree, obligations to z3/cvc5) with a sanitized search for failing inputs', **kw):
    SCOPE[p] = dict(level=level, note=note, technique=technique, **kw)


set_('C07', 'proof', 'Whole statement, unbounded: choice by the two choose_new_seed contracts under invariants of the pool that start with it, that every operation keeps and that agglomerating more cells keeps.')
set_('C09', 'proof', 'Whole statement, unbounded: layer-by-layer construction with ghost distances.')
set_('C11', 'proof', 'Whole statement, unbounded: one addition by the two update contracts, whole histories by induction over them.')
set_('C12', 'proof', 'Whole statement, unbounded, in real arithmetic: the features of one cell are right, and each computer keeps right the features its class maintains, whatever the order of growth; every override of the virtual function has to be under contract.')
set_('C13', 'proof', 'Whole statement, unbounded, in real arithmetic.')
set_('C14', 'proof', 'Whole statement, unbounded: fixpoint characterisation of the distances and its equivalence with shortest paths.')
set_('C15', 'proof', 'Whole statement, unbounded.')
set_('C16', 'proof', 'Whole statement, unbounded: each functor equals its order, and the order lemmas.')
set_('C17', 'proof', 'Whole statement: the long form is opaque, and each grouped call makes exactly one call of it with the same values and output places, for every argument and every default; the argument records store what they are given.')
set_('C20', 'proof', 'Whole statement, unbounded, for the tagging function and for the ratio function the graph constructor installs.')
set_('C19', 'proof', 'Whole statement, unbounded: invariants of the container that start with it and that creation, delayed creation and correction keep. Correction is proved for connected coarse cells of a symmetric graph (what C02 and valid meshes give).')
CALL = 'Whole statement, unbounded, by the contract of the whole agglomeration call over the contracts of everything it calls: '
set_('C04', 'proof', CALL + 'the container as handed to the correction respects what a call without correction guarantees, and the returned numbers compare with it as stated. That this container is what the same call without correction returns rests on the option being read at that one place only (visible in the executed text: no obligation depends on it before).')
set_('C01', 'proof', CALL + 'one number per fine cell, the numbers are those of the coarse cells and every one occurs; it returns normally (loops without counter have variants).')
set_('C02', 'proof', CALL + 'every coarse cell of the result, the set of cells with its number, is connected.')
set_('C03', 'proof', CALL + 'limits and leftovers of the result without correction.')
set_('C08', 'proof', CALL + 'it throws std::invalid_argument exactly for the arguments listed and then leaves the output; the data of the mesh are required to be valid only for arguments past the first tests.')
set_('C10', 'proof', CALL + 'the compactness recorded for each isotropic coarse cell of the result; and both compactness functions on their own.')
set_('C05', 'proof', CALL + 'the lines are disjoint and of at least two cells, those given when given; each is cut from the right end into pairs, the last one a triple when allowed, as far as the maximum lets, and every anisotropic coarse cell of the result is one of the pieces. Boundary faces count up to the dimension.')
set_('C06', 'proof', CALL + 'one exported line per line of at least two cells, listing in cutting order the numbers, in the result, of the coarse cells cut from it; offsets; both arrays empty without lines.')
set_('C18', 'proof', CALL + 'index, dereference, front/back, iterator and assertion obligations of every function executed, plus the utilities outside the call that are under contract. Subgraph and the functions named under C22 are outside.')
set_('C21', 'proof', 'Whole statement, unbounded, in real arithmetic: tagging, candidates by coupling and by direction, construction of the lines with its termination, and the constructor that asks for them.')
set_('C22', 'exploration', 'Not proved: bounded search of the real code under sanitizers, random graphs of up to 20 nodes and histories of edits.', technique='sanitized search over random subgraphs and edits (bounded)')
NOTES = 'No hooks in /repo: the verifier reads the headers through clang on every run.'
