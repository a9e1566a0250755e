"""Contracts of the loop over the seeds: one level of isotropic agglomeration."""
import z3
from z3 import And, Or, Not, Implies, ForAll, Exists, If, Select, Store, Int, Ints, MultiPattern
from vf.contract import Contract, Loop
from vf.exec import Obj
from vf.types import get
from vf.proofs import Lemma
from .util import ln, at
from .graph import mem, mc, ASET
from .container import K, INV, holds, FINE, SHARED, CONNECTED, right_compact, all_named, symmetric, fine_graph, CT, CT_AX, CT_FULL, CT_BOUND, older, CELLS, MARKS, F, EDGE, NOTE, Before, survivors, big_survive, prefix_stays, none_small, no_small_left
from .grow import mesh, AGG, ISO, THE, NB_HEAP, MESH
from . import container, seeds, iso
from .iso import A, At, P, POOL, POOL_SORTS, POOLS, FLAGSORT, fl_, fl2_, PINV_B, PINV_N, CHOOSE_REQ, CHOOSE_ENS, CHOOSE, POOL_NOW, pool_ok, POOLF, has, hint

i, j, k, l, u, v, w, x, m = Ints('i j k l u v w x m')

# -------------------------------------------- counting marks, once more
F2 = z3.Const('F2', ASET)


def _sub(n):
    return ForAll([x], Implies(And(0 <= x, x < n, Select(F, x)), Select(F2, x)), patterns=[Select(F, x)])


_less = lambda n: Implies(_sub(n), And(CT(F, n) <= CT(F2, n), Implies(And(0 <= x, x < n, Select(F2, x), Not(Select(F, x))), CT(F, n) < CT(F2, n))))
CT_MORE = Lemma('more marks count more', ForAll([F, F2, x, m], Implies(m >= 0, _less(m)), patterns=[MultiPattern(CT(F, m), CT(F2, m), Select(F2, x))]),
                [('none', CT_AX, [m == 0], _less(m)), ('one more', CT_AX, [m >= 0, _less(m)], _less(m + 1))])
_all = lambda n: Implies(ForAll([i], Implies(And(0 <= i, i < n), Select(F, i)), patterns=[Select(F, i)]), CT(F, n) == n)
CT_ALL = Lemma('all marked, all counted', ForAll([F, m], Implies(m >= 0, _all(m)), patterns=[CT(F, m)]),
               [('none', CT_AX, [m == 0], _all(m)), ('one more', CT_AX, [m >= 0, _all(m)], _all(m + 1))])

# ------------------------------------------------- the pool and more marks
_f = [z3.Const('p%d' % q, s) for q, s in enumerate(POOL_SORTS)]


class _P(seeds.P):
    def __init__(self, agg):
        (self.L, self.top, self.bnd, self.wt), self.n, self.agg = _f[1:], ln(_f[3]), agg
        self.L0, self.top0 = self.L, self.top


_more = ForAll([x], Implies(at(fl_, x), at(fl2_, x)), patterns=[at(fl2_, x), at(fl_, x)])
POOL_MONO = Lemma('a pool in order stays in order when cells are marked (both classes)',
    ForAll(_f + [fl_, fl2_], Implies(And(POOL(*_f, fl_), _more), POOL(*_f, fl2_)), patterns=[MultiPattern(POOL(*_f, fl_), POOL(*_f, fl2_))]),
    [('%s %s' % (t, n), [], [_more] + [g(_P(fl_), _f[1], _f[2]) for _, g in inv], f(_P(fl2_), _f[1], _f[2])) for t, inv in (('by boundary', PINV_B), ('by neighbourhood', PINV_N)) for n, f in inv])

# ------------------------------------------------------------- parameters
CARD_IN = ('cardinalities', lambda c: And([Or(c.a(q) == 0, c.a(q) > 1) for q in range(3)]))
DEFAULT = {'_min_card': (1, 3, 6), '_max_card': (2, 5, 10), '_goal_card': (0, 4, 8)}


def chosen(c, fld):
    a, two, three = DEFAULT[fld]
    return If(c.a(a) == 0, If(c.f('_dimension', cls=AGG) == 2, two, three), c.a(a))


PARAMETERS = Contract(
    'Agglomerator_Isotropic::set_agglomeration_parameter', props=('C03', 'C18'),
    requires=[('dimension', lambda c: Or(c.f('_dimension', cls=AGG) == 2, c.f('_dimension', cls=AGG) == 3))],
    ensures=[('%s as given, else the default' % f, lambda c, f=f: c.f(f, cls=AGG) == chosen(c, f)) for f in DEFAULT],
    modifies=['_min_card', '_max_card', '_goal_card', '_threshold_card'])

# ------------------------------------------------------ one coarse cell, any class
CHOOSE_ANY = Contract('Agglomerator_Isotropic::choose_optimal_cc_and_update_seeds_pool', props=('C02', 'C03', 'C10'), abstract=True, allocates=True,
                      requires=CHOOSE_REQ, ensures=CHOOSE_ENS, modifies=[2] + NB_HEAP + POOLF)


# ----------------------------------------------------------------- one level
def cc(f):
    return lambda c: f(At(c, A(c).cc))


def Q(c, old=False):
    return K(c, old=old, obj=A(c).cc)


def part(nf):
    return (nf[0], cc(nf[1]))


PART_NAMES = ('the parts exist', 'one mark per cell', 'seeds pool of this graph')
STATE_CC = [part(h) for h in INV + [holds('waiting'), holds('singular')]] + [part(CONNECTED), part(SHARED), ('recorded compactness', cc(right_compact)), ('nothing waits', lambda c: ln(Q(c).delayed) == 0)]
OURS = [('the container is of this graph', lambda c: And(Q(c).graph == THE, Q(c).n == mesh(c).n)),
        ('the parts exist', lambda c: And([And(y > 0, y < c.st.ghost['_limit']) for y in (A(c).cc.ref, A(c).pool.ref)])),
        ('seeds pool of this graph', lambda c: And(A(c).p().n == A(c).g.n, seeds.sizes(A(c).p())))]
POOL_ANY = ('the pool is in order', lambda c: And(pool_ok(c, A(c).agg, obj=A(c).pool), Implies(Q(c).nb < Q(c).n, has(A(c).p().top))))
ARGS = ('cardinalities given in order', lambda c: And(c.a(0) > 1, c.a(1) > 1, c.a(1) <= c.a(0), c.a(0) <= c.a(2)))
ORDER0 = ('number of fine cells', lambda c: And(ln(c.f('_l_nb_of_cells', cls=AGG)) >= 1, at(c.f('_l_nb_of_cells', cls=AGG), 0) == mesh(c).n))


def new_ok(c, q=None):
    """isotropic coarse cells made here: at most the maximum, below the minimum only with no later neighbour"""
    q, o, a, g = q or Q(c), Q(c, True), A(c), mesh(c)
    y = at(g.col, k)
    return And(ForAll([i], Implies(And(q.live(i), i >= o.n_cc), And(q.cell(i, '_is_isotropic'), get(q.cell(i, '_s_fc'), 'card') <= a.max)), patterns=[q.ptr(i)]),
               ForAll([i, x, k], Implies(And(q.live(i), i >= o.n_cc, get(q.cell(i, '_s_fc'), 'card') < a.min, q.lists(i, x), g.inrow(x, k)), And(q.has(y), q.names(y) <= i)), patterns=[MultiPattern(q.lists(i, x), y)]))


def stays(c, q=None):
    return older(At(c, A(c).cc), q)


def corrected(f):
    """with correction: f of the container after and before it"""
    return lambda c: Implies(c.a(4), f(At(c, A(c).cc), Q(c), Before()))


BEFORE = [('partition before the correction', lambda c, q, o: And(o.numbers(), o.n == q.n, o.thr == q.thr, all_named(o), o.exact(), o.inrange())), ('coarse cells there before stay before the correction', lambda c, q, o: older(c, o)),
          ('new ones respect the limits before the correction', lambda c, q, o: new_ok(c.c, o)), ('correction: survivors keep order and fine cells', survivors), ('correction: coarse cells above the threshold and anisotropic ones survive', big_survive),
          ('correction: numbers before the first too-small one stay', prefix_stays), ('correction: nothing changes without too-small ones', none_small), ('correction: no too-small coarse cell touches another isotropic one', no_small_left)]


CELLPTR = 'std::shared_ptr<Coarse_Cell<unsigned long, double, int>>'
CC_FIELDS = {'_ccs': 'std::map<unsigned long, %s>' % CELLPTR, '_cc_counter': 'unsigned long', '_fc_2_cc': 'std::vector<std::optional<unsigned long>>', '_is_fc_agglomerated': 'std::vector<bool>',
             '_nb_of_agglomerated_fc': 'unsigned long', '_delayed_cc': 'std::vector<std::pair<std::unordered_set<unsigned long>, int>>', '_singular_cc': 'std::deque<unsigned long>'}
CC_HEAP = [('heap', 'Coarse_Cell_Container::' + n, t) for n, t in CC_FIELDS.items()]


def all_marked(c):
    q = Q(c)
    hint(c, ForAll([x], Implies(q.fine(x), at(q.agg, x)), patterns=[at(q.agg, x), at(q.f2c, x)]), 'every cell is marked')


def some_free(c):
    q = Q(c)
    hint(c, Not(ForAll([x], Implies(q.fine(x), at(q.agg, x)), patterns=[at(q.agg, x)])), 'some cell is free')


LEVEL = Contract(
    'Agglomerator_Isotropic::agglomerate_one_level', props=('C01', 'C02', 'C03', 'C04', 'C10'), allocates=True, axioms=MARKS, lemmas=[CT_MORE, CT_ALL, CT_FULL, CT_BOUND, POOL_MONO],
    requires=MESH + OURS + STATE_CC + [POOL_ANY, ARGS, ORDER0, ('dimension', lambda c: And(Or(A(c).dim == 2, A(c).dim == 3), A(c).least >= 0)), ('one weight per cell', lambda c: ln(c.a(3)) == A(c).g.n)],
    ensures=[part(h) for h in INV] + [('cells of the graph', lambda c: Q(c).n == mesh(c).n), ('cardinalities as given', lambda c: And(A(c).goal == c.a(0), A(c).min == c.a(1), A(c).max == c.a(2))), ('every fine cell has a coarse cell', lambda c: all_named(Q(c))), part(CONNECTED), ('recorded compactness', cc(right_compact)),
             ('number of coarse cells', lambda c: (lambda L, L0: And(ln(L) == ln(L0) + 1, at(L, ln(L0)) == Q(c).n_cc))(c.f('_l_nb_of_cells', cls=AGG), c.of('_l_nb_of_cells', cls=AGG))),
             ('without correction coarse cells there before stay', lambda c: Implies(Not(c.a(4)), stays(c))), ('without correction new ones respect the limits', lambda c: Implies(Not(c.a(4)), new_ok(c)))]
        + [(n, corrected(f)) for n, f in BEFORE],
    modifies=['_min_card', '_max_card', '_goal_card', '_threshold_card', '_l_nb_of_cells'] + CC_HEAP + CELLS + NB_HEAP + POOLF,
    loops={0: Loop(OURS + STATE_CC + [POOL_ANY, ('coarse cells there before stay', stays), ('new ones respect the limits', new_ok)], variant=lambda c: Q(c).n - Q(c).nb, at_body=some_free, at_exit=all_marked)})

CONTRACTS = [PARAMETERS, CHOOSE_ANY, LEVEL]
