"""Contracts of Dual_Graph.h: rows, compactness, neighbourhoods, tagging."""
import z3
from z3 import And, Or, Not, Implies, ForAll, Exists, If, Select, Int, Ints, IntVal, MultiPattern
from vf.contract import Contract, Loop, Given
from vf.types import get, sel
from vf.proofs import Lemma
from vf.stl import cnt_fn, cnt_axioms
from .util import ln, at, row, greater_def
from vf.exec import PyFn, _mul, _div, _sqrt
from vf import types as T

i, j, k, u, v, w = Ints('i j k u v w')
IS = z3.IntSort()
CNT = cnt_fn(IS)
ASET = z3.ArraySort(IS, z3.BoolSort())
AINT = z3.ArraySort(IS, IS)


def mem(s, x):
    return Select(get(s, 'mem'), x)


class G:
    """The compressed graph held by an object in a state."""

    def __init__(self, c, obj=None, old=False):
        f = c.of if old else c.f
        kw = {} if obj is None else {'obj': obj}
        self.n = f('_number_of_cells', cls='Graph', **kw)
        self.row = f('_m_CRS_Row_Ptr', cls='Graph', **kw)
        self.col = f('_m_CRS_Col_Ind', cls='Graph', **kw)
        self.val = f('_m_CRS_Values', cls='Graph', **kw)
        self.vol = f('_volumes', cls='Graph', **kw)

    def lo(self, x):
        return at(self.row, x)

    def hi(self, x):
        return at(self.row, x + 1)

    def inrow(self, x, e):
        return And(self.lo(x) <= e, e < self.hi(x))

    def cell(self, x):
        return And(0 <= x, x < self.n)

    def valid(self):
        """Compressed rows of a graph with n cells."""
        return And(self.n >= 0, ln(self.row) == self.n + 1, at(self.row, 0) == 0, at(self.row, self.n) == ln(self.col),
                   ln(self.val) == ln(self.col), ln(self.vol) == self.n,
                   ForAll([i, j], Implies(And(0 <= i, i <= j, j <= self.n),
                                          And(0 <= at(self.row, i), at(self.row, i) <= at(self.row, j), at(self.row, j) <= ln(self.col))),
                          patterns=[MultiPattern(at(self.row, i), at(self.row, j))]),
                   ForAll([k], Implies(And(0 <= k, k < ln(self.col)), self.cell(at(self.col, k))), patterns=[at(self.col, k)]))

    def noloops(self):
        return ForAll([u, k], Implies(And(self.cell(u), self.inrow(u, k)), at(self.col, k) != u),
                      patterns=[MultiPattern(at(self.row, u), at(self.col, k))])

    def inner(self, S, x):
        """number of neighbours of x inside the set S"""
        return CNT(get(S, 'mem'), get(self.col, 'arr'), self.lo(x), self.hi(x))


def cells_of(g, S):
    return ForAll([u], Implies(mem(S, u), g.cell(u)), patterns=[mem(S, u)])


VALID = ('the graph is well formed', lambda c: G(c).valid())

# lemma: counting over a range without matches gives zero (induction over the end of the range)
P, A = z3.Const('P', ASET), z3.Const('A', AINT)
lo_, hi_ = Ints('lo hi')


def none_in(P, A, lo, hi):
    return ForAll([i], Implies(And(lo <= i, i < hi), Not(Select(P, Select(A, i)))), patterns=[Select(A, i)])


CNT_AX = cnt_axioms(IS)
COUNT_NONE = Lemma('counting nothing gives zero', ForAll([P, A, lo_, hi_], Implies(none_in(P, A, lo_, hi_), CNT(P, A, lo_, hi_) == 0), patterns=[CNT(P, A, lo_, hi_)]), [
          ('empty range', CNT_AX, [hi_ <= lo_], CNT(P, A, lo_, hi_) == 0),
          ('one more', CNT_AX,
           [hi_ >= lo_, none_in(P, A, lo_, hi_ + 1), Implies(none_in(P, A, lo_, hi_), CNT(P, A, lo_, hi_) == 0)], CNT(P, A, lo_, hi_ + 1) == 0)])


# ------------------------------------------------------- C10 compactness
def comp_done(c):
    it = c.counter_value()
    d, S, g = c.v('dict_fc_compactness', 'std::unordered_map<unsigned long, int>'), c.arg(0), G(c)
    return ForAll([u], And(mem(d, u) == And(mem(S, u), it.enum.pos(u) < it.pos),
                           Implies(mem(d, u), Select(get(d, 'val'), u) == g.inner(S, u))),
                  patterns=[mem(d, u)])


FC_COMPACTNESS = Contract(
    'Graph::compute_fc_compactness_inside_a_cc', props=('C10', 'C18'),
    requires=[VALID, ('no self loops', lambda c: G(c).noloops()), ('cells exist', lambda c: cells_of(G(c), c.a(0)))],
    ensures=[('one value per cell of the set', lambda c: ForAll([u], mem(c.ret, u) == mem(c.a(0), u), patterns=[mem(c.ret, u), mem(c.a(0), u)])),
             ('exact counts', lambda c: ForAll([u], Implies(mem(c.a(0), u), Select(get(c.ret, 'val'), u) == G(c).inner(c.a(0), u)),
                                               patterns=[mem(c.a(0), u)]))],
    axioms=CNT_AX, lemmas=[COUNT_NONE],
    loops={0: Loop([('values of the cells so far', comp_done)])})

MIN_COMPACTNESS = Contract(
    'Graph::compute_min_fc_compactness_inside_a_cc', props=('C10', 'C18'),
    requires=FC_COMPACTNESS.requires,
    ensures=[('zero for at most one cell', lambda c: Implies(get(c.a(0), 'card') <= 1, c.ret == 0)),
             ('not above any cell', lambda c: Implies(get(c.a(0), 'card') > 1, ForAll([u], Implies(mem(c.a(0), u), c.ret <= G(c).inner(c.a(0), u)), patterns=[mem(c.a(0), u)]))),
             ('reached by a cell', lambda c: Implies(get(c.a(0), 'card') > 1, Exists([u], And(mem(c.a(0), u), c.ret == G(c).inner(c.a(0), u)))))],
    axioms=CNT_AX, lemmas=[COUNT_NONE])

# the value itself, as a function of the graph and the set
MC = z3.Function('min_compactness', AINT, AINT, ASET, IS, IS)
_r, _c, _S, _n = z3.Const('mr', AINT), z3.Const('mcol', AINT), z3.Const('mS', ASET), Int('mn')


def _inner(r, c, S, x):
    return CNT(S, c, Select(r, x), Select(r, x + 1))


MC_DEF = [ForAll([_r, _c, _S, _n], Implies(_n <= 1, MC(_r, _c, _S, _n) == 0), patterns=[MC(_r, _c, _S, _n)]),
          ForAll([_r, _c, _S, _n], Implies(And(_n > 1, Exists([u], Select(_S, u))),
                                           And(ForAll([u], Implies(Select(_S, u), MC(_r, _c, _S, _n) <= _inner(_r, _c, _S, u)), patterns=[Select(_S, u)]),
                                               Exists([u], And(Select(_S, u), MC(_r, _c, _S, _n) == _inner(_r, _c, _S, u))))), patterns=[MC(_r, _c, _S, _n)])]


def mc(g, S):
    return MC(get(g.row, 'arr'), get(g.col, 'arr'), get(S, 'mem'), get(S, 'card'))


MIN_COMPACTNESS.axioms += MC_DEF
MIN_COMPACTNESS.ensures.append(('the minimum as a function of graph and set', lambda c: c.ret == mc(G(c), c.a(0))))

# ----------------------------------------------------- C09 neighbourhoods
def free(agg, x):
    return Not(at(agg, x))


def edge_from(g, S, x):
    return Exists([u, k], And(mem(S, u), g.inrow(u, k), at(g.col, k) == x))


def nb_sound(c, R, g, S, agg):
    return ForAll([v], Implies(mem(R, v), And(g.cell(v), Not(mem(S, v)), free(agg, v), edge_from(g, S, v))), patterns=[mem(R, v)])


def nb_complete(c, R, g, S, agg, upto=None):
    lim = (lambda x: True) if upto is None else upto
    return ForAll([u, k], Implies(And(mem(S, u), lim(u), g.inrow(u, k), free(agg, at(g.col, k)), Not(mem(S, at(g.col, k)))), mem(R, at(g.col, k))),
                  patterns=[MultiPattern(mem(S, u), at(g.col, k))])


def nb_row(c, R, g, S, agg, x, upto):
    return ForAll([k], Implies(And(g.lo(x) <= k, k < upto, free(agg, at(g.col, k)), Not(mem(S, at(g.col, k)))), mem(R, at(g.col, k))),
                  patterns=[at(g.col, k)])


SETT = 'std::unordered_set<unsigned long>'


def _nb(c):
    return c.v('cc_neighs', SETT, 1), G(c), c.arg(0), c.arg(1)


FIRST_NEIGHBOURS = Contract(
    'Dual_Graph::get_neighbourhood_of_cc', props=('C09', 'C18'),
    requires=[VALID, ('seeds exist', lambda c: cells_of(G(c), c.a(0))), ('one mark per cell', lambda c: ln(c.a(1)) == G(c).n)],
    ensures=[('only free cells next to the set', lambda c: nb_sound(c, c.ret, G(c), c.a(0), c.a(1))),
             ('every free cell next to the set', lambda c: nb_complete(c, c.ret, G(c), c.a(0), c.a(1)))],
    loops={0: Loop([('only neighbours', lambda c: nb_sound(c, *_nb(c))),
                    ('all neighbours of the cells so far', lambda c: nb_complete(c, *_nb(c), upto=lambda x: c.counter_value().enum.pos(x) < c.k))]),
           1: Loop([('only neighbours', lambda c: nb_sound(c, *_nb(c))),
                    ('earlier cells', lambda c: nb_complete(c, *_nb(c), upto=lambda x: c.outer(0).enum.pos(x) < c.outer(0).pos)),
                    ('row so far', lambda c: nb_row(c, *_nb(c), x=c.v('fc', 'unsigned long'), upto=c.k))])})

MAPT = 'std::unordered_map<unsigned long, int>'


def val(m, x):
    return Select(get(m, 'val'), x)


class NB:
    # arguments: 0 seeds, 1 order (in/out), 2 result, 3 maximum cardinality, 4 agglomerated marks
    def __init__(self, c):
        self.c, self.g, self.S, self.agg = c, G(c), c.arg(0), c.arg(4)
        self.D = c.arg(2)

    def L(self):
        return self.c.v('d_n_of_order_o_m_one', MAPT, 0)

    def N(self):
        return self.c.v('d_n_of_order_o', MAPT, 1)

    def o(self):
        return self.c.v('i_order', 'int', 0)

    def ok(self, x):
        # cells that may be collected
        return And(free(self.agg, x), Not(mem(self.S, x)))

    # layers D (orders 0..o-2) and L (order o-1)
    def layers(self, D, L, o):
        g, S = self.g, self.S
        return And(ForAll([v], Implies(mem(D, v), And(g.cell(v), Not(mem(L, v)), 0 <= val(D, v), val(D, v) <= o - 2,
                                                      (val(D, v) == 0) == mem(S, v), Or(mem(S, v), free(self.agg, v)))), patterns=[mem(D, v)]),
                   ForAll([v], Implies(mem(L, v), And(g.cell(v), val(L, v) == o - 1, (o == 1) == mem(S, v), Or(mem(S, v), free(self.agg, v)))), patterns=[mem(L, v)]))

    def seeds_in(self, D, L, o):
        return ForAll([v], Implies(mem(self.S, v), If(o == 1, mem(L, v), mem(D, v))), patterns=[mem(self.S, v)])

    def closed(self, D, L):
        # neighbours of D are in D or L, at most one order higher
        g = self.g
        x = at(g.col, k)
        return ForAll([u, k], Implies(And(mem(D, u), g.inrow(u, k), self.ok(x)),
                                      Or(And(mem(D, x), val(D, x) <= val(D, u) + 1), And(mem(L, x), val(L, x) <= val(D, u) + 1))),
                      patterns=[MultiPattern(mem(D, u), x)])

    def pred(self, D, X):
        # every cell of X of positive order has a neighbour in D one order lower
        g = self.g
        return ForAll([v], Implies(And(mem(X, v), val(X, v) > 0),
                                   Exists([u, k], And(mem(D, u), g.inrow(u, k), at(g.col, k) == v, val(D, u) == val(X, v) - 1))), patterns=[mem(X, v)])


def keeps(c, name, ty, nth):
    return c.v(name, ty, nth) == c.e(name, ty, nth)


def _merge_inv(c, maybe=False):
    # D grows by the entries of L met so far
    q = NB(c)
    it = c.counter_value()
    D0, D, L = c.ex.rv(c.at_entry, c.ex.cur.args[2]), q.D, q.L()
    size = get(D, 'card') == get(D0, 'card') + c.k
    if maybe:
        size = Implies(ForAll([v], Not(And(mem(D0, v), mem(L, v)))), size)
    return And(size,
               ForAll([v], And(mem(D, v) == Or(mem(D0, v), And(mem(L, v), it.enum.pos(v) < c.k)),
                               Implies(mem(D0, v), val(D, v) == val(D0, v)),
                               Implies(And(mem(L, v), it.enum.pos(v) < c.k), val(D, v) == val(L, v))), patterns=[mem(D, v), mem(L, v), mem(D0, v)]))


def _n_sound(c):
    q = NB(c)
    N, g, L = q.N(), q.g, q.L()
    return ForAll([v], Implies(mem(N, v), And(g.cell(v), q.ok(v), Not(mem(q.D, v)), val(N, v) == q.o(),
                                              Exists([u, k], And(mem(L, u), g.inrow(u, k), at(g.col, k) == v)))), patterns=[mem(N, v)])


def _n_cover(c, lim):
    q = NB(c)
    N, g, L = q.N(), q.g, q.L()
    x = at(g.col, k)
    return ForAll([u, k], Implies(And(mem(L, u), lim(u), g.inrow(u, k), q.ok(x), Not(mem(q.D, x))), mem(N, x)),
                  patterns=[MultiPattern(mem(L, u), x)])


def _same_maps(c):
    D0 = c.ex.rv(c.at_entry, c.ex.cur.args[2])
    return And(NB(c).D == D0, keeps(c, 'd_n_of_order_o_m_one', MAPT, 0))


def _copy_inv(c):
    q = NB(c)
    it = c.counter_value()
    L, N = q.L(), q.N()
    return And(get(L, 'card') == c.k,
               ForAll([v], And(mem(L, v) == And(mem(N, v), it.enum.pos(v) < c.k), Implies(mem(L, v), val(L, v) == val(N, v))),
                      patterns=[mem(L, v), mem(N, v)]))


def _erase_inv(c):
    q = NB(c)
    it = c.counter_value()
    D0, D = c.ex.rv(c.at_entry, c.ex.cur.args[2]), q.D
    return And(get(D, 'card') == get(D0, 'card') - c.k,
               ForAll([v], And(mem(D, v) == And(mem(D0, v), Not(And(mem(q.S, v), it.enum.pos(v) < c.k))), val(D, v) == val(D0, v)),
                      patterns=[mem(D, v), mem(D0, v)]))


def _small_before(c, D):
    return Or(NB(c).o() == 1, NB(c).o() - 1 <= c.old(1), get(D, 'card') < c.arg(3))


def reached(c):
    return c.a(1) - 1


def exhausted(c):
    q = NB(c)
    g, d = q.g, c.a(2)
    return ForAll([u, k], Implies(And(Or(mem(q.S, u), mem(d, u)), g.inrow(u, k), q.ok(at(g.col, k))), mem(d, at(g.col, k))),
                  patterns=[MultiPattern(at(g.row, u), at(g.col, k))])


def post_cells(c):
    q = NB(c)
    d = c.a(2)
    return ForAll([v], Implies(mem(d, v), And(q.g.cell(v), q.ok(v), 1 <= val(d, v), val(d, v) <= reached(c))), patterns=[mem(d, v)])


def post_closed(c):
    q = NB(c)
    g, d = q.g, c.a(2)
    x = at(g.col, k)
    lvl = lambda z: If(mem(q.S, z), 0, val(d, z))
    return ForAll([u, k], Implies(And(Or(mem(q.S, u), mem(d, u)), lvl(u) < reached(c), g.inrow(u, k), q.ok(x)),
                                  And(mem(d, x), val(d, x) <= lvl(u) + 1)), patterns=[MultiPattern(at(g.row, u), x)])


# PREDS(r, c, M, V, S): every cell of M is listed by one of M an order lower, those of order one by one of S
PREDS = z3.Function('orders', AINT, AINT, ASET, AINT, ASET, z3.BoolSort())


def preds_def(r, c, M, V, S):
    return ForAll([v], Implies(Select(M, v), And(Select(V, v) >= 1, Exists([u, k], And(Select(r, u) <= k, k < Select(r, u + 1), Select(c, k) == v,
                  Or(And(Select(S, u), Select(V, v) == 1), And(Select(M, u), Select(V, u) == Select(V, v) - 1)))))), patterns=[Select(M, v)])


def post_pred(c):
    # callers get the defined name: unfolding it chains one witness after another
    q = NB(c)
    g, d = q.g, c.a(2)
    return (PREDS if c.caller else preds_def)(get(g.row, 'arr'), get(g.col, 'arr'), get(d, 'mem'), get(d, 'val'), get(q.S, 'mem'))


def post_enough(c):
    return Or(exhausted(c), And(reached(c) >= c.o(1), get(c.a(0), 'card') + get(c.a(2), 'card') >= c.a(3)))


def post_minimal(c):
    # beyond the requested order, the cells of lower order were fewer than the maximum
    q = NB(c)
    d, r = c.a(2), reached(c)

    def smaller(X):
        return And(get(X, 'card') < c.a(3), ForAll([v], mem(X, v) == Or(mem(q.S, v), And(mem(d, v), val(d, v) < r)), patterns=[mem(X, v)]))
    X = c.st.ghost.get('inner layers') if not c.caller else None
    if X is None:
        X = z3.Const('X', d.sort())
        return Or(r <= c.o(1), Exists([X], smaller(X)))
    return Or(r <= c.o(1), smaller(X))


def _remember(c):
    c.st.ghost['inner layers'] = c.ex.rv(c.head, c.ex.cur.args[2])


def _orders_left(c):
    b, upto0 = NB(c), lambda y: If(y > 0, y, 0)
    return upto0(c.arg(1) + 1 - b.o()), upto0(c.arg(3) - get(b.D, 'card') - get(b.L(), 'card'))


NEIGHBOURHOOD = Contract(
    'Dual_Graph::compute_neighbourhood_of_cc', props=('C09', 'C18'),
    requires=[VALID, ('seeds exist', lambda c: cells_of(G(c), c.a(0))), ('one mark per cell', lambda c: ln(c.a(4)) == G(c).n),
              ('maximum cardinality above one', lambda c: c.a(3) > 1), ('result starts empty', lambda c: And(get(c.a(2), 'card') == 0, ForAll([v], Not(mem(c.a(2), v)), patterns=[mem(c.a(2), v)]))),
              ('order requested is not negative', lambda c: c.a(1) >= 0)],
    ensures=[('only free cells within the order, seeds excluded', post_cells),
             ('no smaller order was enough', post_minimal),
             ('every free cell next to a collected one of lower order', post_closed),
             ('exact order: a neighbour one order lower', post_pred),
             ('requested order and enough cells, or nothing left', post_enough)],
    modifies=[1, 2],
    loops={0: Loop([('seeds so far', lambda c: (lambda L, it: And(get(L, 'card') == c.k, ForAll([v], And(mem(L, v) == And(mem(c.arg(0), v), it.enum.pos(v) < c.k), Implies(mem(L, v), val(L, v) == 0)), patterns=[mem(L, v), mem(c.arg(0), v)])))(NB(c).L(), c.counter_value()))]),
           1: Loop([('order', lambda c: NB(c).o() >= 1),
                    ('layers', lambda c: NB(c).layers(NB(c).D, NB(c).L(), NB(c).o())),
                    ('seeds', lambda c: NB(c).seeds_in(NB(c).D, NB(c).L(), NB(c).o())),
                    ('inner layers are closed', lambda c: NB(c).closed(NB(c).D, NB(c).L())),
                    ('predecessors of inner layers', lambda c: NB(c).pred(NB(c).D, NB(c).D)),
                    ('predecessors of the last layer', lambda c: NB(c).pred(NB(c).D, NB(c).L())),
                    ('too small one order before', lambda c: _small_before(c, NB(c).D)),
                    ('size', lambda c: Or(NB(c).o() > 1, get(NB(c).L(), 'card') == get(c.arg(0), 'card')))], at_body=_remember, at_exit=_remember, variant=_orders_left),
           2: Loop([('merged so far', _merge_inv)]),
           3: Loop([('maps kept', _same_maps), ('only new cells', _n_sound),
                    ('all new neighbours of the cells so far', lambda c: _n_cover(c, lambda x: c.counter_value().enum.pos(x) < c.k))]),
           4: Loop([('maps kept', _same_maps), ('only new cells', _n_sound),
                    ('earlier cells', lambda c: _n_cover(c, lambda x: c.outer(0).enum.pos(x) < c.outer(0).pos)),
                    ('row so far', lambda c: ForAll([k], Implies(And(G(c).lo(c.v('seed_tmp', 'unsigned long')) <= k, k < c.k, NB(c).ok(at(G(c).col, k)), Not(mem(NB(c).D, at(G(c).col, k)))),
                                                                 mem(NB(c).N(), at(G(c).col, k))), patterns=[at(G(c).col, k)]))]),
           5: Loop([('copied so far', _copy_inv)]),
           6: Loop([('merged so far', lambda c: _merge_inv(c, True))]),
           7: Loop([('seeds removed so far', _erase_inv)])})

# ------------------------------------------------------------ C20 tagging
AREAL = z3.ArraySort(IS, z3.RealSort())
SQD = z3.Function('sqd', AREAL, AREAL, IS, z3.RealSort())    # sum of squared differences of the first n coordinates
a_, b_ = z3.Consts('a b', AREAL)
n_ = Int('n')
x_, y_ = z3.Reals('x y')
SQD_AX = [ForAll([a_, b_], SQD(a_, b_, 0) == 0, patterns=[SQD(a_, b_, 0)]),
          ForAll([a_, b_, n_], Implies(n_ > 0, SQD(a_, b_, n_) == SQD(a_, b_, n_ - 1) + _mul(Select(a_, n_ - 1) - Select(b_, n_ - 1), Select(a_, n_ - 1) - Select(b_, n_ - 1))),
                 patterns=[SQD(a_, b_, n_)])]
FLOAT_AX = [ForAll([x_], _mul(x_, x_) >= 0, patterns=[_mul(x_, x_)]),
            ForAll([x_, y_], Implies(And(x_ > 0, y_ >= 0), _div(x_, y_) > 0), patterns=[_div(x_, y_)])]

DISTANCE = Contract(
    'squared_euclidean_distance', props=('C20', 'C12', 'C18'),
    requires=[('second point has at least as many coordinates', lambda c: ln(c.a(0)) <= ln(c.a(1)))],
    ensures=[('sum of squared differences', lambda c: c.ret == SQD(get(c.a(0), 'arr'), get(c.a(1), 'arr'), ln(c.a(0)))),
             ('not negative', lambda c: c.ret >= 0)],
    axioms=SQD_AX + FLOAT_AX,
    loops={0: Loop([('partial sum', lambda c: And(c.v('dist', 'double') == SQD(get(c.arg(0), 'arr'), get(c.arg(1), 'arr'), c.k), c.v('dist', 'double') >= 0)),
                    ('in range', lambda c: c.k <= ln(c.arg(0)))])})

ROWMAX, ROWMIN = z3.Function('rowmax', IS, z3.RealSort()), z3.Function('rowmin', IS, z3.RealSort())
ARF = z3.Function('ar_of', z3.RealSort(), z3.RealSort(), z3.RealSort())


def row_extremes(c):
    g = G(c)
    big = -LOWEST
    return ForAll([u], Implies(g.cell(u), And(
        If(g.lo(u) < g.hi(u),
           And(Exists([k], And(g.inrow(u, k), at(g.val, k) == ROWMAX(u))), Exists([k], And(g.inrow(u, k), at(g.val, k) == ROWMIN(u))),
               ForAll([k], Implies(g.inrow(u, k), And(ROWMIN(u) <= at(g.val, k), at(g.val, k) <= ROWMAX(u))), patterns=[at(g.val, k)])),
           And(ROWMAX(u) == 0, ROWMIN(u) == big)))), patterns=[at(g.row, u), ROWMAX(u), ROWMIN(u)])


from vf.stl import LOWEST


class Tag:
    def __init__(self, c):
        self.c, self.g = c, G(c)
        self.S = c.f('_s_anisotropic_compliant_cells', cls='Dual_Graph')
        self.centers = c.f('_centers', cls='Dual_Graph')
        self.alt, self.mw, self.is_an, self.pool = c.arg(0), c.arg(1), c.arg(2), c.arg(3)
        self.thr, self.prio, self.coup = c.arg(4), c.arg(5), c.arg(6)

    def W(self):
        return self.c.v('aniso_w_weights', 'std::set<std::pair<unsigned long, double>, comma::CustomPairGreaterFunctor<std::pair<unsigned long, double>>>')

    def tagged(self, x):
        return And(mem(self.S, x), Or(self.thr < 0, ARF(ROWMIN(x), ROWMAX(x)) >= self.thr))

    def inv(self, x, e):
        p, q = at(self.centers, x), at(self.centers, at(self.g.col, e))
        return _div(z3.RealVal(1), SQD(get(p, 'arr'), get(q, 'arr'), ln(p)))

    def reference(self, x):
        g, m = self.g, at(self.mw, x)
        has = g.lo(x) < g.hi(x)
        return And(Implies(And(self.coup == 0, has), m == ROWMAX(x)),
                   Implies(And(self.coup == 1, has), And(ForAll([k], Implies(g.inrow(x, k), self.inv(x, k) <= m), patterns=[at(g.col, k)]),
                                                Exists([k], And(g.inrow(x, k), self.inv(x, k) == m)))))

    def collected(self, lim):
        p = z3.Const('p', get(self.W(), 'mem').sort().domain())
        x = get(p, 'first')
        return And(ForAll([p], mem(self.W(), p) == And(self.tagged(x), lim(x), get(p, 'second') == at(self.prio, x)), patterns=[mem(self.W(), p)]),
                   ForAll([u], Implies(And(self.tagged(u), lim(u)), mem(self.W(), self.pair(u))), patterns=[mem(self.S, u)]))

    def pair(self, x):
        return T.mk(T.sort_of(T.parse('std::pair<unsigned long, double>')), x, at(self.prio, x))

    def sizes(self):
        return And(ln(self.mw) == self.g.n, Implies(self.coup == 1, ln(self.alt) == ln(self.g.col)))

    def references(self, lim):
        return ForAll([u], Implies(And(mem(self.S, u), lim(u)), self.reference(u)), patterns=[at(self.mw, u), mem(self.S, u)])

    def alts(self, lim):
        g = self.g
        return Implies(self.coup == 1, ForAll([u, k], Implies(And(mem(self.S, u), lim(u), g.inrow(u, k)), at(self.alt, k) == self.inv(u, k)),
                                              patterns=[MultiPattern(mem(self.S, u), at(self.alt, k))]))


def _tag_loop(lim):
    return [('collected so far', lambda c: Tag(c).collected(lim(c))), ('reference coupling so far', lambda c: Tag(c).references(lim(c))),
            ('distance weights so far', lambda c: Tag(c).alts(lim(c))), ('array sizes', lambda c: Tag(c).sizes())]


def _lim0(c):
    it = c.counter_value()
    return lambda x: it.enum.pos(x) < it.pos


def _dist_loop():
    def cur(c):
        it = c.outer(0)
        return it.enum.at(it.pos)

    def inv(c):
        t = Tag(c)
        x = cur(c)
        m = c.v('max_ov_dist', 'double')
        e = c.pos('n_it')
        # the weights of the rows of the cells before are kept
        old = c.ex.rv(c.at_entry, c.ex.cur.args[0])
        return And(c.pos('w_it') == e, t.g.lo(x) <= e, e <= t.g.hi(x), t.sizes(),
                   ForAll([k], Implies(And(t.g.lo(x) <= k, k < e), And(at(t.alt, k) == t.inv(x, k), t.inv(x, k) <= m)), patterns=[at(t.alt, k), at(t.g.col, k)]),
                   ForAll([k], Implies(Or(k < t.g.lo(x), k >= e), at(t.alt, k) == at(old, k)), patterns=[at(t.alt, k)]),
                   If(e == t.g.lo(x), m == 0, And(m > 0, Exists([k], And(t.g.lo(x) <= k, k < e, t.inv(x, k) == m)))))
    return Loop([('row so far', inv)])


def _minmax(c):
    t = Tag(c)
    it = c.outer(0)
    x = it.enum.at(it.pos)
    g = t.g
    e = c.pos('n_it')
    mx, mn = c.v('max_weight', 'double', 0), c.v('min_weight', 'double', 1)
    return And(c.pos('w_it') == e, g.lo(x) <= e, e <= g.hi(x),
               ForAll([k], Implies(And(g.lo(x) <= k, k < e), And(at(g.val, k) <= mx, mn <= at(g.val, k))), patterns=[at(g.val, k)]),
               If(e == g.lo(x), And(mx == 0, mn == -LOWEST),
                  And(Exists([k], And(g.lo(x) <= k, k < e, at(g.val, k) == mx)), Exists([k], And(g.lo(x) <= k, k < e, at(g.val, k) == mn)))))


def _final(c):
    t = Tag(c)
    it = c.counter_value()
    p = z3.Const('p', get(t.W(), 'mem').sort().domain())
    E = it.enum
    return And(get(t.pool, 'lo') == 0, get(t.pool, 'hi') == c.k,
               ForAll([i], Implies(And(0 <= i, i < c.k), at(t.pool, i) == get(E.at(i), 'first')), patterns=[at(t.pool, i)]),
               ForAll([i], Implies(And(0 <= i, i < c.k), at(t.is_an, get(E.at(i), 'first'))), patterns=[E.at(i)]),
               ForAll([u], Implies(t.g.cell(u), at(t.is_an, u) == And(t.tagged(u), E.pos(t.pair(u)) < c.k)), patterns=[at(t.is_an, u)]),
               ForAll([u], Implies(t.tagged(u), E.at(E.pos(t.pair(u))) == t.pair(u)), patterns=[mem(t.S, u)]))


def _final_place(c):
    t, E = Tag(c), c.counter_value().enum
    c.st.ghost['place of a cell'] = lambda x: E.pos(t.pair(x))


def post_tags(c):
    t = Tag(c)
    return ForAll([u], Implies(t.g.cell(u), at(t.is_an, u) == t.tagged(u)), patterns=[at(t.is_an, u)])


def post_pool(c):
    t = Tag(c)
    ps = T.sort_of(T.parse('std::pair<unsigned long, double>'))
    pr = lambda x: T.mk(ps, x, at(t.prio, x))
    P = t.pool
    return And(get(P, 'lo') == 0,
               ForAll([i], Implies(And(0 <= i, i < get(P, 'hi')), And(t.g.cell(at(P, i)), t.tagged(at(P, i)))), patterns=[at(P, i)]),
               ForAll([i, j], Implies(And(0 <= i, i < j, j < get(P, 'hi')), greater_def(pr(at(P, i)), pr(at(P, j)))), patterns=[MultiPattern(at(P, i), at(P, j))]))


def post_pool_all(c):
    t = Tag(c)
    P = t.pool
    where = c.st.ghost.get('place of a cell') if not c.caller else None
    if where is not None:
        return ForAll([u], Implies(t.tagged(u), And(0 <= where(u), where(u) < get(P, 'hi'), at(P, where(u)) == u)), patterns=[mem(t.S, u)])
    return ForAll([u], Implies(t.tagged(u), Exists([i], And(0 <= i, i < get(P, 'hi'), at(P, i) == u))), patterns=[mem(t.S, u)])



def _tag_setup(ex, st, this, args):
    st.py[('Dual_Graph::_compute_AR', this.ref.sexpr())] = PyFn(lambda ex, st, a: ARF(a[0], a[1]))


def same_dim(cs):
    return ForAll([u, v], Implies(And(0 <= u, u < ln(cs), 0 <= v, v < ln(cs)), ln(at(cs, u)) == ln(at(cs, v))), patterns=[MultiPattern(at(cs, u), at(cs, v))])


TAG = Contract(
    'Dual_Graph::tag_anisotropic_cells', props=('C20', 'C18'), setup=_tag_setup,
    requires=[VALID, ('no self loops', lambda c: G(c).noloops()), ('weights are positive and finite', lambda c: ForAll([k], Implies(And(0 <= k, k < ln(G(c).val)), And(at(G(c).val, k) > 0, at(G(c).val, k) < -LOWEST)), patterns=[at(G(c).val, k)])),
              ('ghost: largest and smallest weight of each row', row_extremes),
              ('compliant cells exist', lambda c: cells_of(G(c), Tag(c).S)),
              ('centres', lambda c: And(ln(Tag(c).centers) == G(c).n, same_dim(Tag(c).centers))),
              ('array sizes', lambda c: And(ln(c.a(1)) == G(c).n, ln(c.a(2)) == G(c).n, ln(c.a(5)) == G(c).n)),
              ('nothing tagged before', lambda c: And(get(c.a(3), 'lo') == 0, get(c.a(3), 'hi') == 0, ForAll([u], Implies(G(c).cell(u), Not(at(c.a(2), u))), patterns=[at(c.a(2), u)]))),
              ('coupling type', lambda c: Or(c.a(6) == 0, c.a(6) == 1)), ('no preserving', lambda c: c.a(7) == 0)],
    ensures=[('array sizes', lambda c: And(ln(c.a(1)) == G(c).n, ln(c.a(2)) == G(c).n, Implies(c.a(6) == 1, ln(c.a(0)) == ln(G(c).col)))),
             ('tagged exactly when compliant and stretched', post_tags),
             ('pool in priority order', post_pool), ('pool holds every tagged cell', post_pool_all),
             ('reference coupling', lambda c: Tag(c).references(lambda x: True)),
             ('distance weights', lambda c: Tag(c).alts(lambda x: True))],
    modifies=[0, 1, 2, 3], axioms=FLOAT_AX,
    loops={0: Loop(_tag_loop(_lim0)), 1: Loop(_tag_loop(_lim0)), 2: _dist_loop(), 3: Loop(_tag_loop(_lim0)),
           4: Loop([('extreme weights so far', _minmax)]), 5: _dist_loop(), 6: Loop([('result so far', _final)], at_exit=_final_place)})

def _ar_meaning(c):
    """what the stored aspect-ratio function computes"""
    if c.caller:
        return z3.BoolVal(True)
    f = c.ex.rv(c.st, c.ex.field(c.st, c.this, '_compute_AR', 'Dual_Graph'))
    lo, hi = z3.Reals('smallest largest')
    out = []
    q = c.st.copy()
    for s, r in c.ex.apply_value(q, f, [c.ex.temp(q, lo), c.ex.temp(q, hi)], c.fn):
        out.append(Implies(And([e for e, _ in s.pc[len(c.st.pc):]] + [True]), If(c.a(7) == 2, c.ex.rv(s, r) == _div(hi, lo), c.ex.rv(s, r) == _sqrt(_div(hi, lo)))))
    return And(out)


def name_graph(c):
    """the graph made is the one the contracts of the agglomerators call the graph; there is one"""
    if c.st.ghost.get('graph named') is not None:
        raise T.Unsupported('a second graph')
    c.st.ghost['graph named'] = z3.BoolVal(True)
    c.st.assume(c.this.ref == Int('the_graph'))


DUAL_CTOR = Contract(
    'Dual_Graph::Dual_Graph', props=('C20',), on_apply=name_graph, accepts=lambda ex, f: len(ex.params(f)) == 9,
    ensures=[('aspect ratio is largest over smallest face, its root in 3D', _ar_meaning),
             ('graph is stored as given', lambda c: And(c.f('_m_CRS_Row_Ptr') == c.a(1), c.f('_m_CRS_Col_Ind') == c.a(2), c.f('_m_CRS_Values') == c.a(3), c.f('_volumes') == c.a(4), c.f('_number_of_cells') == c.a(0))),
             ('boundary faces and centres are those given', lambda c: And(c.f('_n_bnd_faces') == c.a(6), c.f('_centers') == c.a(5))),
             ('compliant cells', lambda c: ForAll([u], mem(c.f('_s_anisotropic_compliant_cells'), u) == Exists([i], And(0 <= i, i < ln(c.a(8)), at(c.a(8), i) == u))))])

CLASSES = {'Graph': 1, 'Dual_Graph': 1, 'Subgraph': 1}
CONTRACTS = [FC_COMPACTNESS, MIN_COMPACTNESS, FIRST_NEIGHBOURS, NEIGHBOURHOOD, DISTANCE, TAG, DUAL_CTOR]


# the collected orders are the distances: REACH(x, m) says that x can be reached
# from a seed in m steps through free cells
REACH = z3.Function('reach', IS, IS, z3.BoolSort())


def ball_lemma():
    c = Given(['std::unordered_set<unsigned long>', 'int', MAPT, 'int', 'std::vector<bool>'],
              dict(_number_of_cells='unsigned long', _m_CRS_Row_Ptr='std::vector<unsigned long>', _m_CRS_Col_Ind='std::vector<unsigned long>',
                   _m_CRS_Values='std::vector<double>', _volumes='std::vector<double>'))
    c.caller = False
    q = NB(c)
    g, S, d = q.g, q.S, c.a(2)
    zero = lambda x: REACH(x, 0) == mem(S, x)
    succ = lambda x, n: REACH(x, n + 1) == And(q.ok(x), Exists([u, k], And(g.cell(u), g.inrow(u, k), at(g.col, k) == x, REACH(u, n))))
    static = [g.valid(), cells_of(g, S), ln(c.a(4)) == g.n]
    post = static + [f(c) for f in (post_cells, post_closed, post_pred)]
    x, n = Ints('x n')
    within = lambda n: ForAll([u], Implies(And(g.cell(u), REACH(u, n)), Or(mem(S, u), And(mem(d, u), val(d, u) <= n))), patterns=[REACH(u, n)])
    back = lambda n: ForAll([u], Implies(And(g.cell(u), If(n == 0, mem(S, u), And(mem(d, u), val(d, u) == n))), REACH(u, n)), patterns=[mem(d, u), mem(S, u)])
    inside = lambda n: ForAll([u], Implies(And(g.cell(u), REACH(u, n)), Or(mem(S, u), mem(d, u))), patterns=[REACH(u, n)])
    return Lemma('collected orders are exact distances', None, [
        ('everything within the order is collected, not farther than it is (no steps)', [], post + [g.cell(x), zero(x), REACH(x, 0)], mem(S, x)),
        ('everything within the order is collected, not farther than it is (one more step)', [],
         post + [g.cell(x), n >= 0, n + 1 <= reached(c), within(n), succ(x, n), REACH(x, n + 1)], And(mem(d, x), val(d, x) <= n + 1)),
        ('a collected cell is reached in as many steps (no steps)', [], post + [g.cell(x), zero(x), mem(S, x)], REACH(x, 0)),
        ('a collected cell is reached in as many steps (one more step)', [],
         post + [g.cell(x), n >= 0, back(n), succ(x, n), mem(d, x), val(d, x) == n + 1], REACH(x, n + 1)),
        ('nothing left: every reachable cell is collected', [],
         post + [exhausted(c), g.cell(x), n >= 0, inside(n), succ(x, n), REACH(x, n + 1)], mem(d, x))])


PROPERTY_LEMMAS = {'C09': [ball_lemma()]}
