"""Contracts of ARComputer.h: features of a growing coarse cell and the aspect ratios."""
import z3
from z3 import And, Or, Not, Implies, ForAll, Exists, If, Select, Store, Int, Ints, IntVal, MultiPattern, K
from vf.contract import Contract, Loop
from vf.types import get
from vf import types as T
from vf.proofs import Lemma
from vf.stl import sum_fn, LOWEST
from vf.exec import _mul, _div, _sqrt, Obj
from .util import ln, at
from .graph import G, mem, cells_of, CNT, CNT_AX, ASET, AINT, AREAL, IS, SQD, SQD_AX, FLOAT_AX, DISTANCE

T.VALUE_CLASSES.add('CellFeatures')
CLASSES = ('CellFeatures',)

RS = z3.RealSort()
VREAL = T.sort_of(T.parse('std::vector<double>'))
ACEN = z3.ArraySort(IS, VREAL)
i, j, k, l, u, v, w, x, t = Ints('i j k l u v w x t')
EMPTY = K(IS, z3.BoolVal(False))
S_, T_ = z3.Consts('S T', ASET)
r_, c_ = z3.Consts('r c', AINT)
w_, vol_ = z3.Consts('w vol', AREAL)
bnd_ = z3.Const('bnd', AINT)
cen_ = z3.Const('cen', ACEN)
lo_, hi_ = Ints('lo hi')
SUM = sum_fn(RS)
TINY, HUGE = z3.RealVal('1/%d' % 2 ** 1022), -LOWEST

# weight of the entries of a row that lie in a set
WS = z3.Function('wsum', ASET, AINT, AREAL, IS, IS, RS)
WS_AX = [ForAll([S_, c_, w_, lo_, hi_], Implies(hi_ <= lo_, WS(S_, c_, w_, lo_, hi_) == 0), patterns=[WS(S_, c_, w_, lo_, hi_)]),
         ForAll([S_, c_, w_, lo_, hi_], Implies(lo_ < hi_, WS(S_, c_, w_, lo_, hi_) == WS(S_, c_, w_, lo_, hi_ - 1) + If(Select(S_, Select(c_, hi_ - 1)), Select(w_, hi_ - 1), z3.RealVal(0))),
                patterns=[WS(S_, c_, w_, lo_, hi_)])]

# sums over finite sets: what they are for the empty set and for one cell more
VSUM = z3.Function('volume_of', AREAL, ASET, RS)
DEG = z3.Function('degree_of', AINT, AINT, ASET, ASET, IS)             # entries of rows of T that lie in S
WDEG = z3.Function('wdegree_of', AINT, AINT, AREAL, ASET, ASET, RS)    # their weights
TW = z3.Function('total_weight', AINT, AREAL, AINT, IS, RS)
TOTW = z3.Function('total_weight_of', AINT, AREAL, AINT, ASET, RS)
CSUM = z3.Function('centre_sum_of', AREAL, ACEN, IS, ASET, RS)


def plus(S, x):
    return Store(S, x, z3.BoolVal(True))


def one(x):
    return plus(EMPTY, x)


def _set_sum(vs, F, term):
    return [ForAll(vs, F(EMPTY) == 0, patterns=[F(EMPTY)]),
            ForAll(vs + [T_, x], Implies(Not(Select(T_, x)), F(plus(T_, x)) == F(T_) + term(x)), patterns=[F(plus(T_, x))])]


def _cntrow(S, r, c, x):
    return CNT(S, c, Select(r, x), Select(r, x + 1))


def _wrow(S, r, c, w, x):
    return WS(S, c, w, Select(r, x), Select(r, x + 1))


def _tw(r, w, bnd, x):
    s = SUM(w, Select(r, x), Select(r, x + 1))
    n = Select(r, x + 1) - Select(r, x)
    return s + If(Select(bnd, x) == 0, z3.RealVal(0), _div(_mul(z3.ToReal(Select(bnd, x)), s), z3.ToReal(n)))


VSUM_AX = _set_sum([vol_], lambda S: VSUM(vol_, S), lambda y: Select(vol_, y))
DEG_AX = _set_sum([r_, c_, S_], lambda T: DEG(r_, c_, S_, T), lambda y: _cntrow(S_, r_, c_, y))
WDEG_AX = _set_sum([r_, c_, w_, S_], lambda T: WDEG(r_, c_, w_, S_, T), lambda y: _wrow(S_, r_, c_, w_, y))
TOTW_AX = _set_sum([r_, w_, bnd_], lambda T: TOTW(r_, w_, bnd_, T), lambda y: TW(r_, w_, bnd_, y))
TW_AX = [ForAll([r_, w_, bnd_, x], TW(r_, w_, bnd_, x) == _tw(r_, w_, bnd_, x), patterns=[TW(r_, w_, bnd_, x)])]
CSUM_AX = _set_sum([vol_, cen_, t], lambda T: CSUM(vol_, cen_, t, T), lambda y: _mul(Select(vol_, y), Select(get(Select(cen_, y), 'arr'), t)))
a_, b_ = z3.Reals('a b')
MUL_AX = [ForAll([a_, b_], _mul(a_, b_) == _mul(b_, a_), patterns=[_mul(a_, b_)])]
NEG_AX = [ForAll([a_, b_], _mul(a_ - b_, a_ - b_) == _mul(b_ - a_, b_ - a_), patterns=[_mul(a_ - b_, a_ - b_)])]

# ---------------------------------------------------------------- lemmas
ADD_ONE = Lemma('one more cell adds its own entries', ForAll([S_, x, c_, lo_, hi_], Implies(Not(Select(S_, x)), CNT(plus(S_, x), c_, lo_, hi_) == CNT(S_, c_, lo_, hi_) + CNT(one(x), c_, lo_, hi_)),
                                                            patterns=[CNT(plus(S_, x), c_, lo_, hi_)]), [
    ('empty range', CNT_AX, [hi_ <= lo_], CNT(plus(S_, x), c_, lo_, hi_) == CNT(S_, c_, lo_, hi_) + CNT(one(x), c_, lo_, hi_)),
    ('one more', CNT_AX, [hi_ >= lo_, Not(Select(S_, x)), CNT(plus(S_, x), c_, lo_, hi_) == CNT(S_, c_, lo_, hi_) + CNT(one(x), c_, lo_, hi_)],
     CNT(plus(S_, x), c_, lo_, hi_ + 1) == CNT(S_, c_, lo_, hi_ + 1) + CNT(one(x), c_, lo_, hi_ + 1))])
WADD_ONE = Lemma('one more cell adds the weights of its own entries', ForAll([S_, x, c_, w_, lo_, hi_], Implies(Not(Select(S_, x)), WS(plus(S_, x), c_, w_, lo_, hi_) == WS(S_, c_, w_, lo_, hi_) + WS(one(x), c_, w_, lo_, hi_)),
                                                                             patterns=[WS(plus(S_, x), c_, w_, lo_, hi_)]), [
    ('empty range', WS_AX, [hi_ <= lo_], WS(plus(S_, x), c_, w_, lo_, hi_) == WS(S_, c_, w_, lo_, hi_) + WS(one(x), c_, w_, lo_, hi_)),
    ('one more', WS_AX, [hi_ >= lo_, Not(Select(S_, x)), WS(plus(S_, x), c_, w_, lo_, hi_) == WS(S_, c_, w_, lo_, hi_) + WS(one(x), c_, w_, lo_, hi_)],
     WS(plus(S_, x), c_, w_, lo_, hi_ + 1) == WS(S_, c_, w_, lo_, hi_ + 1) + WS(one(x), c_, w_, lo_, hi_ + 1))])


def _none(F, c, lo, hi, zero):
    return Implies(ForAll([i], Implies(And(lo <= i, i < hi), Not(Select(S_, Select(c, i)))), patterns=[Select(c, i)]), F == zero)


COUNT_EMPTY = Lemma('nothing in the empty set', And(ForAll([c_, lo_, hi_], CNT(EMPTY, c_, lo_, hi_) == 0, patterns=[CNT(EMPTY, c_, lo_, hi_)]),
                                                   ForAll([c_, w_, lo_, hi_], WS(EMPTY, c_, w_, lo_, hi_) == 0, patterns=[WS(EMPTY, c_, w_, lo_, hi_)])), [
    ('empty range', CNT_AX + WS_AX, [hi_ <= lo_], And(CNT(EMPTY, c_, lo_, hi_) == 0, WS(EMPTY, c_, w_, lo_, hi_) == 0)),
    ('one more', CNT_AX + WS_AX, [hi_ >= lo_, CNT(EMPTY, c_, lo_, hi_) == 0, WS(EMPTY, c_, w_, lo_, hi_) == 0], And(CNT(EMPTY, c_, lo_, hi_ + 1) == 0, WS(EMPTY, c_, w_, lo_, hi_ + 1) == 0))])


def _absent(c, lo, hi, x):
    return ForAll([i], Implies(And(lo <= i, i < hi), Select(c, i) != x), patterns=[Select(c, i)])


ABSENT = Lemma('a cell that is not listed has no entries', And(
    ForAll([x, c_, lo_, hi_], Implies(_absent(c_, lo_, hi_, x), CNT(one(x), c_, lo_, hi_) == 0), patterns=[CNT(one(x), c_, lo_, hi_)]),
    ForAll([x, c_, w_, lo_, hi_], Implies(_absent(c_, lo_, hi_, x), WS(one(x), c_, w_, lo_, hi_) == 0), patterns=[WS(one(x), c_, w_, lo_, hi_)])), [
    ('empty range', CNT_AX + WS_AX, [hi_ <= lo_], And(CNT(one(x), c_, lo_, hi_) == 0, WS(one(x), c_, w_, lo_, hi_) == 0)),
    ('one more', CNT_AX + WS_AX, [hi_ >= lo_, _absent(c_, lo_, hi_ + 1, x), Implies(_absent(c_, lo_, hi_, x), And(CNT(one(x), c_, lo_, hi_) == 0, WS(one(x), c_, w_, lo_, hi_) == 0))],
     And(CNT(one(x), c_, lo_, hi_ + 1) == 0, WS(one(x), c_, w_, lo_, hi_ + 1) == 0))])

PRESENT = Lemma('a cell listed once has one entry',
    ForAll([x, c_, lo_, hi_, k], Implies(And(lo_ <= k, k < hi_, Select(c_, k) == x, ForAll([i], Implies(And(lo_ <= i, i < hi_, i != k), Select(c_, i) != x), patterns=[Select(c_, i)])),
                                         CNT(one(x), c_, lo_, hi_) == 1), patterns=[MultiPattern(CNT(one(x), c_, lo_, hi_), Select(c_, k))]), [
    ('last entry', CNT_AX + [ABSENT.statement], [lo_ <= k, Select(c_, k) == x, _absent(c_, lo_, k, x)], CNT(one(x), c_, lo_, k + 1) == 1),
    ('one more', CNT_AX, [lo_ <= k, k < hi_, Select(c_, hi_) != x, CNT(one(x), c_, lo_, hi_) == 1], CNT(one(x), c_, lo_, hi_ + 1) == 1)])

# entries are symmetric: two cells list each other equally often and with the same weight
ESYM = z3.Function('entries_symmetric', AINT, AINT, IS, z3.BoolSort())
WSYM = z3.Function('weights_symmetric', AINT, AINT, AREAL, IS, z3.BoolSort())
n_ = Int('n')


def _esym(r, c, n):
    return ForAll([u, v], Implies(And(0 <= u, u < n, 0 <= v, v < n), _cntrow(one(v), r, c, u) == _cntrow(one(u), r, c, v)),
                  patterns=[_cntrow(one(v), r, c, u)])


def _wsym(r, c, w, n):
    return ForAll([u, v], Implies(And(0 <= u, u < n, 0 <= v, v < n), _wrow(one(v), r, c, w, u) == _wrow(one(u), r, c, w, v)),
                  patterns=[_wrow(one(v), r, c, w, u)])


ESYM_AX = [ForAll([r_, c_, n_], ESYM(r_, c_, n_) == _esym(r_, c_, n_), patterns=[ESYM(r_, c_, n_)])]
WSYM_AX = [ForAll([r_, c_, w_, n_], WSYM(r_, c_, w_, n_) == _wsym(r_, c_, w_, n_), patterns=[WSYM(r_, c_, w_, n_)])]


def _within(S, n):
    return ForAll([u], Implies(Select(S, u), And(0 <= u, u < n)), patterns=[Select(S, u)])


def _dg(S, x, T):
    return DEG(r_, c_, plus(S, x), T) == DEG(r_, c_, S, T) + _cntrow(T, r_, c_, x)


def _wdg(S, x, T):
    return WDEG(r_, c_, w_, plus(S, x), T) == WDEG(r_, c_, w_, S, T) + _wrow(T, r_, c_, w_, x)


_hyp = [0 <= x, x < n_, Not(Select(S_, x))]
DEGREE = Lemma('entries gained by the rows of a set (induction over finite sets)',
    ForAll([r_, c_, n_, S_, T_, x], Implies(And(ESYM(r_, c_, n_), 0 <= x, x < n_, Not(Select(S_, x)), _within(T_, n_)), _dg(S_, x, T_)),
           patterns=[MultiPattern(ESYM(r_, c_, n_), DEG(r_, c_, plus(S_, x), T_))]), [
    ('empty set', DEG_AX + [COUNT_EMPTY.statement], _hyp, _dg(S_, x, EMPTY)),
    ('one cell more', DEG_AX + [ADD_ONE.statement], _hyp + [_esym(r_, c_, n_), 0 <= u, u < n_, Not(Select(T_, u)), _dg(S_, x, T_)], _dg(S_, x, plus(T_, u)))])
WDEGREE = Lemma('weights gained by the rows of a set (induction over finite sets)',
    ForAll([r_, c_, w_, n_, S_, T_, x], Implies(And(WSYM(r_, c_, w_, n_), 0 <= x, x < n_, Not(Select(S_, x)), _within(T_, n_)), _wdg(S_, x, T_)),
           patterns=[MultiPattern(WSYM(r_, c_, w_, n_), WDEG(r_, c_, w_, plus(S_, x), T_))]), [
    ('empty set', WDEG_AX + [COUNT_EMPTY.statement], _hyp, _wdg(S_, x, EMPTY)),
    ('one cell more', WDEG_AX + [WADD_ONE.statement], _hyp + [_wsym(r_, c_, w_, n_), 0 <= u, u < n_, Not(Select(T_, u)), _wdg(S_, x, T_)], _wdg(S_, x, plus(T_, u)))])

p_, q_ = z3.Consts('p q', AREAL)
SQD_SYM = Lemma('distances are symmetric', ForAll([p_, q_, n_], SQD(p_, q_, n_) == SQD(q_, p_, n_), patterns=[SQD(p_, q_, n_)]), [
    ('no coordinate', SQD_AX, [], SQD(p_, q_, 0) == SQD(q_, p_, 0)),
    ('one more', SQD_AX + NEG_AX, [n_ >= 0, SQD(p_, q_, n_) == SQD(q_, p_, n_)], SQD(p_, q_, n_ + 1) == SQD(q_, p_, n_ + 1))])

# ------------------------------------------------------- the mesh and features
ROWPOS = z3.Function('row_position', AINT, AINT, IS, IS, IS)    # where a row lists a neighbour


class Mesh(G):
    def __init__(self, c, graph=None):
        obj = graph if graph is not None else Obj(c.f('_graph', cls='ARComputer'), 'Dual_Graph')
        super().__init__(c, obj)
        self.centers = c.f('_centers', obj=obj, cls='Dual_Graph')
        self.bnd = c.f('_n_bnd_faces', obj=obj, cls='Dual_Graph')
        self.r, self.c, self.w, self.va = (get(y, 'arr') for y in (self.row, self.col, self.val, self.vol))
        self.b, self.cen = get(self.bnd, 'arr'), get(self.centers, 'arr')

    def dim(self):
        return ln(at(self.centers, 0))

    def distinct(self):
        return ForAll([u, k], Implies(And(self.cell(u), self.inrow(u, k)), ROWPOS(self.r, self.c, u, at(self.col, k)) == k),
                      patterns=[MultiPattern(at(self.row, u), at(self.col, k))])

    def geometry(self):
        return And(ln(self.bnd) == self.n, ln(self.centers) == self.n, self.dim() > 0,
                   ForAll([u], Implies(self.cell(u), ln(at(self.centers, u)) == self.dim()), patterns=[at(self.centers, u)]))

    def dist(self, a, b):
        return SQD(get(at(self.centers, a), 'arr'), get(at(self.centers, b), 'arr'), self.dim())

    def total(self, a):
        return TW(self.r, self.w, self.b, a)


# parts of the features that can be right for a set S of cells
def p_measure(g, f, S):
    return get(f, '_measure') == VSUM(g.va, S)


def p_internal(g, f, S):
    return 2 * get(f, '_n_internal_faces') == DEG(g.r, g.c, S, S)


def p_weights(g, f, S):
    d = WDEG(g.r, g.c, g.w, S, S)
    return And(2 * get(f, '_internal_weights') == d, get(f, '_external_weights') == TOTW(g.r, g.w, g.b, S) - d)


def p_extremes(g, f, S):
    D, E = get(f, '_sq_diam'), get(f, '_sq_min_edge')
    other = lambda a, b: And(Select(S, a), Select(S, b), a != b)
    return And(D >= TINY, E <= HUGE,
               ForAll([u, v], Implies(other(u, v), And(D >= g.dist(u, v), E <= g.dist(u, v))), patterns=[g.dist(u, v)]),
               Or(D == TINY, Exists([u, v], And(other(u, v), D == g.dist(u, v)))),
               Or(E == HUGE, Exists([u, v], And(other(u, v), E == g.dist(u, v)))))


def p_centres(g, f, S):
    s = get(f, '_sum_centers')
    return And(ln(s) == g.dim(), ForAll([t], Implies(And(0 <= t, t < g.dim()), at(s, t) == CSUM(g.va, g.cen, t, S)), patterns=[at(s, t)]))


def p_facets(g, f, S):
    e = get(f, '_external_facets')
    return And(ForAll([u], mem(e, u) == Select(S, u), patterns=[mem(e, u)]),
               ForAll([u], Implies(Select(S, u), Select(get(e, 'val'), u) == at(g.bnd, u) + g.hi(u) - g.lo(u) - _cntrow(S, g.r, g.c, u)), patterns=[Select(get(e, 'val'), u)]))


ALL_PARTS = [('measure', p_measure), ('internal faces', p_internal), ('weights', p_weights), ('extreme distances', p_extremes), ('sum of centres', p_centres), ('external facets', p_facets)]
PART = dict(ALL_PARTS)


def S0(c, n=2):
    return get(c.o(n), 'mem')


def S1(c):
    return plus(S0(c), c.o(0))


GRAPH = [('there is a graph', lambda c: c.f('_graph', cls='ARComputer') != 0), ('the graph is well formed', lambda c: Mesh(c).valid()), ('no self loops', lambda c: Mesh(c).noloops()),
         ('every neighbour is listed once', lambda c: Mesh(c).distinct()), ('centres of one dimension', lambda c: Mesh(c).geometry()),
         ('entries are symmetric', lambda c: And(ESYM(Mesh(c).r, Mesh(c).c, Mesh(c).n), WSYM(Mesh(c).r, Mesh(c).c, Mesh(c).w, Mesh(c).n))),
         ('the cell exists', lambda c: Mesh(c).cell(c.a(0))), ]
SETS = [('cells of the set exist', lambda c: cells_of(Mesh(c), c.a(2))), ('the set is not empty', lambda c: get(c.a(2), 'card') > 0),
        ('the cell is not in the set', lambda c: Not(mem(c.a(2), c.a(0))))]

SUMS = CNT_AX + WS_AX

# ------------------------------------------------------------ the helpers


def _shared(c, upto):
    g, S, o = Mesh(c), c.arg(1), c.arg(3)
    a = c.arg(0)
    return And(get(o, 'card') == CNT(get(S, 'mem'), g.c, g.lo(a), upto),
               ForAll([u], Implies(mem(o, u), And(mem(S, u), u != a, g.lo(a) <= ROWPOS(g.r, g.c, a, u), ROWPOS(g.r, g.c, a, u) < upto,
                                                 at(g.col, ROWPOS(g.r, g.c, a, u)) == u)), patterns=[mem(o, u)]),
               ForAll([k], Implies(And(g.lo(a) <= k, k < upto, mem(S, at(g.col, k))), mem(o, at(g.col, k))), patterns=[at(g.col, k)]))


SHARED = Contract(
    'ARComputer::compute_shared_faces', props=('C12', 'C18'),
    requires=GRAPH[:4] + [GRAPH[6], ('nothing collected yet', lambda c: get(c.a(3), 'card') == 0)],
    ensures=[('weight shared with the set', lambda c: c.a(2) == _wrow(get(c.a(1), 'mem'), Mesh(c).r, Mesh(c).c, Mesh(c).w, c.a(0))),
             ('neighbours in the set', lambda c: _shared(c, Mesh(c).hi(c.a(0))))],
    modifies=[2, 3], axioms=SUMS,
    loops={0: Loop([('weight so far', lambda c: c.arg(2) == WS(get(c.arg(1), 'mem'), Mesh(c).c, Mesh(c).w, Mesh(c).lo(c.arg(0)), c.pos('n_it'))),
                    ('collected so far', lambda c: _shared(c, c.pos('n_it'))),
                    ('both iterators at one entry', lambda c: And(c.pos('n_it') == c.pos('w_it'), Mesh(c).lo(c.arg(0)) <= c.pos('n_it'), c.pos('n_it') <= Mesh(c).hi(c.arg(0))))])})

TOTAL = Contract(
    'Dual_Graph::estimated_total_weight', props=('C12',),
    requires=[('the graph is well formed', lambda c: Mesh(c, c.this).valid()), ('boundary data', lambda c: ln(Mesh(c, c.this).bnd) == Mesh(c, c.this).n),
              ('the cell exists', lambda c: Mesh(c, c.this).cell(c.a(0)))],
    ensures=[('weights of the row and of the boundary', lambda c: c.ret == TW(Mesh(c, c.this).r, Mesh(c, c.this).w, Mesh(c, c.this).b, c.a(0)))],
    axioms=TW_AX + MUL_AX)



def _seen(c):
    it = c.counter_value()
    return lambda y: And(mem(c.arg(2), y), it.enum.pos(y) < it.pos)


def _reach(g, seen, a, D, E, D0, E0):
    return And(D >= D0, E <= E0,
               ForAll([u], Implies(seen(u), And(D >= g.dist(a, u), E <= g.dist(a, u))), patterns=[g.dist(a, u)]),
               Or(D == D0, Exists([u], And(seen(u), D == g.dist(a, u)))),
               Or(E == E0, Exists([u], And(seen(u), E == g.dist(a, u)))))


def _old(c, n, f):
    return get(c.o(n), f)


def only(c, fields):
    """no other field of the new features changes"""
    a, b = c.a(3), c.o(3)
    return And([get(a, f) == get(b, f) for f in T.fields_of(a.sort()) if f not in fields])


EXTREMES = Contract(
    'ARComputer::update_approximated_geometric_features', props=('C12', 'C18'),
    requires=GRAPH[:2] + [GRAPH[4], GRAPH[6], SETS[0]],
    ensures=[('extremes of the old ones and the distances to the new cell', lambda c: _reach(Mesh(c), lambda y: mem(c.a(2), y), c.a(0), get(c.a(3), '_sq_diam'), get(c.a(3), '_sq_min_edge'), _old(c, 1, '_sq_diam'), _old(c, 1, '_sq_min_edge'))),
             ('nothing else changes', lambda c: only(c, ('_sq_diam', '_sq_min_edge')))],
    modifies=[3], axioms=[],
    loops={0: Loop([('extremes so far', lambda c: _reach(Mesh(c), _seen(c), c.arg(0), c.v('max_diam', 'double'), c.v('min_edge', 'double', 1), _old(c, 1, '_sq_diam'), _old(c, 1, '_sq_min_edge')))])})


def _bary(c, b, s, upto, old):
    g = Mesh(c)
    N = _div(z3.RealVal(1), z3.ToReal(get(c.arg(2), 'card') + 1))
    term = lambda y: at(old, y) + _mul(at(g.vol, c.arg(0)), at(at(g.centers, c.arg(0)), y))
    return And(ln(b) == g.dim(), ln(s) == ln(old),
               ForAll([t], Implies(And(0 <= t, t < g.dim()), at(s, t) == If(t < upto, term(t), at(old, t))), patterns=[at(s, t)]),
               ForAll([t], Implies(And(0 <= t, t < upto), at(b, t) == _mul(at(s, t), N)), patterns=[at(b, t)]))


BARYCENTRE = Contract(
    'ARComputer::compute_and_update_barycenter', props=('C12', 'C18'),
    requires=GRAPH[:2] + [GRAPH[4], GRAPH[6], ('sum of as many coordinates', lambda c: ln(get(c.a(1), '_sum_centers')) == Mesh(c).dim())],
    ensures=[('sum with the new cell, and the mean', lambda c: _bary(c, c.ret, get(c.a(3), '_sum_centers'), Mesh(c).dim(), _old(c, 1, '_sum_centers'))),
             ('nothing else changes', lambda c: only(c, ('_sum_centers',)))],
    modifies=[3], axioms=MUL_AX,
    loops={0: Loop([('coordinates so far', lambda c: _bary(c, c.v('bary', 'std::vector<double>'), get(c.arg(3), '_sum_centers'), c.k, _old(c, 1, '_sum_centers'))),
                    ('in range', lambda c: c.k <= Mesh(c).dim()), ('nothing else changes', lambda c: only(c, ('_sum_centers',)))])})


# ------------------------------------------------------- the computers
BARY = z3.Function('barycentre', AREAL, ACEN, ASET, IS, AREAL)
m_ = Int('m')
BARY_AX = [ForAll([vol_, cen_, S_, m_, t], Select(BARY(vol_, cen_, S_, m_), t) == _mul(CSUM(vol_, cen_, t, S_), _div(z3.RealVal(1), z3.ToReal(m_))), patterns=[Select(BARY(vol_, cen_, S_, m_), t)])]


def _agree(p, q, n):
    return ForAll([t], Implies(And(0 <= t, t < n), Select(p, t) == Select(q, t)), patterns=[Select(p, t)])


SQD_AGREE = Lemma('distances only depend on the coordinates',
    ForAll([p_, q_, w_, n_], Implies(_agree(p_, q_, n_), SQD(p_, w_, n_) == SQD(q_, w_, n_)), patterns=[MultiPattern(SQD(p_, w_, n_), SQD(q_, w_, n_))]), [
    ('no coordinate', SQD_AX, [], SQD(p_, w_, 0) == SQD(q_, w_, 0)),
    ('one more', SQD_AX, [n_ >= 0, _agree(p_, q_, n_ + 1), Implies(_agree(p_, q_, n_), SQD(p_, w_, n_) == SQD(q_, w_, n_))], SQD(p_, w_, n_ + 1) == SQD(q_, w_, n_ + 1))])


def sq(y):
    return _mul(y, y)


def cb(y):
    return _mul(_mul(y, y), y)


def bary_dist(c, y):
    g = Mesh(c)
    return SQD(BARY(g.va, g.cen, S1(c), get(c.o(2), 'card') + 1), get(at(g.centers, y), 'arr'), g.dim())


def over_radius(dim, y, f):
    M = get(f, '_measure')
    return {1: lambda: _div(_sqrt(y), M), 2: lambda: _div(y, M), 3: lambda: _div(cb(y), sq(M))}[dim]()


def over_radius_weight(dim, y, f):
    M = get(f, '_measure')
    return {1: lambda: _div(y, M), 2: lambda: _div(sq(y), M), 3: lambda: _div(cb(y), sq(M))}[dim]()


def dim_of(n):
    def ok(ex, fn):
        a = [b.get('value') for b in (fn.get('_rec') or {}).get('inner', []) if b.get('kind') == 'TemplateArgument' and 'value' in b]
        return a == [n]
    return ok


# the features are right for a set, as far as the class of the computer keeps them
REC = {}


def RIGHT(c, f, S):
    """Stands for the parts of PARTS of the class of the computer."""
    g = Mesh(c)
    if 'fn' not in REC:
        REC['fn'] = z3.Function('features_right', IS, AINT, AINT, AREAL, AREAL, AINT, ACEN, f.sort(), ASET, z3.BoolSort())
    return REC['fn'](c.this.ref, g.r, g.c, g.w, g.va, g.b, g.cen, f, S)


COMMON = [('shared faces counted', lambda c: c.a(3) == Mesh(c).inner(c.o(2), c.o(0)))]
BASE = Contract(
    'ARComputer::compute_and_update_features', props=('C12',), abstract=True,
    requires=GRAPH + SETS + [('abstract: features of the set', lambda c: RIGHT(c, c.a(1), get(c.a(2), 'mem')))],
    ensures=COMMON + [('abstract: features of the set with the cell', lambda c: RIGHT(c, c.a(5), S1(c)))],
    modifies=[3, 4, 5])


def _entry(c, n):
    return c.ex.rv(c.at_entry, c.ex.cur.args[n])


def _facets_loop(c):
    sh = c.v('shared_faces', 'std::unordered_set<unsigned long>')
    it = c.counter_value()
    a = _old(c, 1, '_external_facets')
    f = get(c.arg(5), '_external_facets')
    ent = _entry(c, 5)
    return And(ForAll([u], And(mem(f, u) == mem(a, u)), patterns=[mem(f, u)]), get(f, 'card') == get(a, 'card'),
               ForAll([u], Implies(mem(a, u), Select(get(f, 'val'), u) == Select(get(a, 'val'), u) - If(And(mem(sh, u), it.enum.pos(u) < it.pos), 1, 0)), patterns=[Select(get(f, 'val'), u)]),
               And([get(c.arg(5), n) == get(ent, n) for n in T.fields_of(ent.sort()) if n != '_external_facets']))


def _max_loop(c):
    g = Mesh(c)
    b, M, it = c.v('bary', 'std::vector<double>'), c.v('max_dist', 'double', 1), c.counter_value()
    d = lambda y: bary_dist(c, y)
    seen = lambda y: Or(y == c.arg(0), And(mem(c.arg(2), y), it.enum.pos(y) < it.pos))
    return And(ForAll([u], Implies(seen(u), M >= d(u)), patterns=[d(u)]), Exists([u], And(seen(u), M == d(u))))


def _named_dist(c):
    g, b = Mesh(c), c.v('bary', 'std::vector<double>')
    d = lambda y: SQD(get(b, 'arr'), get(at(g.centers, y), 'arr'), g.dim())
    return ForAll([u], Implies(g.cell(u), d(u) == bary_dist(c, u)), patterns=[d(u)])


def counted(c, f, y):
    tol = c.f('_tolerance', cls='ARMaxOverMinBaryDistance')
    return lambda dist: And(Select(get(get(f, '_external_facets'), 'val'), y) > 0, _sqrt(dist) > tol)


def _spread(M, m, seen, d, ok):
    return And(ForAll([u], Implies(And(seen(u), ok(u)(d(u))), And(M >= _sqrt(d(u)), m <= _sqrt(d(u)))), patterns=[d(u)]),
               Or(M == TINY, Exists([u], And(seen(u), ok(u)(d(u)), M == _sqrt(d(u))))),
               Or(m == HUGE, Exists([u], And(seen(u), ok(u)(d(u)), m == _sqrt(d(u))))))


def _spread_loop(c):
    g = Mesh(c)
    b, it = c.v('bary', 'std::vector<double>'), c.counter_value()
    d = lambda y: bary_dist(c, y)
    seen = lambda y: Or(y == c.arg(0), And(mem(c.arg(2), y), it.enum.pos(y) < it.pos))
    return _spread(c.v('max_dist', 'double', 2), c.v('min_dist', 'double', 1), seen, d, lambda y: counted(c, c.arg(5), y))


def same_features(c):
    return c.arg(5) == _entry(c, 5)


X, Y = z3.Reals('X Y')


def ar_max_bary(dim):
    def f(c):
        M = over_radius(dim, X, c.a(5))
        return Exists([X], And(c.a(4) == M, ForAll([u], Implies(Select(S1(c), u), X >= bary_dist(c, u)), patterns=[bary_dist(c, u)]),
                               Exists([u], And(Select(S1(c), u), X == bary_dist(c, u)))), patterns=[_div(X, get(c.a(5), '_measure')) if dim == 2 else cb(X)])
    return f


def note_spread(c):
    c.st.ghost['spread'] = (c.v('max_dist', 'double', 2), c.v('min_dist', 'double', 1))


def ar_spread(c):
    if not c.caller and 'spread' in c.st.ghost:     # the witnesses of the existential
        M, m = c.st.ghost['spread']
        return And(c.a(4) == _div(M, m), _spread(M, m, lambda y: Select(S1(c), y), lambda y: bary_dist(c, y), lambda y: counted(c, c.a(5), y)))
    return Exists([X, Y], And(c.a(4) == _div(X, Y), _spread(X, Y, lambda y: Select(S1(c), y), lambda y: bary_dist(c, y), lambda y: counted(c, c.a(5), y))), patterns=[_div(X, Y)])


LEM = {'measure': [], 'internal faces': [ADD_ONE, ABSENT, DEGREE], 'weights': [WADD_ONE, ABSENT, WDEGREE], 'extreme distances': [SQD_SYM], 'sum of centres': [],
       'external facets': [ADD_ONE, ABSENT, PRESENT]}
AX = {'measure': VSUM_AX, 'internal faces': DEG_AX + CNT_AX, 'weights': WDEG_AX + TOTW_AX + WS_AX, 'extreme distances': [], 'sum of centres': CSUM_AX, 'external facets': ESYM_AX}


def computer(cls, parts, ratio, accepts=None, loops=None, axioms=(), lemmas=()):
    parts = ['measure', 'internal faces'] + parts
    ls = []
    for q in parts:
        ls += [y for y in LEM[q] if y not in ls]
    return Contract(
        cls + '::compute_and_update_features', props=('C12', 'C18'), accepts=accepts,
        requires=GRAPH + SETS + [('abstract: right before: ' + q, lambda c, q=q: PART[q](Mesh(c), c.a(1), get(c.a(2), 'mem'))) for q in parts],
        ensures=COMMON + [('abstract: right after: ' + q, lambda c, q=q: PART[q](Mesh(c), c.a(5), S1(c))) for q in parts] + [('the aspect ratio', ratio)],
        modifies=[3, 4, 5], axioms=[y for q in parts for y in AX[q]] + MUL_AX + list(axioms), lemmas=ls + list(lemmas), loops=loops)


def F(c, n):
    return get(c.a(5), n)


COMPUTERS = [
    computer('ARDiamOverRadius', ['extreme distances'], lambda c: c.a(4) == over_radius(2, F(c, '_sq_diam'), c.a(5)), dim_of(2)),
    computer('ARDiamOverRadius', ['extreme distances'], lambda c: c.a(4) == over_radius(3, F(c, '_sq_diam'), c.a(5)), dim_of(3)),
    computer('AROverMeasure', [], lambda c: c.a(4) == _div(z3.RealVal(1), F(c, '_measure'))),
    computer('ARDiamOverMinEdge', ['extreme distances'], lambda c: c.a(4) == If(get(c.o(2), 'card') == 1, F(c, '_sq_diam'), _div(F(c, '_sq_diam'), F(c, '_sq_min_edge')))),
    computer('ARExternalWeightOverRadius', ['weights'], lambda c: c.a(4) == over_radius_weight(2, F(c, '_external_weights'), c.a(5)), dim_of(2)),
    computer('ARExternalWeightOverRadius', ['weights'], lambda c: c.a(4) == over_radius_weight(3, F(c, '_external_weights'), c.a(5)), dim_of(3)),
    computer('ARExternalWeightOverRadius', ['weights'], lambda c: c.a(4) == over_radius_weight(1, F(c, '_external_weights'), c.a(5)), dim_of(1)),
    computer('ARDiameter', ['extreme distances'], lambda c: c.a(4) == F(c, '_sq_diam')),
    computer('ARExternalWeights', ['weights'], lambda c: c.a(4) == F(c, '_external_weights')),
    computer('AROverInternalWeights', ['weights'], lambda c: c.a(4) == _div(z3.RealVal(1), F(c, '_internal_weights'))),
] + [computer('ARMaxBaryDistanceOverRadius', ['sum of centres'], ar_max_bary(d), dim_of(d), {0: Loop([('distances from the barycentre', _named_dist), ('farthest so far', _max_loop)])}, BARY_AX, [SQD_AGREE]) for d in (2, 3)] + [
    computer('ARMaxOverMinBaryDistance', ['sum of centres', 'external facets'], ar_spread, None,
             {0: Loop([('facets so far', _facets_loop)]), 1: Loop([('distances from the barycentre', _named_dist), ('extremes so far', _spread_loop), ('features stay', same_features)], at_exit=note_spread)}, BARY_AX, [SQD_AGREE]),
]



def _ptr_graph(c):
    return Mesh(c, Obj(c.a(1), 'Dual_Graph'))


def built(c):
    ty = T.Ty('CellFeatures', T.RECORD_ARGS['CellFeatures'])
    return T.mk(T.sort_of(ty), *[c.f(n) for n, _ in T.RECORD_FIELDS['CellFeatures']])


def _scaled(c, upto):
    g = _ptr_graph(c)
    s, a = c.f('_sum_centers'), at(g.centers, c.arg(0))
    return And(ln(s) == ln(a), ForAll([t], Implies(And(0 <= t, t < ln(a)), at(s, t) == If(t < upto, _mul(at(a, t), at(g.vol, c.arg(0))), at(a, t))), patterns=[at(s, t)]))


def _right_for_all(c):
    """every part is right, so the features are right for any computer"""
    g, f = _ptr_graph(c), built(c)
    a = lambda q: [q, g.r, g.c, g.w, g.va, g.b, g.cen, f, one(c.a(0))]
    R = z3.Function('features_right', *[y.sort() for y in a(x)], z3.BoolSort())
    c.st.assume(ForAll([x], R(*a(x)), patterns=[R(*a(x))]))


START = Contract(
    'CellFeatures::CellFeatures', props=('C12', 'C18'), accepts=lambda ex, fn: len(ex.params(fn)) == 2,
    requires=[('there is a graph', lambda c: c.a(1) != 0), ('the graph is well formed', lambda c: _ptr_graph(c).valid()), ('no self loops', lambda c: _ptr_graph(c).noloops()),
              ('centres of one dimension', lambda c: _ptr_graph(c).geometry()), ('the cell exists', lambda c: _ptr_graph(c).cell(c.a(0)))],
    ensures=[('right for one cell: ' + q, lambda c, f=f: f(_ptr_graph(c), built(c), one(c.a(0)))) for q, f in ALL_PARTS],
    modifies=['_measure', '_external_weights', '_internal_weights', '_n_internal_faces', '_sq_min_edge', '_sq_diam', '_sum_centers', '_external_facets'],
    axioms=VSUM_AX + DEG_AX + WDEG_AX + TOTW_AX + CSUM_AX + MUL_AX + CNT_AX + WS_AX, lemmas=[ABSENT],
    on_apply=_right_for_all,
    loops={0: Loop([('scaled so far', lambda c: _scaled(c, c.counter_value().pos)), ])})

CONTRACTS = [SHARED, TOTAL, EXTREMES, BARYCENTRE, START, BASE] + COMPUTERS
