"""Contracts of the construction of anisotropic lines (Agglomerator.h, Util.h)."""
import z3
from z3 import And, Or, Not, Implies, ForAll, Exists, If, Select, Store, Int, Ints, IntVal, MultiPattern
from vf.contract import Contract, Loop
from vf.exec import Obj
from vf import types as T
from vf.types import get, parse, sort_of
from vf.proofs import Lemma
from .util import ln, at
from .graph import mem, cells_of, SQD, SQD_AX, FLOAT_AX, AREAL, AINT, ASET, IS, ROWMAX, ROWMIN, ARF, LOWEST, row_extremes, _mul, _div, _sqrt, same_dim
from .neigh import lo, hi, size
from .grow import AGG, MESH, mesh, THE, SHARES
from .features import one, ESYM_AX, _cntrow, ROWPOS, SQD_SYM, NEG_AX, MUL_AX, a_ as ra_, b_ as rb_
from .coarse import CNT_POS
from .container import MARKS, CT, CT_AX, CT_BOUND, F
from .iso import hint
from .aniso import Lines, N, DEQ, NEXT, cells_free

i, j, k, t, u, v, x, n = Ints('i j k t u v x n')
RS, BS = z3.RealSort(), z3.BoolSort()
p_, q_, w_ = z3.Consts('rp rq rw', AREAL)
HIGH, STRAIGHT_MIN = z3.RealVal('0.9'), z3.RealVal('0.9396926207859084')

# -------------------------------------------------------------- directions
DIR = z3.Function('unit_direction', AREAL, AREAL, IS, AREAL)     # from the first point to the second, n coordinates
DOT = z3.Function('dot', AREAL, AREAL, IS, RS)
DIR_AX = [ForAll([p_, q_, n, i], Select(DIR(p_, q_, n), i) == _mul(Select(q_, i) - Select(p_, i), _div(z3.RealVal(1), _sqrt(SQD(q_, p_, n)))), patterns=[Select(DIR(p_, q_, n), i)])]
DOT_AX = [ForAll([p_, q_], DOT(p_, q_, 0) == 0, patterns=[DOT(p_, q_, 0)]),
          ForAll([p_, q_, n], Implies(n > 0, DOT(p_, q_, n) == DOT(p_, q_, n - 1) + _mul(Select(p_, n - 1), Select(q_, n - 1))), patterns=[DOT(p_, q_, n)])]


def agree(a, b, m):
    return ForAll([i], Implies(And(0 <= i, i < m), Select(a, i) == Select(b, i)), patterns=[Select(a, i), Select(b, i)])


def _dots(p, w, q, m):
    return Implies(And(agree(p, q, m)), And(DOT(p, w, m) == DOT(q, w, m), DOT(w, p, m) == DOT(w, q, m)))


DOT_AGREE = Lemma('dot products only depend on the coordinates',
    ForAll([p_, q_, w_, n], Implies(n >= 0, _dots(p_, w_, q_, n)), patterns=[MultiPattern(DOT(p_, w_, n), DOT(q_, w_, n)), MultiPattern(DOT(w_, p_, n), DOT(w_, q_, n))]), [
    ('no coordinate', DOT_AX, [], _dots(p_, w_, q_, IntVal(0))),
    ('one more', DOT_AX, [n >= 0, agree(p_, q_, n + 1), _dots(p_, w_, q_, n)], And(DOT(p_, w_, n + 1) == DOT(q_, w_, n + 1), DOT(w_, p_, n + 1) == DOT(w_, q_, n + 1)))])
MINUS_AX = [ForAll([ra_, rb_], _mul(-ra_, rb_) == -_mul(ra_, rb_), patterns=[_mul(-ra_, rb_)])]
_x, _y, _f = z3.Reals('nx ny nf')
OPPOSITE = Lemma('the direction back', ForAll([p_, q_, n, i], Implies(n >= 0, Select(DIR(q_, p_, n), i) == -Select(DIR(p_, q_, n), i)), patterns=[MultiPattern(Select(DIR(p_, q_, n), i), DIR(q_, p_, n))]), [
    ('same length', [SQD_SYM.statement, ForAll([_x, _y, _f], _mul(_x - _y, _f) == -_mul(_y - _x, _f), patterns=[_mul(_x - _y, _f)])] + DIR_AX, [n >= 0], Select(DIR(q_, p_, n), i) == -Select(DIR(p_, q_, n), i))])

arr = lambda y: get(y, 'arr')
DOT_PRODUCT = Contract(
    'dot_product', props=('C21', 'C18'),
    requires=[('second vector has at least as many coordinates', lambda c: ln(c.a(0)) <= ln(c.a(1)))],
    ensures=[('sum of products', lambda c: c.ret == DOT(arr(c.a(0)), arr(c.a(1)), ln(c.a(0))))], axioms=DOT_AX,
    loops={0: Loop([('partial sum', lambda c: And(c.k <= ln(c.arg(0)), c.v('dot', 'double') == DOT(arr(c.arg(0)), arr(c.arg(1)), c.k)))])})


def _raw(c, upto):
    d, a, b = c.arg(2), c.arg(0), c.arg(1)
    return ForAll([i], Implies(And(0 <= i, i < upto), at(d, i) == at(b, i) - at(a, i)), patterns=[at(d, i)])


def _scaled(c):
    d, a, b = c.arg(2), c.arg(0), c.arg(1)
    D = DIR(arr(a), arr(b), ln(a))
    return And(ln(d) == ln(a), ForAll([i], Implies(And(0 <= i, i < ln(a)), at(d, i) == If(i < c.k, Select(D, i), at(b, i) - at(a, i))), patterns=[at(d, i)]))


def direction(c, d, a, b):
    """the vector d is the unit direction from a to b"""
    return And(ln(d) == ln(a), ForAll([i], Implies(And(0 <= i, i < ln(a)), at(d, i) == Select(DIR(arr(a), arr(b), ln(a)), i)), patterns=[at(d, i)]))


GET_DIRECTION = Contract(
    'get_direction', props=('C21', 'C18'),
    requires=[('same number of coordinates', lambda c: And(ln(c.a(0)) == ln(c.a(1)), ln(c.a(2)) == ln(c.a(0))))],
    ensures=[('unit direction', lambda c: direction(c, c.a(2), c.a(0), c.a(1)))], modifies=[2], axioms=DIR_AX + SQD_AX + MUL_AX,
    loops={0: Loop([('differences so far', lambda c: And(c.k <= ln(c.arg(0)), ln(c.arg(2)) == ln(c.arg(0)), _raw(c, c.k), c.v('norm', 'double') == SQD(arr(c.arg(1)), arr(c.arg(0)), c.k)))]),
           1: Loop([('scaled so far', _scaled)])})


# -------------------------------------------------------------- candidates
class Row:
    """What is asked of a candidate x next to the last cell of a line."""

    def __init__(self, c):
        self.c, self.g = c, mesh(c)
        self.seed, self.treat, self.w, self.mx = c.arg(0), c.arg(1), c.arg(2), c.arg(3)

    def entry(self, y):
        return ROWPOS(self.g.r, self.g.c, self.seed, y)

    def near(self, y, upto=None):
        e = self.entry(y)
        return And(self.g.lo(self.seed) <= e, e < (self.g.hi(self.seed) if upto is None else upto), at(self.g.col, e) == y, at(self.treat, y))

    def high(self, y):
        return at(self.w, self.entry(y)) > HIGH * at(self.mx, self.seed)

    def ahead(self, y):
        cen, m = self.g.centers, self.g.dim()
        return DOT(arr(self.c.arg(4)), DIR(arr(at(cen, y)), arr(at(cen, self.seed)), m), m) >= STRAIGHT_MIN


def _cand(c, idx, directed, upto=None, old=None):
    r, S = Row(c), c.arg(idx)
    p = z3.Const('p', get(S, 'mem').sort().domain())
    y = get(p, 'first')
    ok = [r.near(y, upto)]
    if directed:
        ok += [Implies(c.arg(5), r.high(y)), r.ahead(y)]
    else:
        ok.append(r.high(y))
    return ForAll([p], Implies(mem(S, p), Or(mem(old, p), And(ok))), patterns=[mem(S, p)])


def _near_cells(c, idx):
    """candidates are adjacent cells, said by counts of entries"""
    r, S, old = Row(c), c.a(idx), c.o(idx)
    p = z3.Const('p', get(S, 'mem').sort().domain())
    y = get(p, 'first')
    return ForAll([p], Implies(mem(S, p), Or(mem(old, p), And(r.g.cell(y), y != r.seed, _cntrow(one(y), r.g.r, r.g.c, r.seed) > 0, _cntrow(one(r.seed), r.g.r, r.g.c, y) > 0))), patterns=[mem(S, p)])


def _row_loop(idx, directed):
    def inv(c):
        r, e = Row(c), c.pos('n_it')
        return And(c.pos('w_it') == e, r.g.lo(r.seed) <= e, e <= r.g.hi(r.seed))
    return Loop([('position in the row', inv), ('candidates so far', lambda c: _cand(c, idx, directed, c.pos('n_it'), c.ex.rv(c.at_entry, c.ex.cur.args[idx])))])


GRAPH = [MESH[q] for q in (0, 1, 2, 3, 5, 6)]
SEED = [('a cell', lambda c: mesh(c).cell(c.a(0))), ('array sizes', lambda c: And(ln(c.a(1)) == mesh(c).n, ln(c.a(2)) >= ln(mesh(c).col), ln(c.a(3)) == mesh(c).n))]
CAND_W = Contract(
    N + '::find_cell_candidates_for_line_max_weight', props=('C21', 'C18'),
    requires=GRAPH + SEED,
    ensures=[('new candidates are strongly coupled cells to treat', lambda c: _cand(c, 4, False, None, c.o(4))), ('new candidates are adjacent', lambda c: _near_cells(c, 4))],
    modifies=[4], axioms=[CNT_POS.statement, SHARES.statement] + MARKS, loops={0: _row_loop(4, False)}, lemmas=[SHARES])
CAND_D = Contract(
    N + '::find_cell_candidates_for_line_direction', props=('C21', 'C18'),
    requires=GRAPH + SEED + [('centres', lambda c: mesh(c).geometry()), ('a direction', lambda c: ln(c.a(4)) == mesh(c).dim())],
    ensures=[('new candidates are cells to treat straight ahead, strongly coupled when asked', lambda c: _cand(c, 6, True, None, c.o(6))), ('new candidates are adjacent', lambda c: _near_cells(c, 6))],
    modifies=[6], axioms=[CNT_POS.statement, SHARES.statement, DOT_AGREE.statement] + MARKS, loops={0: _row_loop(6, True)}, lemmas=[SHARES, DOT_AGREE])


# ------------------------------------------------------------ construction
STRONG = z3.Function('strong_link', IS, IS, BS)              # see strong_def
STRAIGHT = z3.Function('straight_ahead', IS, IS, IS, BS)     # see straight_def
NEAR = z3.Function('next_to', IS, IS, BS)                     # see near_def
NEAREST = z3.Function('largest_inverse_distance', IS, RS)
LNK = z3.Function('link_at', IS, BS)                         # marker, always true
MARK = [ForAll([i], LNK(i), patterns=[LNK(i)]), ForAll([t, i], And(NEXT(t, i), LNK(i)), patterns=[NEXT(t, i)])]
OPT = 'std::optional<std::vector<double>>'


class Build:
    def __init__(self, c, thr=None):
        self.c, self.g = c, mesh(c)
        self.S = c.f('_s_anisotropic_compliant_cells', obj=Obj(THE, 'Dual_Graph'), cls='Dual_Graph')
        self.coup, self.force = c.f('_cell_coupling', cls=N), c.f('_force_line_direction', cls=N)
        self.thr = c.arg(1) if thr is None else thr

    def cen(self, y):
        return arr(at(self.g.centers, y))

    def tagged(self, y):
        return And(self.g.cell(y), mem(self.S, y), Or(self.thr < 0, ARF(ROWMIN(y), ROWMAX(y)) >= self.thr))

    def inv(self, a, e):
        g = self.g
        return _div(z3.RealVal(1), SQD(self.cen(a), self.cen(at(g.col, e)), ln(at(g.centers, a))))

    def strong_def(self, a, b):
        g, e = self.g, ROWPOS(self.g.r, self.g.c, a, b)
        return And(g.inrow(a, e), at(g.col, e) == b, If(self.coup == 0, at(g.val, e) > HIGH * ROWMAX(a), self.inv(a, e) > HIGH * NEAREST(a)))

    def straight_def(self, p, a, b):
        m = self.g.dim()
        return DOT(DIR(self.cen(a), self.cen(p), m), DIR(self.cen(b), self.cen(a), m), m) >= STRAIGHT_MIN

    def link(self, D, q):
        a, b = at(D, q), at(D, q + 1)
        return Or(STRONG(a, b), STRONG(b, a), And(self.force, Or(And(lo(D) <= q - 1, STRAIGHT(at(D, q - 1), a, b)), And(q + 2 < hi(D), STRAIGHT(at(D, q + 2), b, a)))))

    def near_def(self, a, b):
        return _cntrow(one(a), self.g.r, self.g.c, b) > 0

    def next_to(self, D, q):
        return (self.near_def if getattr(self.c, 'caller', False) else NEAR)(at(D, q), at(D, q + 1))


def treat(c):
    return c.v('to_treat', 'std::vector<bool>')


B_GHOSTS = [('largest and smallest weight of each row', lambda c: _extremes(c)),
            ('largest inverse distance of each row', lambda c: (lambda b: ForAll([u], Implies(And(b.g.cell(u), b.g.lo(u) < b.g.hi(u)), And(ForAll([k], Implies(b.g.inrow(u, k), b.inv(u, k) <= NEAREST(u)), patterns=[at(b.g.col, k)]),
                                                                                                           Exists([k], And(b.g.inrow(u, k), b.inv(u, k) == NEAREST(u))))), patterns=[NEAREST(u)]))(Build(c)))]


def _extremes(c):
    g = mesh(c)
    big = -LOWEST
    return ForAll([u], Implies(g.cell(u), And(
        If(g.lo(u) < g.hi(u),
           And(Exists([k], And(g.inrow(u, k), at(g.val, k) == ROWMAX(u))), Exists([k], And(g.inrow(u, k), at(g.val, k) == ROWMIN(u))),
               ForAll([k], Implies(g.inrow(u, k), And(ROWMIN(u) <= at(g.val, k), at(g.val, k) <= ROWMAX(u))), patterns=[at(g.val, k)])),
           And(ROWMAX(u) == 0, ROWMIN(u) == big)))), patterns=[at(g.row, u), ROWMAX(u), ROWMIN(u)])


def marked(c, a, q):
    return z3.BoolVal(True) if getattr(c, 'caller', False) else NEXT(a, q)


def each(c, f, pattern=None):
    L = Lines(c, 0)
    return ForAll([t, i], Implies(And(0 <= t, t < L.n, lo(L.line(t)) <= i, i < hi(L.line(t))), f(L.line(t), i)), patterns=[at(L.line(t), i)])


def each_link(c, f):
    L = Lines(c, 0)
    body = Implies(And(0 <= t, t < L.n, lo(L.line(t)) <= i, i + 1 < hi(L.line(t)), marked(c, t, i)), f(L.line(t), i))
    return ForAll([t, i], body, patterns=[NEXT(t, i)])


def _distinct(c):
    L = Lines(c, 0)
    a, b = at(L.line(t), i), at(L.line(u), j)
    return ForAll([t, i, u, j], Implies(And(0 <= t, t < L.n, 0 <= u, u < L.n, lo(L.line(t)) <= i, i < hi(L.line(t)), lo(L.line(u)) <= j, j < hi(L.line(u)), a == b), And(t == u, i == j)), patterns=[MultiPattern(a, b)])


BUILT = [('lines exist', lambda c: And(Lines(c, 0).n >= 0, Lines(c, 0).real())),
         ('lines of at least two cells', lambda c: (lambda L: ForAll([t], Implies(And(0 <= t, t < L.n), size(L.line(t)) >= 2), patterns=[L.ptr(t)]))(Lines(c, 0))),
         ('lines of tagged cells', lambda c: each(c, lambda D, q: Build(c).tagged(at(D, q)))), ('no cell twice', _distinct),
         ('consecutive cells are adjacent', lambda c: each_link(c, lambda D, q: Build(c).next_to(D, q))),
         ('every link is strong, or straight ahead when directions are forced', lambda c: each_link(c, lambda D, q: Build(c).link(D, q))),
         ('the first link of each line is strong', lambda c: (lambda L: ForAll([t], Implies(And(0 <= t, t < L.n), And(lo(L.line(t)) <= 0, hi(L.line(t)) >= 2, STRONG(at(L.line(t), 0), at(L.line(t), 1)))), patterns=[L.ptr(t)]))(Lines(c, 0)))]


def _levels(c):
    L, L0 = Lines(c, 0), Lines(c, 0, True)
    return And(ln(L.all) == 2, at(L.all, 1) == at(L0.all, 1), ln(c.f('_nb_lines', cls=N)) == 2)


def _treated(c):
    b, T = Build(c), treat(c)
    return And(ln(T) == b.g.n, ForAll([u], Implies(And(b.g.cell(u), at(T, u)), b.tagged(u)), patterns=[at(T, u)]),
               each(c, lambda D, q: Not(at(T, at(D, q)))))


class Cur:
    """The line under construction."""

    def __init__(self, c):
        self.c, self.b = c, Build(c)
        self.p = c.v('cur_line')
        self.D = Select(c.ex.named_heap(c.st, '*deque<unsigned long>', parse(DEQ)), self.p)
        self.T = treat(c)
        self.seed, self.primal = c.v('seed', 'unsigned long'), c.v('primal_seed', 'unsigned long')
        self.opp, self.empty = c.v('opposite_direction_check', 'bool'), c.v('empty_line', 'bool')
        self.prev, self.pd = c.v('prev_dir', 'std::vector<double>'), c.v('primal_dir', OPT)


def _shape(c):
    q = Cur(c)
    D = q.D
    return And(lo(D) <= 0, hi(D) >= 1, at(D, 0) == q.primal, Or(q.opp, lo(D) == 0), q.seed == If(q.opp, at(D, lo(D)), at(D, hi(D) - 1)), Implies(q.opp, hi(D) >= 2), q.empty == (hi(D) < 2))


def _others(c):
    h, h0 = c.ex.named_heap(c.st, '*deque<unsigned long>', parse(DEQ)), c.ex.heap_arr(c.at_entry, '*deque<unsigned long>', parse(DEQ))
    p = Int('p')
    return ForAll([p], Implies(p != c.v('cur_line'), Select(h, p) == Select(h0, p)), patterns=[Select(h, p)])


def at_start(c):
    return type(c)(c.ex, c.at_entry, c.at_entry, c.at_entry, c.node, c.inc)


def _cells(f):
    def g(c):
        q = Cur(c)
        y = at(q.D, i)
        return ForAll([i], Implies(And(lo(q.D) <= i, i < hi(q.D)), f(c, q, y)), patterns=[y])
    return g


def _left_to_treat(c):
    q, T0 = Cur(c), treat(at_start(c))
    return And(ln(q.T) == q.b.g.n, ForAll([u], Implies(And(q.b.g.cell(u), at(q.T, u)), at(T0, u)), patterns=[at(q.T, u)]))


def _once(c):
    D = Cur(c).D
    return ForAll([i, j], Implies(And(lo(D) <= i, i < j, j < hi(D)), at(D, i) != at(D, j)), patterns=[MultiPattern(at(D, i), at(D, j))])


def _cur_link(f):
    def g(c):
        q = Cur(c)
        return ForAll([i], Implies(And(lo(q.D) <= i, i + 1 < hi(q.D), LNK(i)), f(q.b, q.D, i)), patterns=[LNK(i)])
    return g


def _directions(c):
    q = Cur(c)
    D, b = q.D, q.b
    P = lambda y: at(b.g.centers, y)
    return And(ln(q.prev) == b.g.dim(), get(q.pd, 'has') == (hi(D) >= 2), Implies(hi(D) >= 2, direction(c, get(q.pd, 'val'), P(at(D, 1)), P(at(D, 0)))),
               Implies(And(Not(q.opp), hi(D) >= 2), direction(c, q.prev, P(at(D, hi(D) - 1)), P(at(D, hi(D) - 2)))),
               Implies(q.opp, direction(c, q.prev, P(at(D, lo(D))), P(at(D, lo(D) + 1)))))


def _back(c):
    d, p = c.v('prev_dir', 'std::vector<double>'), get(c.v('primal_dir', OPT), 'val')
    d0 = at_start(c).v('prev_dir', 'std::vector<double>')
    return And(c.k <= ln(d), ln(d) == ln(d0), ForAll([i], Implies(And(0 <= i, i < c.k), at(d, i) == -at(p, i)), patterns=[at(d, i)]))


def _grown(c):
    """the new link, at the back or at the front; strong and straight links are folded into their names"""
    q, D0 = Cur(c), Cur(type(c)(c.ex, c.head, c.at_entry, c.head, c.node, c.inc)).D
    D, b = q.D, q.b
    back, front = hi(D) != hi(D0), lo(D) != lo(D0)
    hint(c, ForAll([i], Implies(And(lo(D0) <= i, i < hi(D0)), at(D, i) == at(D0, i)), patterns=[at(D, i), at(D0, i)]), 'the line so far stays')
    for grown, e, s, p in ((back, hi(D0), hi(D0) - 1, hi(D0) - 2), (front, lo(D0) - 1, lo(D0), lo(D0) + 1)):
        p, s, e = at(D0, p), at(D0, s), at(D, e)
        hint(c, Implies(grown, Or(b.strong_def(s, e), And(b.force, hi(D0) >= 2, b.straight_def(p, s, e)))), 'the new link')
        hint(c, Implies(grown, And(b.near_def(s, e), b.near_def(e, s))), 'the new cell is adjacent')
        c.st.assume(And(Implies(b.near_def(s, e), NEAR(s, e)), Implies(b.near_def(e, s), NEAR(e, s)), Implies(b.strong_def(s, e), STRONG(s, e)), Implies(b.straight_def(p, s, e), STRAIGHT(p, s, e))))
    hint(c, And(Implies(back, And(b.link(D, hi(D) - 2), b.next_to(D, hi(D) - 2))), Implies(front, And(b.link(D, lo(D)), b.next_to(D, lo(D))))), 'the new link in the line')


def _unmark(m):
    return CT(Store(F, i, False), m) == CT(F, m) - If(And(0 <= i, i < m, Select(F, i)), 1, 0)


CT_UNMARK = Lemma('unmarking one', ForAll([F, i, n], _unmark(n), patterns=[CT(Store(F, i, False), n)]),
                  [('none', CT_AX, [n <= 0], _unmark(n)), ('one more', CT_AX, [n >= 0, _unmark(n)], _unmark(n + 1))])


def _left(c):
    """cells to treat, sides to look at"""
    q = Cur(c)
    return 3 * CT(arr(q.T), q.b.g.n) + If(q.opp, 0, 1) + If(c.v('end', 'bool'), 0, 1)


BACK = Loop([('reversed so far', _back)])
WHILE = Loop([('line and seed', _shape), ('other lines stay', _others), ('tagged cells', _cells(lambda c, q, y: q.b.tagged(y))), ('treated cells', _cells(lambda c, q, y: Not(at(q.T, y)))), ('cells were to be treated', _cells(lambda c, q, y: Or(y == q.primal, at(treat(at_start(c)), y)))), ('left to treat', _left_to_treat), ('no cell twice in the line', _once),
              ('consecutive cells are adjacent', _cur_link(lambda b, D, q: b.next_to(D, q))), ('links of the line', _cur_link(lambda b, D, q: b.link(D, q))),
              ('first link', lambda c: (lambda D: Implies(hi(D) >= 2, STRONG(at(D, 0), at(D, 1))))(Cur(c).D)), ('directions', _directions)], at_step=_grown, variant=_left)
BUILD = Contract(
    N + '::build_anisotropic_lines', props=('C21', 'C18'), allocates=True, ghosts=B_GHOSTS, axioms=MARK, lemmas=[DOT_AGREE, OPPOSITE, CT_UNMARK, CT_BOUND],
    requires=GRAPH + [('centres', lambda c: mesh(c).geometry()), ('weights are positive and finite', lambda c: ForAll([k], Implies(And(0 <= k, k < ln(mesh(c).val)), And(at(mesh(c).val, k) > 0, at(mesh(c).val, k) < -LOWEST)), patterns=[at(mesh(c).val, k)])),
                      ('compliant cells exist', lambda c: cells_of(mesh(c), Build(c).S)), ('one priority per cell', lambda c: ln(c.a(0)) == mesh(c).n), ('coupling type', lambda c: Or(Build(c).coup == 0, Build(c).coup == 1)),
                      ('no lines yet', lambda c: And(ln(c.f('_v_lines', cls=N)) == 2, Lines(c, 0).n == 0, ln(c.f('_nb_lines', cls=N)) == 2))],
    ensures=[('two levels', _levels), ('whether there are lines', lambda c: And(c.ret == (Lines(c, 0).n > 0), Implies(c.ret, at(c.f('_nb_lines', cls=N), 0) == Lines(c, 0).n)))] + BUILT,
    modifies=['_v_lines', '_nb_lines', ('heap', '*deque<unsigned long>', DEQ)],
    loops={0: Loop([('two levels', _levels), ('number of lines', lambda c: at(c.f('_nb_lines', cls=N), 0) == Lines(c, 0).n)] + BUILT + [('cells to treat', _treated)]), 1: WHILE, 2: BACK, 3: BACK})

CONTRACTS = [DOT_PRODUCT, GET_DIRECTION, CAND_W, CAND_D, BUILD]


# --------------------------------------- construction of the agglomerator
# arguments: 0 graph, 1 coarse cells, 2 pool, 3 dimension, 4 threshold, 5 line offsets, 6 line cells, 7 priorities, 8 build, 9 odd, 10 max, 11 coupling, 12 force
WHERE = z3.Function('place_in_given_lines', IS, IS)
STEP = z3.Function('step_in_given_lines', IS, BS)            # marker, always true
STEPS = [ForAll([i], STEP(i), patterns=[STEP(i)])]
RANK = z3.Function('given_lines_before', IS, IS)             # number of given lines of at least two cells before one: see Given.counts
s = Int('s')


class Given:
    """The lines given by the caller."""

    def __init__(self, c):
        self.c, self.g, self.idx, self.cells = c, mesh(c), c.arg(5), c.arg(6)
        self.caller = getattr(c, 'caller', False)

    def offsets(self):
        a, b = at(self.idx, s), at(self.idx, t)
        return And(ln(self.idx) >= 1, ForAll([s, t], Implies(And(0 <= s, s <= t, t < ln(self.idx)), And(0 <= a, a <= b, b <= ln(self.cells))), patterns=[MultiPattern(a, b)]))

    def inside(self):
        return ForAll([i], Implies(And(0 <= i, i < ln(self.cells)), self.g.cell(at(self.cells, i))), patterns=[at(self.cells, i)])

    def once(self):
        if self.caller:
            return ForAll([i, j], Implies(And(0 <= i, i < j, j < ln(self.cells)), at(self.cells, i) != at(self.cells, j)), patterns=[MultiPattern(at(self.cells, i), at(self.cells, j))])
        return z3.BoolVal(True)      # said by the ghost function place_in_given_lines

    def place(self):
        return ForAll([i], Implies(And(0 <= i, i < ln(self.cells)), WHERE(at(self.cells, i)) == i), patterns=[at(self.cells, i)])

    def long(self, y):
        return at(self.idx, y + 1) - at(self.idx, y) >= 2

    def counts(self, y):
        return RANK(y + 1) == RANK(y) + If(self.long(y), 1, 0)

    def kept(self, L, upto):
        """the lines are the given ones of at least two cells, in order"""
        r, D = RANK(s), L.line(RANK(s))
        mine = And(0 <= s, s < upto, self.long(s))
        return And(L.n == RANK(upto), RANK(0) == 0, ForAll([s], Implies(mine, And(0 <= r, r < L.n, lo(D) == 0, hi(D) == at(self.idx, s + 1) - at(self.idx, s))), patterns=[r]),
                   ForAll([s, i], Implies(And(mine, 0 <= i, i < hi(D)), at(D, i) == at(self.cells, at(self.idx, s) + i)), patterns=[at(D, i)]))

    def joined(self):
        body = Implies(And(0 <= s, s + 1 < ln(self.idx), at(self.idx, s) <= i, i + 1 < at(self.idx, s + 1), STEP(i) if self.caller else True), _cntrow(one(at(self.cells, i)), self.g.r, self.g.c, at(self.cells, i + 1)) > 0)
        return ForAll([s, i], body, patterns=[MultiPattern(at(self.idx, s), STEP(i))])


def given(f):
    return lambda c: Implies(Not(c.a(8)), f(Given(c)))


def _thr(c):
    return If(Or(c.a(4) > 1, c.a(4) < 0), c.a(4), _div(z3.RealVal(1), c.a(4)))


def _next(c):
    b = Build(c, 0)
    return each_link(c, lambda D, q: b.near_def(at(D, q), at(D, q + 1)))


def _taken(c):
    """cells of the lines so far are given ones before the present offset"""
    G, upto = Given(c), at(c.arg(5), c.pos('idx_ptr') - 1)
    f = lambda y: And(0 <= WHERE(y), WHERE(y) < upto, at(G.cells, WHERE(y)) == y)
    return each(c, lambda D, q: f(at(D, q)))


LINE_PARTS = [BUILT[0], BUILT[1], ('lines of cells', lambda c: each(c, lambda D, q: mesh(c).cell(at(D, q)))), ('no cell twice in the lines', _distinct), ('consecutive cells are adjacent', _next)]
KEPT = [('two levels of lines', lambda c: And(ln(c.f('_v_lines', cls=N)) == 2, Lines(c, 1).n == 0, ln(c.f('_nb_lines', cls=N)) == 2, at(c.f('_nb_lines', cls=N), 0) == Lines(c, 0).n))]


def _new_line(c):
    G, L, e = Given(c), Lines(c, 0), c.pos('idx_ptr') - 2
    L0 = Lines(type(c)(c.ex, c.head, c.at_entry, c.head, c.node, c.inc), 0)
    D, o = L.line(L.n - 1), at(G.idx, e)
    new = L.n != L0.n
    c.st.assume(And(at(G.idx, e + 1) == at(G.idx, e + 1), STEP(0)))
    hint(c, Implies(new, And(lo(D) == 0, hi(D) == at(G.idx, e + 1) - o, ForAll([i], Implies(And(0 <= i, i < hi(D)), at(D, i) == at(G.cells, o + i)), patterns=[at(D, i)]))), 'the new line is the given one')
    hint(c, Implies(new, ForAll([i], Implies(And(0 <= i, i + 1 < hi(D), LNK(i), STEP(o + i)), _cntrow(one(at(D, i)), G.g.r, G.g.c, at(D, i + 1)) > 0), patterns=[LNK(i)])), 'the new line is a path')


def _ranked(c):
    G, e = Given(c), c.pos('idx_ptr') - 2
    c.st.assume(And(G.counts(e), RANK(e) == RANK(e)))
    _new_line(c)


LINE_OF, SPOT_OF = z3.Function('line_of_cell', IS, IS), z3.Function('spot_of_cell', IS, IS)


def _once(c):
    """callers get it in terms of the line and spot of a cell, which it lets exist: see name_aniso"""
    return z3.BoolVal(True) if getattr(c, 'caller', False) else _distinct(c)


def name_aniso(c):
    """the contract of the whole call speaks of the agglomerator it makes; there is one"""
    named = c.ex.__dict__.setdefault('aniso_named', {})
    if named.setdefault(c.ex.cur, c.node) is not c.node:
        raise T.Unsupported('a second anisotropic agglomerator')
    L = Lines(c, 0)
    a = at(L.line(t), i)
    c.st.assume(And(c.this.ref == Int('the_anisotropic_agglomerator'),
                    ForAll([t, i], Implies(And(0 <= t, t < L.n, lo(L.line(t)) <= i, i < hi(L.line(t))), And(LINE_OF(a) == t, SPOT_OF(a) == i)), patterns=[a])))


CTOR = Contract(
    N + '::Agglomerator_Anisotropic', on_apply=name_aniso, props=('C05', 'C06', 'C21', 'C18'), allocates=True, modifies=[('heap', '*deque<unsigned long>', DEQ)], accepts=lambda ex, f: len(ex.params(f)) == 13, axioms=MARK + STEPS,
    ghosts=[('places of given cells', lambda c: Implies(Not(c.a(8)), Given(c).place())), ('none before the first', lambda c: RANK(0) == 0)],
    requires=[('the graph of the agglomerator', lambda c: And(c.a(0) == THE, THE > 0, THE < c.st.ghost['_limit']))] + GRAPH[1:] + [('dimension', lambda c: Or(c.a(3) == 2, c.a(3) == 3))]
        + [(n, lambda c, f=f: Implies(c.a(8), f(c))) for n, f in BUILD.requires[len(GRAPH):] if n not in ('one priority per cell', 'coupling type', 'no lines yet')]
        + [('one priority per cell', lambda c: Implies(c.a(8), ln(c.a(7)) == mesh(c).n)), ('coupling type', lambda c: Implies(c.a(8), Or(c.a(11) == 0, c.a(11) == 1)))]
        + [('given offsets', given(Given.offsets)), ('given cells', given(Given.inside)), ('given cells are different', given(Given.once)), ('given lines are paths', given(Given.joined))],
    ensures=[('two levels of lines', lambda c: And(ln(c.f('_v_lines', cls=N)) == 2, Lines(c, 1).n == 0)), ('agglomerates when there are lines', lambda c: c.f('_should_agglomerate', cls=N) == (Lines(c, 0).n > 0)),
             ('options', lambda c: And(c.f('_odd_line_length', cls=N) == c.a(9), c.f('_max_cells_in_line', cls=N) == c.a(10), size(c.f('_aniso_neighbours', cls=N)) == 0)),
             ('parts', lambda c: And(c.f('_fc_graph', cls=AGG) == c.a(0), c.f('_cc_graph', cls=AGG) == c.a(1), c.f('_seeds_pool', cls=AGG) == c.a(2)))] + [(n, _once if f is _distinct else f) for n, f in LINE_PARTS]
        + [('built lines are of tagged cells', lambda c: Implies(c.a(8), each(c, lambda D, q: Build(c, _thr(c)).tagged(at(D, q))))), ('given lines of at least two cells, in order', given(lambda G: G.kept(Lines(G.c, 0), ln(G.idx) - 1)))],
    loops={0: Loop(KEPT + LINE_PARTS + [('given cells so far', _taken), ('given lines so far', lambda c: Given(c).kept(Lines(c, 0), c.pos('idx_ptr') - 1)), ('position', lambda c: And(1 <= c.pos('idx_ptr'), c.pos('idx_ptr') <= ln(c.arg(5))))], at_step=_ranked)})

CONTRACTS.append(CTOR)
