"""Contract of build_coarse_graph (Util.h)."""
import sys
import z3
from z3 import And, Or, Not, Implies, ForAll, Exists, If, Select, Int, Ints, MultiPattern
from vf.contract import Contract, Loop
from vf.types import get
from vf.proofs import Lemma
from vf.stl import LOWEST
from .util import ln, at
from .graph import CNT, CNT_AX, ASET, AINT, AREAL, IS, mem
from .features import WS, WS_AX, DEG, DEG_AX, WDEG, WDEG_AX, EMPTY, RS, plus

u, v, k, y, I, J, t = Ints('u v k y I J t')
f_ = z3.Const('f', AINT)
vol_ = z3.Const('vol', AREAL)
n_, C_ = Ints('n C')
INT_MIN = -2 ** 31

# the fine cells of a coarse cell, and the sum of their volumes among the first n
FIB = z3.Function('fibre', AINT, IS, IS, ASET)
FIB_AX = [ForAll([f_, n_, C_, y], Select(FIB(f_, n_, C_), y) == And(0 <= y, y < n_, Select(f_, y) == C_), patterns=[Select(FIB(f_, n_, C_), y)])]
VOLK = z3.Function('fibre_volume', AINT, AREAL, IS, IS, RS)
VOLK_AX = [ForAll([f_, vol_, C_], VOLK(f_, vol_, C_, 0) == 0, patterns=[VOLK(f_, vol_, C_, 0)]),
           ForAll([f_, vol_, C_, n_], Implies(n_ >= 0, VOLK(f_, vol_, C_, n_ + 1) == VOLK(f_, vol_, C_, n_) + If(Select(f_, n_) == C_, Select(vol_, n_), z3.RealVal(0))),
                  patterns=[VOLK(f_, vol_, C_, n_ + 1)])]
CPOS = z3.Function('coarse_position', IS, IS, IS)       # ghost: where row I lists J
PRE = z3.Function('first_cells', IS, IS, ASET)          # ghost: the first cells met of the set of a coarse cell

P_, Q_ = z3.Consts('P Q', ASET)
c_ = z3.Const('c', AINT)
r_ = z3.Const('r', AINT)
w_ = z3.Const('w', AREAL)
lo_, hi_ = Ints('lo hi')
NONNEG = Lemma('counts are not negative', ForAll([P_, c_, lo_, hi_], CNT(P_, c_, lo_, hi_) >= 0, patterns=[CNT(P_, c_, lo_, hi_)]), [
    ('empty range', CNT_AX, [hi_ <= lo_], CNT(P_, c_, lo_, hi_) >= 0),
    ('one more', CNT_AX, [hi_ >= lo_, CNT(P_, c_, lo_, hi_) >= 0], CNT(P_, c_, lo_, hi_ + 1) >= 0)])
DEG_NONNEG = Lemma('sums of counts are not negative (induction over finite sets)', ForAll([r_, c_, P_, Q_], DEG(r_, c_, P_, Q_) >= 0, patterns=[DEG(r_, c_, P_, Q_)]), [
    ('empty set', DEG_AX, [], DEG(r_, c_, P_, EMPTY) >= 0),
    ('one cell more', DEG_AX + [NONNEG.statement], [DEG(r_, c_, P_, Q_) >= 0, Not(Select(Q_, u))], DEG(r_, c_, P_, plus(Q_, u)) >= 0)])


class B:
    """Arguments of the construction."""

    def __init__(self, c):
        self.f2c, self.row, self.col, self.w, self.vol, self.cen, self.prio, self.bnd = (c.arg(i) for i in range(8))
        self.cidx, self.cadj, self.cw, self.cvol, self.ccen, self.cprio, self.cbnd = (c.arg(i) for i in range(8, 15))
        self.fa, self.r, self.c, self.wa = get(self.f2c, 'arr'), get(self.row, 'arr'), get(self.col, 'arr'), get(self.w, 'arr')
        self.n = ln(self.f2c)

    def fib(self, J):
        return FIB(self.fa, self.n, J)

    def edges(self, T, J):
        return DEG(self.r, self.c, self.fib(J), T)

    def weight(self, T, J):
        return WDEG(self.r, self.c, self.wa, self.fib(J), T)

    def valid(self):
        n = self.n
        return And(n > 0, ln(self.row) == n + 1, at(self.row, 0) == 0, at(self.row, n) == ln(self.col), ln(self.w) == ln(self.col),
                   ln(self.vol) == n, ln(self.cen) == n, ln(self.prio) == n, ln(self.bnd) == n,
                   ForAll([u, v], Implies(And(0 <= u, u <= v, v <= n), And(0 <= at(self.row, u), at(self.row, u) <= at(self.row, v), at(self.row, v) <= ln(self.col))),
                          patterns=[MultiPattern(at(self.row, u), at(self.row, v))]),
                   ForAll([k], Implies(And(0 <= k, k < ln(self.col)), And(0 <= at(self.col, k), at(self.col, k) < n)), patterns=[at(self.col, k)]),
                   ForAll([u], Implies(And(0 <= u, u < n), And(ln(at(self.cen, u)) == ln(at(self.cen, 0)), at(self.prio, u) >= LOWEST, at(self.bnd, u) >= INT_MIN, at(self.f2c, u) >= 0)),
                          patterns=[at(self.cen, u), at(self.prio, u), at(self.bnd, u), at(self.f2c, u)]))

    def rows(self, N):
        """rows of the coarse cells below N"""
        ci, ca, cw = self.cidx, self.cadj, self.cw
        inr = lambda I, k: And(at(ci, I) <= k, k < at(ci, I + 1))
        below = lambda I: And(0 <= I, I < N)
        return And(ln(ci) == N + 1, at(ci, 0) == 0, at(ci, N) == ln(ca), ln(cw) == ln(ca),
                   ForAll([I], Implies(below(I), And(0 <= at(ci, I), at(ci, I) <= at(ci, I + 1), at(ci, I + 1) <= ln(ca))), patterns=[at(ci, I)]),
                   ForAll([I, k], Implies(And(below(I), inr(I, k)), And(CPOS(I, at(ca, k)) == k, at(ca, k) != I, self.edges(self.fib(I), at(ca, k)) > 0,
                                                                        at(cw, k) == self.weight(self.fib(I), at(ca, k)))), patterns=[MultiPattern(at(ci, I), at(ca, k)), MultiPattern(at(ci, I), at(cw, k))]),
                   ForAll([I, J], Implies(And(below(I), J != I, self.edges(self.fib(I), J) > 0), And(inr(I, CPOS(I, J)), at(ca, CPOS(I, J)) == J)),
                          patterns=[self.edges(self.fib(I), J), CPOS(I, J)]))

    def values(self, N):
        below = lambda I: And(0 <= I, I < N)

        def top(M, f):
            return And(ForAll([u], Implies(And(0 <= u, u < self.n, at(self.f2c, u) == I), at(f, u) <= M), patterns=[at(f, u)]),
                       Exists([u], And(0 <= u, u < self.n, at(self.f2c, u) == I, at(f, u) == M)))
        return ForAll([I], Implies(below(I), And(top(at(self.cprio, I), self.prio), top(at(self.cbnd, I), self.bnd))), patterns=[at(self.cprio, I), at(self.cbnd, I)])

    def volumes(self, N, upto):
        return ForAll([I], Implies(And(0 <= I, I < N), at(self.cvol, I) == VOLK(self.fa, get(self.vol, 'arr'), I, upto)), patterns=[at(self.cvol, I)])

    def sizes(self, N):
        return And(ln(self.cvol) == N, ln(self.cprio) == N, ln(self.cbnd) == N, ln(self.ccen) == N,
                   ForAll([I], Implies(And(0 <= I, I < N), ln(at(self.ccen, I)) == ln(at(self.cen, 0))), patterns=[at(self.ccen, I)]))


def N_(c):
    return c.v('n_cells', 'unsigned long')


def c2f(c):
    return c.v('c2f', 'std::vector<std::set<unsigned long>>')


def members(c, upto):
    b, s = B(c), c2f(c)
    return And(ln(s) == N_(c), ForAll([I, u], Implies(And(0 <= I, I < N_(c)), mem(at(s, I), u) == And(0 <= u, u < upto, at(b.f2c, u) == I)), patterns=[mem(at(s, I), u)]))


def same_rows(c):
    b = B(c)
    e = lambda n: c.ex.rv(c.at_entry, c.ex.cur.args[n])
    return And([c.arg(n) == e(n) for n in (8, 9, 10, 11, 13, 14)])


WIT = z3.Function('some_cell_of', IS, IS)


def gapfree(c):
    b = B(c)
    return ForAll([I, u], Implies(And(0 <= u, u < b.n, 0 <= I, I <= at(b.f2c, u)), And(0 <= WIT(I), WIT(I) < b.n, at(b.f2c, WIT(I)) == I)),
                  patterns=[MultiPattern(WIT(I), at(b.f2c, u))])


def in_range(c):
    b = B(c)
    return And(N_(c) > 0, ForAll([u], Implies(And(0 <= u, u < b.n), at(b.f2c, u) < N_(c)), patterns=[at(b.f2c, u)]),
               ForAll([I], Implies(And(0 <= I, I < N_(c)), And(0 <= WIT(I), WIT(I) < b.n, at(b.f2c, WIT(I)) == I)), patterns=[WIT(I)]))


def NN(c):
    return ln(c.arg(11))


def cc_(c):
    return c.v('cc', 'unsigned long', 1)


def prefix(c):
    """the cells met first, as sets"""
    it, cc = c.counter_value(), cc_(c)
    E = it.enum
    return And(PRE(cc, 0) == EMPTY, PRE(cc, E.n) == get(at(c2f(c), cc), 'mem'),
               ForAll([t], Implies(And(0 <= t, t < E.n), PRE(cc, t + 1) == plus(PRE(cc, t), E.at(t))), patterns=[PRE(cc, t + 1)]),
               ForAll([t, u], Implies(And(0 <= t, t <= E.n), Select(PRE(cc, t), u) == And(mem(at(c2f(c), cc), u), E.pos(u) < t)), patterns=[Select(PRE(cc, t), u)]))


def neighs(c):
    return c.v('cc_neighs', 'std::map<unsigned long, double>')


def gathered(c, T, lo=None, hi=None):
    """what the rows of T and a part of one more row give"""
    b, d, cc = B(c), neighs(c), cc_(c)
    e = lambda J: b.edges(T, J) + (CNT(b.fib(J), b.c, lo, hi) if lo is not None else 0)
    x = lambda J: b.weight(T, J) + (WS(b.fib(J), b.c, b.wa, lo, hi) if lo is not None else 0)
    return And(Not(mem(d, cc)), ForAll([J], Implies(J != cc, And(mem(d, J) == (e(J) > 0), If(mem(d, J), Select(get(d, 'val'), J), z3.RealVal(0)) == x(J))), patterns=[mem(d, J), b.edges(T, J)]))


def tops(c):
    b, it = B(c), c.counter_value()
    seen = lambda y: And(mem(at(c2f(c), cc_(c)), y), it.enum.pos(y) < it.pos)

    def top(M, f, low):
        return And(M >= low, ForAll([u], Implies(seen(u), at(f, u) <= M), patterns=[at(f, u)]), Or(M == low, Exists([u], And(seen(u), at(f, u) == M))))
    return And(top(c.v('n_bnd', 'int', 1), b.bnd, INT_MIN), top(c.v('priority', 'double', 1), b.prio, LOWEST))


def emitted(c):
    """entries of the row under construction"""
    b, d, cc = B(c), neighs(c), cc_(c)
    it = c.counter_value()
    base = at(b.cidx, cc)
    e = lambda n: c.ex.rv(c.at_entry, c.ex.cur.args[n])
    return And(ln(b.cadj) == base + it.pos, ln(b.cw) == ln(b.cadj),
               ForAll([k], Implies(And(0 <= k, k < base), And(at(b.cadj, k) == at(e(9), k), at(b.cw, k) == at(e(10), k))), patterns=[at(b.cadj, k), at(b.cw, k)]),
               ForAll([k], Implies(And(base <= k, k < base + it.pos), And(at(b.cadj, k) == it.enum.at(k - base), at(b.cw, k) == Select(get(d, 'val'), it.enum.at(k - base)))), patterns=[at(b.cadj, k), at(b.cw, k)]))


def place(c):
    """positions of the finished row, as a function"""
    it, cc = c.counter_value(), cc_(c)
    base = at(B(c).cidx, cc)
    c.st.assume(ForAll([J], Implies(mem(neighs(c), J), CPOS(cc, J) == base + it.enum.pos(J)), patterns=[mem(neighs(c), J), CPOS(cc, J)]))


def same_set(c):
    """sets with the same members are equal"""
    b, cc = B(c), cc_(c)
    m = get(at(c2f(c), cc), 'mem')
    c.st.assume(PRE(cc, 0) == EMPTY)
    hint = And(0 <= WIT(cc), WIT(cc) < b.n, Select(m, WIT(cc)), at(b.prio, WIT(cc)) >= LOWEST, at(b.bnd, WIT(cc)) >= INT_MIN)
    c.ex.oblige(c.st, hint, 'hint', c.node, 'the coarse cell is not empty')
    c.st.assume(hint)
    c.st.assume(Implies(ForAll([u], Select(m, u) == Select(b.fib(cc), u), patterns=[Select(m, u)]), m == b.fib(cc)))


BUILD = Contract(
    'build_coarse_graph', props=('C13', 'C18'),
    requires=[('the fine graph is well formed', lambda c: B(c).valid()), ('the partition has no gaps', gapfree)],
    ensures=[('rows and weights', lambda c: B(c).rows(NN(c))), ('one value per coarse cell', lambda c: B(c).sizes(NN(c))),
             ('as many as numbers', lambda c: And(ForAll([u], Implies(And(0 <= u, u < B(c).n), at(B(c).f2c, u) < NN(c)), patterns=[at(B(c).f2c, u)]), Exists([u], And(0 <= u, u < B(c).n, at(B(c).f2c, u) == NN(c) - 1)))),
             ('priority and boundary faces are maxima', lambda c: B(c).values(NN(c))), ('volumes are sums', lambda c: B(c).volumes(NN(c), B(c).n))],
    modifies=list(range(8, 15)), axioms=CNT_AX + WS_AX + DEG_AX + WDEG_AX + FIB_AX + VOLK_AX, lemmas=[NONNEG, DEG_NONNEG],
    loops={0: Loop([('centres so far', lambda c: And(ln(B(c).ccen) == c.k, c.k <= N_(c), ForAll([I], Implies(And(0 <= I, I < c.k), ln(at(B(c).ccen, I)) == ln(at(B(c).cen, 0))), patterns=[at(B(c).ccen, I)]))), ('numbers in range', in_range)]),
           1: Loop([('members so far', lambda c: members(c, c.k)), ('volumes so far', lambda c: B(c).volumes(N_(c), c.k)), ('sizes', lambda c: And(B(c).sizes(N_(c)), c.k <= B(c).n))]),
           2: Loop([('sizes', lambda c: B(c).sizes(N_(c)))]),
           3: Loop([('rows so far', lambda c: B(c).rows(c.k)), ('sizes', lambda c: And(B(c).sizes(N_(c)), c.k <= N_(c))), ('maxima so far', lambda c: B(c).values(c.k))], at_body=same_set),
           4: Loop([('sizes', lambda c: B(c).sizes(N_(c)))]),
           5: Loop([('neighbours so far', lambda c: gathered(c, PRE(cc_(c), c.counter_value().pos))), ('maxima so far', tops)], assumes=[prefix]),
           6: Loop([('neighbours so far', lambda c: gathered(c, PRE(cc_(c), c.outer(0).pos), at(B(c).row, c.v('fc', 'unsigned long', 2)), c.pos('fc_neigh'))),
                    ('in range', lambda c: And(at(B(c).row, c.v('fc', 'unsigned long', 2)) <= c.pos('fc_neigh'), c.pos('fc_neigh') <= at(B(c).row, c.v('fc', 'unsigned long', 2) + 1)))]),
           7: Loop([('row so far', emitted)], at_exit=place)})



def _in(P, c, lo, hi):
    return Exists([k], And(lo <= k, k < hi, Select(P, Select(c, k))))


def _joined(P, T):
    return Exists([u], And(Select(T, u), _in(P, c_, Select(r_, u), Select(r_, u + 1))))


CNT_POS = Lemma('a count is positive when there is an entry', ForAll([P_, c_, lo_, hi_], (CNT(P_, c_, lo_, hi_) > 0) == _in(P_, c_, lo_, hi_), patterns=[CNT(P_, c_, lo_, hi_)]), [
    ('empty range', CNT_AX, [hi_ <= lo_], (CNT(P_, c_, lo_, hi_) > 0) == _in(P_, c_, lo_, hi_)),
    ('one more', CNT_AX + [NONNEG.statement], [hi_ >= lo_, (CNT(P_, c_, lo_, hi_) > 0) == _in(P_, c_, lo_, hi_)], (CNT(P_, c_, lo_, hi_ + 1) > 0) == _in(P_, c_, lo_, hi_ + 1))])
DEG_POS = Lemma('coarse cells are listed when a fine edge joins them (induction over finite sets)',
    ForAll([r_, c_, P_, Q_], (DEG(r_, c_, P_, Q_) > 0) == _joined(P_, Q_), patterns=[DEG(r_, c_, P_, Q_)]), [
    ('empty set', DEG_AX, [], (DEG(r_, c_, P_, EMPTY) > 0) == _joined(P_, EMPTY)),
    ('one cell more', DEG_AX + [NONNEG.statement, DEG_NONNEG.statement, CNT_POS.statement], [(DEG(r_, c_, P_, Q_) > 0) == _joined(P_, Q_), Not(Select(Q_, v))],
     (DEG(r_, c_, P_, plus(Q_, v)) > 0) == _joined(P_, plus(Q_, v)))])

PROPERTY_LEMMAS = {'C13': [CNT_POS, DEG_POS]}
CONTRACTS = [BUILD]
