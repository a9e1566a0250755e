"""Contracts of Neighbourhood.h: the candidate lists of a growing coarse cell."""
import z3
from z3 import And, Or, Not, Implies, ForAll, Exists, If, Select, Int, Ints, IntVal, MultiPattern
from vf.contract import Contract, Loop, Given
from vf.types import get, sel
from vf.proofs import Lemma
from vf import types as T
from .util import ln, at, greater_def
from .graph import mem, ASET, AINT, IS

i, j, k, u, v, w = Ints('i j k u v w')
a_ = z3.Const('a', AINT)
lo_, hi_, x_ = Ints('lo hi x')

# FIRST(a, lo, hi, x): first position of x in a[lo..hi), hi when there is none
FIRST = z3.Function('first_at', AINT, IS, IS, IS, IS)
FIRST_AX = [ForAll([a_, lo_, hi_, x_], Implies(lo_ <= hi_, And(lo_ <= FIRST(a_, lo_, hi_, x_), FIRST(a_, lo_, hi_, x_) <= hi_,
                   Implies(FIRST(a_, lo_, hi_, x_) < hi_, Select(a_, FIRST(a_, lo_, hi_, x_)) == x_))), patterns=[FIRST(a_, lo_, hi_, x_)]),
            ForAll([a_, lo_, hi_, x_, i], Implies(And(lo_ <= i, i < hi_, Select(a_, i) == x_), FIRST(a_, lo_, hi_, x_) <= i),
                   patterns=[MultiPattern(FIRST(a_, lo_, hi_, x_), Select(a_, i))])]


def lo(q):
    return get(q, 'lo')


def hi(q):
    return get(q, 'hi')


def first(q, x):
    return FIRST(get(q, 'arr'), lo(q), hi(q), x)


def inq(q, x):
    return first(q, x) < hi(q)


PAIRT = 'std::pair<unsigned long, double>'
PAIR = T.sort_of(T.parse(PAIRT))
SETP = 'std::set<%s, comma::CustomPairGreaterFunctor<%s>>' % (PAIRT, PAIRT)
p_ = z3.Const('p', PAIR)


def pair(x, y):
    return T.mk(PAIR, x, y)


class N:
    """A neighbourhood object and the range of neighbours given to update_it."""

    def __init__(self, c):
        self.c = c
        self.S, self.F = c.f('_s_neighbours_of_seed', cls='Neighbourhood'), c.f('_s_fc', cls='Neighbourhood')
        self.C, self.wt = c.f('_candidates', cls='Neighbourhood'), c.f('_weights', cls='Neighbourhood')
        self.S0, self.F0, self.C0 = (c.of(n, cls='Neighbourhood') for n in ('_s_neighbours_of_seed', '_s_fc', '_candidates'))
        self.new = c.arg(0)
        b = c.arg(1)
        if hasattr(b, 'cont'):
            self.rng = c.ex.rv(c.st, b.cont)
            self.nb, self.ne = b.pos, c.arg(2).pos
        else:
            self.rng, self.nb, self.ne = b, IntVal(0), ln(b)

    def given(self, x, upto=None):
        """x is one of the neighbours passed (before position upto)"""
        e = self.ne if upto is None else upto
        return FIRST(get(self.rng, 'arr'), self.nb, e, x) < e

    def pr(self, x):
        return pair(x, at(self.wt, x))

    def ok(self, x, F=None):
        return And(mem(self.S, x), Not(mem(self.F if F is None else F, x)))


def distinct(q):
    return ForAll([i, j], Implies(And(lo(q) <= i, i < j, j < hi(q)), at(q, i) != at(q, j)), patterns=[MultiPattern(at(q, i), at(q, j))])


def eligible(n, q, F):
    return ForAll([i], Implies(And(lo(q) <= i, i < hi(q)), And(mem(n.S, at(q, i)), Not(mem(F, at(q, i))))), patterns=[at(q, i)])


def added(c):
    n = N(c)
    return ForAll([u], mem(n.F, u) == Or(mem(n.F0, u), u == n.new), patterns=[mem(n.F, u), mem(n.F0, u)])


def ordered(n, q, start):
    return ForAll([i, j], Implies(And(start <= i, i < j, j < hi(q)), greater_def(n.pr(at(q, i)), n.pr(at(q, j)))), patterns=[MultiPattern(at(q, i), at(q, j))])


COMMON = [('weights of the neighbourhood exist', lambda c: ForAll([u], Implies(mem(N(c).S, u), And(0 <= u, u < ln(N(c).wt))), patterns=[mem(N(c).S, u)]))]


# ------------------------------------------------------------- extended
def kept_len(n):
    return hi(n.C0) - If(inq(n.C0, n.new), 1, 0)


def ext_kept(c, C=None):
    """the old candidates without the added cell, in the same order"""
    n = N(c)
    C = n.C if C is None else C
    p = first(n.C0, n.new)
    return And(lo(C) == lo(n.C0), hi(C) >= kept_len(n),
               ForAll([i], Implies(And(lo(n.C0) <= i, i < p), at(C, i) == at(n.C0, i)), patterns=[at(C, i), at(n.C0, i)]),
               ForAll([i], Implies(And(p <= i, i < kept_len(n)), at(C, i) == at(n.C0, i + 1)), patterns=[at(C, i)]),
               ForAll([i], Implies(And(p < i, i < hi(n.C0)), at(C, i - 1) == at(n.C0, i)), patterns=[at(n.C0, i)]))


def ext_new(c):
    """what is appended: eligible given neighbours that were no candidates, in priority order"""
    n = N(c)
    return And(ForAll([i], Implies(And(kept_len(n) <= i, i < hi(n.C)), And(n.ok(at(n.C, i)), n.given(at(n.C, i)), Not(inq(n.C0, at(n.C, i))))), patterns=[at(n.C, i)]),
               ordered(n, n.C, kept_len(n)))


def ext_all(c):
    n = N(c)
    return ForAll([k], Implies(And(n.nb <= k, k < n.ne, n.ok(at(n.rng, k))), inq(n.C, at(n.rng, k))), patterns=[at(n.rng, k)])


def ext_members(c):
    n = N(c)
    return ForAll([u], inq(n.C, u) == Or(And(inq(n.C0, u), u != n.new), And(n.given(u), n.ok(u))), patterns=[first(n.C, u)])


def _W(c, name, nth=0):
    return c.v(name, SETP, nth)


def collected(c, W, upto, extra=lambda n, x: True):
    """the set of pairs holds the eligible neighbours given so far, with their weights"""
    n = N(c)
    x = get(p_, 'first')
    return (ForAll([p_], mem(W, p_) == And(n.given(x, upto), n.ok(x), extra(n, x), get(p_, 'second') == at(n.wt, x)), patterns=[mem(W, p_)]),
               ForAll([k], Implies(And(n.nb <= k, k < upto, n.ok(at(n.rng, k)), extra(n, at(n.rng, k))), mem(W, n.pr(at(n.rng, k)))), patterns=[at(n.rng, k)]))


def _not_kept(n, x):
    return Or(Not(inq(n.C0, x)), x == n.new)


def _listing(c):
    """cells of the set appended so far, in its order"""
    it = c.counter_value()
    C, C0 = c.f('_candidates', cls='Neighbourhood'), c.ef('_candidates', cls='Neighbourhood')
    return And(lo(C) == lo(C0), hi(C) == hi(C0) + c.k,
               ForAll([i], Implies(And(lo(C0) <= i, i < hi(C0)), at(C, i) == at(C0, i)), patterns=[at(C, i), at(C0, i)]),
               ForAll([i], Implies(And(hi(C0) <= i, i < hi(C)), at(C, i) == get(it.enum.at(i - hi(C0)), 'first')), patterns=[at(C, i)]),
               ForAll([i], Implies(And(0 <= i, i < c.k), at(C, hi(C0) + i) == get(it.enum.at(i), 'first')), patterns=[it.enum.at(i)]))


RANGE = [(1, 2, 'std::vector<unsigned long>')]
EXTENDED = Contract(
    'Neighbourhood_Extended::update_it', props=('C11', 'C18'), ranges=RANGE,
    requires=COMMON + [('candidates are different', lambda c: distinct(N(c).C)), ('candidates are eligible', lambda c: eligible(N(c), N(c).C, N(c).F))],
    ensures=[('the cell is added', added), ('earlier candidates stay in order', ext_kept), ('new candidates in priority order', ext_new),
             ('every eligible neighbour is a candidate', ext_all), ('exactly the eligible ones', ext_members),
             ('candidates are different', lambda c: distinct(N(c).C)), ('candidates are eligible', lambda c: eligible(N(c), N(c).C, N(c).F))],
    modifies=['_s_fc', '_candidates'], axioms=FIRST_AX,
    loops={0: Loop([('eligible neighbours so far', lambda c: collected(c, _W(c, 'neighs'), c.k, _not_kept)[0]),
                    ('all of them', lambda c: collected(c, _W(c, 'neighs'), c.k, _not_kept)[1])]),
           1: Loop([('listed so far', _listing)])})


# ------------------------------------------------------------- pure front
class Q(N):
    def __init__(self, c):
        super().__init__(c)
        self.Q, self.Q0 = c.f('_q_neighs_w_weights', cls='Neighbourhood_Pure_Front'), c.of('_q_neighs_w_weights', cls='Neighbourhood_Pure_Front')
        self.dim = c.f('_dimension', cls='Neighbourhood_Pure_Front')

    def some_level(self, p, upto=None):
        """one of the levels (up to a position) holds the pair p"""
        return Exists([j], And(lo(self.Q) <= j, j < (hi(self.Q) if upto is None else upto), mem(at(self.Q, j), p)), patterns=[mem(at(self.Q, j), p)])


def levels_ok(n, q, F):
    """pairs of the levels carry the weight of their cell, which is eligible"""
    x = get(p_, 'first')
    return ForAll([i, p_], Implies(And(lo(q) <= i, i < hi(q), mem(at(q, i), p_)), And(get(p_, 'second') == at(n.wt, x), n.ok(x, F))), patterns=[mem(at(q, i), p_)])


def front_levels(c):
    """one more level: the eligible neighbours of the added cell; the others lose that cell"""
    n = Q(c)
    x = get(p_, 'first')
    new = at(n.Q, lo(n.Q))
    return And(lo(n.Q) == lo(n.Q0) - 1, hi(n.Q) == hi(n.Q0),
               ForAll([p_], mem(new, p_) == And(n.given(x), n.ok(x), get(p_, 'second') == at(n.wt, x)), patterns=[mem(new, p_)]),
               ForAll([k], Implies(And(n.nb <= k, k < n.ne, n.ok(at(n.rng, k))), mem(new, n.pr(at(n.rng, k)))), patterns=[at(n.rng, k)]),
               ForAll([i, p_], Implies(And(lo(n.Q0) <= i, i < hi(n.Q0)), mem(at(n.Q, i), p_) == And(mem(at(n.Q0, i), p_), x != n.new)),
                      patterns=[mem(at(n.Q, i), p_), mem(at(n.Q0, i), p_)]))


def cand(n, x):
    return inq(n.C, x)


def size(q):
    return hi(q) - lo(q)


def front_first(c):
    """as long as few cells were added, all levels count"""
    n = Q(c)
    x = get(p_, 'first')
    few = size(n.Q) <= n.dim
    return Implies(few, And(ForAll([i, p_], Implies(And(lo(n.Q) <= i, i < hi(n.Q), mem(at(n.Q, i), p_)), cand(n, x)), patterns=[mem(at(n.Q, i), p_)])))


def front_some_level(c):
    """only cells of the levels are candidates"""
    n = Q(c)
    return ForAll([i], Implies(And(lo(n.C) <= i, i < hi(n.C)), n.some_level(n.pr(at(n.C, i)))), patterns=[at(n.C, i)])


def front_last(c):
    """later the newest level alone, unless it is empty"""
    n = Q(c)
    x = get(p_, 'first')
    new = at(n.Q, lo(n.Q))
    return Implies(size(n.Q) > n.dim,
                   ForAll([p_], Implies(mem(new, p_), And(cand(n, x), ForAll([i], Implies(And(lo(n.C) <= i, i < hi(n.C)), mem(new, n.pr(at(n.C, i)))), patterns=[at(n.C, i)]))),
                          patterns=[mem(new, p_)]))


def nothing(q, cond):
    return ForAll([i, p_], Implies(And(lo(q) <= i, i < hi(q), cond(i)), Not(mem(at(q, i), p_))), patterns=[mem(at(q, i), p_)])


def front_never_empty(c):
    n = Q(c)
    return Implies(size(n.C) == 0, nothing(n.Q, lambda i: True))


def _purged(c):
    n = Q(c)
    x = get(p_, 'first')
    b, m = lo(n.Q0), lo(n.Q0) + c.k
    return And(lo(n.Q) == b, hi(n.Q) == hi(n.Q0),
               ForAll([i, p_], Implies(And(b <= i, i < m), mem(at(n.Q, i), p_) == And(mem(at(n.Q0, i), p_), x != n.new)), patterns=[mem(at(n.Q, i), p_), mem(at(n.Q0, i), p_)]),
               ForAll([i], Implies(And(m <= i, i < hi(n.Q0)), at(n.Q, i) == at(n.Q0, i)), patterns=[at(n.Q, i), at(n.Q0, i)]))


def _joined(c):
    """all pairs of the levels visited so far"""
    n = Q(c)
    W = _W(c, 'curr_set')
    m = lo(n.Q) + c.k
    return And(ForAll([p_], Implies(mem(W, p_), And(n.some_level(p_, m), get(p_, 'second') == at(n.wt, get(p_, 'first')))), patterns=[mem(W, p_)]),
               ForAll([i, p_], Implies(And(lo(n.Q) <= i, i < m, mem(at(n.Q, i), p_)), mem(W, p_)), patterns=[mem(at(n.Q, i), p_)]))


def _searched(c):
    n = Q(c)
    f, b = c.v('cur_front', 'unsigned long', 0), c.v('cur_back', 'unsigned long', 1)
    z = lo(n.Q)
    return And(f + b == size(n.Q) - 1, 0 <= f, f <= b + 2, size(n.C) == 0, size(n.Q) > n.dim,
               nothing(n.Q, lambda i: Or(i < z + f, i > z + b)))


PURE_FRONT = Contract(
    'Neighbourhood_Pure_Front::update_it', props=('C11', 'C18'), ranges=RANGE,
    requires=COMMON + [('levels hold eligible cells', lambda c: levels_ok(Q(c), Q(c).Q, Q(c).F)), ('dimension', lambda c: Q(c).dim >= 2)],
    ensures=[('the cell is added', added), ('levels', front_levels), ('levels hold eligible cells', lambda c: levels_ok(Q(c), Q(c).Q, Q(c).F)),
             ('all levels at first', front_first), ('candidates come from the levels', front_some_level), ('then the newest level', front_last),
             ('candidates in priority order', lambda c: ordered(Q(c), Q(c).C, lo(Q(c).C))), ('not empty while a level has a cell', front_never_empty),
             ('candidates are different', lambda c: distinct(N(c).C)), ('candidates are eligible', lambda c: eligible(N(c), N(c).C, N(c).F))],
    modifies=['_s_fc', '_candidates', '_q_neighs_w_weights'], axioms=FIRST_AX,
    loops={0: Loop([('cell taken out of the levels so far', _purged)]),
           1: Loop([('eligible neighbours so far', lambda c: collected(c, _W(c, 'curr_set'), c.k)[0]), ('all of them', lambda c: collected(c, _W(c, 'curr_set'), c.k)[1])]),
           2: Loop([('levels joined so far', _joined)]), 3: Loop([('listed so far', _listing)]),
           4: Loop([('levels before are empty', _searched)], variant=lambda c: c.v('cur_back', 'unsigned long') + 1 - c.v('cur_front', 'unsigned long')), 5: Loop([('listed so far', _listing)]), 6: Loop([('listed so far', _listing)])})


def calls_update_it(base):
    """update(cell, neighbours) does what update_it does for the whole vector"""
    cls = base.name.split('::')[0]
    return Contract('Neighbourhood::update', props=('C11',), dyn=cls, only_check=True, requires=base.requires, ensures=base.ensures,
                    modifies=[('heap', 'Neighbourhood::_s_fc', 'std::unordered_set<unsigned long>'), ('heap', 'Neighbourhood::_candidates', 'std::deque<unsigned long>')]
                    + ([('heap', 'Neighbourhood_Pure_Front::_q_neighs_w_weights', 'std::deque<%s>' % SETP)] if base is PURE_FRONT else []), axioms=FIRST_AX)


def starts_empty(cls, nargs, more=()):
    def blank(c):
        n = lambda f: c.f(f, cls='Neighbourhood')
        return And(get(n('_s_fc'), 'card') == 0, size(n('_candidates')) == 0, n('_s_neighbours_of_seed') == c.arg(0), n('_weights') == c.arg(1),
                   *([size(c.f('_q_neighs_w_weights', cls=cls)) == 0, c.f('_dimension', cls=cls) == c.arg(2)] if more else []))
    return Contract('%s::%s' % (cls, cls), props=('C11',), only_check=True, frame=False, ensures=[('starts empty on the given neighbourhood', blank)],
                    accepts=lambda ex, f: len(ex.params(f)) == nargs)


def candidates_lemma():
    """Repeated use of the two contracts gives the statement about whole histories."""
    B = z3.BoolSort()
    fun = lambda n, k=1: z3.Function(n, *([IS] * k + [B]))
    S, F, F1, C, C1, given, ADJ = fun('S'), fun('F'), fun('F1'), fun('C'), fun('C1'), fun('given'), fun('ADJ', 2)
    LV, LV1, Y = fun('LV', 2), fun('LV1', 2), z3.Function('added_at', IS, IS)
    new, x, y, l, n = Ints('new x y l n')
    elig = lambda F, x: And(S(x), Not(F(x)))
    inv = lambda C, F: ForAll([x], C(x) == And(elig(F, x), Exists([y], And(F(y), ADJ(y, x)))))
    step = [ForAll([x], F1(x) == Or(F(x), x == new)), ForAll([x], given(x) == ADJ(new, x))]
    # levels are counted from the oldest cell; level l belongs to the cell added_at(l)
    linv = lambda LV, F, n: And(n >= 0, ForAll([l, x], Implies(And(0 <= l, l < n), LV(l, x) == And(elig(F, x), ADJ(Y(l), x)))),
                                ForAll([y], F(y) == Exists([l], And(0 <= l, l < n, Y(l) == y))))
    return Lemma('candidate lists over whole histories', None, [
        ('extended: empty at first', [], [ForAll([x], Not(F(x))), ForAll([x], Not(C(x)))], inv(C, F)),
        ('extended: kept by an addition', [], step + [inv(C, F), ForAll([x], C1(x) == Or(And(C(x), x != new), And(given(x), elig(F1, x))))], inv(C1, F1)),
        ('pure front: empty at first', [], [ForAll([x], Not(F(x))), n == 0], linv(LV, F, n)),
        ('pure front: kept by an addition', [], step + [linv(LV, F, n), Y(n) == new, ForAll([x], LV1(n, x) == And(given(x), elig(F1, x))),
                                                       ForAll([l, x], Implies(And(0 <= l, l < n), LV1(l, x) == And(LV(l, x), x != new)))], linv(LV1, F1, n + 1)),
        ('pure front: empty levels mean nothing is eligible', [], [linv(LV, F, n), ForAll([l, x], Implies(And(0 <= l, l < n), Not(LV(l, x)))), elig(F, x), F(y), ADJ(y, x)], z3.BoolVal(False))])


PROPERTY_LEMMAS = {'C11': [candidates_lemma()]}
CLASSES = {'Neighbourhood': 1, 'Neighbourhood_Extended': 1, 'Neighbourhood_Pure_Front': 1}
CONTRACTS = [EXTENDED, PURE_FRONT, calls_update_it(EXTENDED), calls_update_it(PURE_FRONT), starts_empty('Neighbourhood_Extended', 2), starts_empty('Neighbourhood_Pure_Front', 3, 1)]
