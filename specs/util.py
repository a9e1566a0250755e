"""Contracts of the free functions and comparison functors of Util.h."""
import z3
from z3 import And, Or, Not, Implies, ForAll, If, Select, Int, Ints, IntVal
from vf.proofs import Lemma
from vf import types as T
from vf.contract import Contract, Loop, Given
from vf.types import get, sel

i, j, k, m, u, v, w = Ints('i j k m u v w')


def ln(x):
    return get(x, 'len')


def at(x, p):
    return Select(get(x, 'arr'), p)


def qcells(x, body):
    return ForAll([i], Implies(And(0 <= i, i < ln(x)), body(i)), patterns=[at(x, i)])


# ------------------------------------------------------- C16 comparators
def first(p):
    return get(p, 'first')


def second(p):
    return get(p, 'second')


def less_def(a, b):
    return Or(second(a) < second(b), And(second(a) == second(b), first(a) > first(b)))


def greater_def(a, b):
    return Or(second(a) > second(b), And(second(a) == second(b), first(a) < first(b)))


LESS = Contract('CustomPairLessFunctor::operator()',
                ensures=[('ranks by value, then by larger index', lambda c: c.ret == less_def(c.a(0), c.a(1)))], props=('C16',))
GREATER = Contract('CustomPairGreaterFunctor::operator()',
                   ensures=[('ranks by value, then by smaller index', lambda c: c.ret == greater_def(c.a(0), c.a(1)))], props=('C16',))
SECOND = Contract('PairSecondBasedLessFunctor::operator()',
                  ensures=[('compares the values only', lambda c: c.ret == (second(c.a(0)) < second(c.a(1))))], props=('C16',))


def order_lemmas(pair_sort):
    a, b, d = (z3.Const(n, pair_sort) for n in 'abd')
    out = []
    for nm, r in (('less', less_def), ('greater', greater_def)):
        out += [('%s is irreflexive' % nm, [], Not(r(a, a))),
                ('%s is asymmetric' % nm, [r(a, b)], Not(r(b, a))),
                ('%s is transitive' % nm, [r(a, b), r(b, d)], r(a, d)),
                ('%s is total on different pairs' % nm, [a != b], Or(r(a, b), r(b, a)))]
    out.append(('the two orders are opposite', [], less_def(a, b) == greater_def(b, a)))
    return out


# ------------------------------------------------------------ C15 filter
def nedges(c, x):
    return at(c.arg(0), x + 1) - at(c.arg(0), x) + at(c.arg(1), x)


def allowed(c, x):
    n = nedges(c, x)
    return And(n > 0, Select(get(c.arg(2), 'mem'), n))


def filt(c):
    return c.arg(3)


def kept_sorted(c):
    f = filt(c)
    return ForAll([i, j], Implies(And(0 <= i, i < j, j < ln(f)), at(f, i) < at(f, j)), patterns=[z3.MultiPattern(at(f, i), at(f, j))])


def kept_match(c, n):
    f = filt(c)
    return ForAll([i], Implies(And(0 <= i, i < ln(f)), And(0 <= at(f, i), at(f, i) < n, allowed(c, at(f, i)))), patterns=[at(f, i)])


def kept_all(c, n):
    # ghost position function: where each matching cell is stored
    f = filt(c)
    return ForAll([j], Implies(And(0 <= j, j < n, allowed(c, j)), z3.Exists([i], And(0 <= i, i < ln(f), at(f, i) == j))),
                  patterns=[at(c.arg(1), j)])


FILTER = Contract(
    'filter_cells_by_n_edges', props=('C15', 'C18'),
    requires=[('one more offset than cells', lambda c: ln(c.a(0)) == ln(c.a(1)) + 1),
              ('offsets do not decrease', lambda c: ForAll([i], Implies(And(0 <= i, i + 1 < ln(c.a(0))), at(c.a(0), i) <= at(c.a(0), i + 1)), patterns=[at(c.a(0), i)])),
              ('offsets are not negative', lambda c: qcells(c.a(0), lambda x: at(c.a(0), x) >= 0)),
              ('boundary faces are not negative', lambda c: qcells(c.a(1), lambda x: at(c.a(1), x) >= 0))],
    ensures=[('increasing index order, each once', kept_sorted),
             ('only matching cells', lambda c: kept_match(c, ln(c.a(1)))),
             ('every matching cell', lambda c: kept_all(c, ln(c.a(1))))],
    modifies=[3],
    loops={0: Loop([('kept cells are increasing', kept_sorted),
                    ('kept cells are below the current one', lambda c: kept_match(c, c.k)),
                    ('no matching cell is skipped', lambda c: kept_all(c, c.k)),
                    ('current cell in range', lambda c: c.k <= ln(c.arg(1)))])})

# ----------------------------------------------------- C14 wall distance
# arguments: 0 offsets, 1 neighbours, 2 wall, 3 distance (output)
def csr(off, adj):
    n = ln(off) - 1
    return And(ln(off) >= 1, at(off, 0) == 0, at(off, n) == ln(adj),
               ForAll([i, j], Implies(And(0 <= i, i <= j, j <= n), And(0 <= at(off, i), at(off, i) <= at(off, j), at(off, j) <= ln(adj))),
                      patterns=[z3.MultiPattern(at(off, i), at(off, j))]),
               ForAll([k], Implies(And(0 <= k, k < ln(adj)), And(0 <= at(adj, k), at(adj, k) < n)), patterns=[at(adj, k)]))


def row(off, u, k):
    return And(at(off, u) <= k, k < at(off, u + 1))


def ncell(c):
    return ln(c.arg(0)) - 1


def dist(c):
    return c.arg(3)


def d_size(c):
    return ln(dist(c)) == ncell(c)


def d_wall(c, upto=None):
    d, wl = dist(c), c.arg(2)
    n = ln(wl) if upto is None else upto
    return ForAll([i], Implies(And(0 <= i, i < n), at(d, at(wl, i)) == 0), patterns=[at(wl, i)])


def d_only_wall(c, upto=None):
    d, wl = dist(c), c.arg(2)
    n = ln(wl) if upto is None else upto
    return ForAll([v], Implies(And(0 <= v, v < ncell(c), at(d, v) == 0), z3.Exists([i], And(0 <= i, i < n, at(wl, i) == v))), patterns=[at(d, v)])


def d_low(c):
    d = dist(c)
    return ForAll([v], Implies(And(0 <= v, v < ncell(c)), at(d, v) >= -1), patterns=[at(d, v)])


def relaxed(c, u, k):
    d, adj = dist(c), c.arg(1)
    return And(at(d, at(adj, k)) >= 0, at(d, at(adj, k)) <= at(d, u) + 1)


def d_step(c):
    return ForAll([u, k], Implies(And(0 <= u, u < ncell(c), at(dist(c), u) >= 0, row(c.arg(0), u, k)), relaxed(c, u, k)),
                  patterns=[z3.MultiPattern(at(dist(c), u), at(c.arg(1), k))])


def d_pred(c):
    d = dist(c)
    return ForAll([v], Implies(And(0 <= v, v < ncell(c), at(d, v) > 0),
                               z3.Exists([u, k], And(0 <= u, u < ncell(c), row(c.arg(0), u, k), at(c.arg(1), k) == v, at(d, u) == at(d, v) - 1))),
                  patterns=[at(d, v)])


def queue(c):
    return c.v('to_visit', 'std::queue<unsigned long>')


def q_range(c):
    q, d = queue(c), dist(c)
    return And(0 <= get(q, 'lo'), get(q, 'lo') <= get(q, 'hi'),
               ForAll([i], Implies(And(0 <= i, i < get(q, 'hi')), And(0 <= at(q, i), at(q, i) < ncell(c), at(d, at(q, i)) >= 0)), patterns=[at(q, i)]))


def q_sorted(c):
    q, d = queue(c), dist(c)
    return ForAll([i, j], Implies(And(0 <= i, i <= j, j < get(q, 'hi')), at(d, at(q, i)) <= at(d, at(q, j))), patterns=[z3.MultiPattern(at(q, i), at(q, j))])


def q_near(c, front):
    q, d = queue(c), dist(c)
    return ForAll([j], Implies(And(0 <= j, j < get(q, 'hi'), front < get(q, 'hi')), at(d, at(q, j)) <= at(d, at(q, front)) + 1), patterns=[at(q, j)])


def q_all(c):
    q, d = queue(c), dist(c)
    return ForAll([v], Implies(And(0 <= v, v < ncell(c), at(d, v) >= 0), z3.Exists([i], And(0 <= i, i < get(q, 'hi'), at(q, i) == v))), patterns=[at(d, v)])


def q_done(c, upto):
    q = queue(c)
    return ForAll([i, k], Implies(And(0 <= i, i < upto, row(c.arg(0), at(q, i), k)), relaxed(c, at(q, i), k)),
                  patterns=[z3.MultiPattern(at(q, i), at(c.arg(1), k))])


def cur_pos(c):
    return get(queue(c), 'lo') - 1


WALL = Contract(
    'compute_neighbourhood_based_wall_distance', props=('C14', 'C18'),
    requires=[('compressed rows', lambda c: csr(c.a(0), c.a(1))),
              ('wall cells exist', lambda c: ForAll([i], Implies(And(0 <= i, i < ln(c.a(2))), And(0 <= at(c.a(2), i), at(c.a(2), i) < ncell(c))), patterns=[at(c.a(2), i)]))],
    ensures=[('one distance per cell', d_size), ('at least -1', d_low), ('wall cells have distance zero', d_wall),
             ('only wall cells have distance zero', d_only_wall),
             ('neighbours differ by at most one step', d_step),
             ('a cell with positive distance has a neighbour one step closer', d_pred)],
    modifies=[3],
    loops={0: Loop([('size', d_size), ('at least -1', lambda c: ForAll([v], Implies(And(0 <= v, v < ncell(c)), Or(at(dist(c), v) == -1, at(dist(c), v) == 0)), patterns=[at(dist(c), v)])),
                    ('walls so far', lambda c: d_wall(c, c.k)), ('only walls so far', lambda c: d_only_wall(c, c.k)),
                    ('queue cells', q_range), ('queue is complete', q_all), ('front', lambda c: get(queue(c), 'lo') == 0)]),
           1: Loop([('size', d_size), ('at least -1', d_low), ('walls', d_wall), ('only walls', d_only_wall),
                    ('queue cells', q_range), ('queue sorted by distance', q_sorted), ('queue within one step of its front', lambda c: q_near(c, get(queue(c), 'lo'))),
                    ('queue is complete', q_all), ('visited cells are relaxed', lambda c: q_done(c, get(queue(c), 'lo'))),
                    ('predecessors', d_pred)]),
           2: Loop([('size', d_size), ('at least -1', d_low), ('walls', d_wall), ('only walls', d_only_wall),
                    ('queue cells', q_range), ('queue sorted by distance', q_sorted),
                    ('current cell', lambda c: And(cur_pos(c) >= 0, at(queue(c), cur_pos(c)) == c.v('cur', 'unsigned long'),
                                                   c.v('cur_dist', 'int') == at(dist(c), c.v('cur', 'unsigned long')) + 1)),
                    ('queue within one step of the current cell', lambda c: q_near(c, cur_pos(c))),
                    ('queue is complete', q_all), ('visited cells are relaxed', lambda c: q_done(c, cur_pos(c))),
                    ('predecessors', d_pred),
                    ('row of the current cell', lambda c: And(at(c.arg(0), c.v('cur', 'unsigned long')) <= c.k, c.k <= at(c.arg(0), c.v('cur', 'unsigned long') + 1))),
                    ('relaxed so far', lambda c: ForAll([k], Implies(And(at(c.arg(0), c.v('cur', 'unsigned long')) <= k, k < c.k),
                                                                      relaxed(c, c.v('cur', 'unsigned long'), k)), patterns=[at(c.arg(1), k)]))])})

CONTRACTS = [LESS, GREATER, SECOND, FILTER, WALL]

PAIR = T.sort_of(T.parse('std::pair<unsigned long, double>'))

# the distances are the shortest path lengths: REACH(x, m) says that x can be
# reached from a wall cell in m steps
REACH = z3.Function('reach', z3.IntSort(), z3.IntSort(), z3.BoolSort())


def wall_lemma():
    c = Given(['std::vector<unsigned long>', 'std::vector<unsigned long>', 'std::vector<unsigned long>', 'std::vector<int>'])
    d = lambda x: at(c.a(3), x)
    cell = lambda x: And(0 <= x, x < ncell(c))
    # instances of the definition of REACH at one cell
    zero = lambda x: REACH(x, 0) == z3.Exists([i], And(0 <= i, i < ln(c.a(2)), at(c.a(2), i) == x))
    succ = lambda x, n: REACH(x, n + 1) == z3.Exists([u, k], And(cell(u), row(c.a(0), u, k), at(c.a(1), k) == x, REACH(u, n)))
    post = [g(c) for _, g in WALL.requires] + [g(c) for _, g in WALL.ensures]
    x, n = Ints('x n')
    upper = lambda n: ForAll([u], Implies(And(cell(u), REACH(u, n)), And(d(u) >= 0, d(u) <= n)), patterns=[REACH(u, n)])
    lower = lambda n: ForAll([u], Implies(And(cell(u), d(u) == n), REACH(u, n)), patterns=[d(u)])
    return Lemma('distance is the shortest path length', None, [
        ('no walk is shorter (no steps)', [], post + [cell(x), zero(x), REACH(x, 0)], And(d(x) >= 0, d(x) <= 0)),
        ('no walk is shorter (one more step)', [], post + [cell(x), n >= 0, upper(n), succ(x, n), REACH(x, n + 1)], And(d(x) >= 0, d(x) <= n + 1)),
        ('a walk of that length exists (no steps)', [], post + [cell(x), zero(x), d(x) == 0], REACH(x, 0)),
        ('a walk of that length exists (one more step)', [], post + [cell(x), n >= 0, lower(n), succ(x, n), d(x) == n + 1], REACH(x, n + 1))])


PROPERTY_LEMMAS = {'C16': [Lemma('ordering predicates', None, [(n, [], h, g) for n, h, g in order_lemmas(PAIR)])],
                   'C14': [wall_lemma()]}
