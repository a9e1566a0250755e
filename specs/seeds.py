"""Contracts of Seeds_Pool.h: which free cell is the next seed."""
import z3
from z3 import And, Or, Not, Implies, ForAll, Exists, If, Select, Int, Ints, IntVal, MultiPattern
from vf.contract import Contract, Loop, Given
from vf.types import get, sel
from vf.proofs import Lemma
from vf import types as T
from .util import ln, at, greater_def
from .graph import mem, IS
from vf.stl import LOWEST
from .neigh import lo, hi, size, PAIR, PAIRT, SETP, pair, p_

i, j, k, l, u, v = Ints('i j k l u v')
LEVELS = 4


class P:
    """A seeds pool; agg is the vector of agglomerated flags when given."""

    def __init__(self, c, agg=None):
        self.c = c
        f = lambda n: c.f(n, cls='Seeds_Pool')
        o = lambda n: c.of(n, cls='Seeds_Pool')
        self.L, self.L0 = f('_l_of_seeds'), o('_l_of_seeds')
        self.top, self.top0 = f('_cur_top_queue'), o('_cur_top_queue')
        self.bnd, self.wt = f('_n_bnd_faces'), f('_priority_weights')
        self.n = ln(self.bnd)
        self.agg = agg

    def cell(self, x):
        return And(0 <= x, x < self.n)

    def free(self, x):
        return And(self.cell(x), Not(at(self.agg, x)))

    def b(self, x):
        return at(self.bnd, x)

    def pr(self, x):
        return pair(x, at(self.wt, x))

    def better(self, x, y):
        return greater_def(self.pr(x), self.pr(y))


def has(o):
    return get(o, 'has')


def val(o):
    return get(o, 'val')


def sizes(p):
    """data of the pool: one queue per number of boundary faces"""
    return And(ln(p.L) == LEVELS, ln(p.wt) == p.n,
               ForAll([u], Implies(p.cell(u), And(0 <= p.b(u), p.b(u) < LEVELS)), patterns=[p.b(u)]))


def level(l):
    return And(0 <= l, l < LEVELS)


def queued_cells(p, L=None):
    L = p.L if L is None else L
    return ForAll([l, i], Implies(And(level(l), lo(at(L, l)) <= i, i < hi(at(L, l))), p.cell(at(at(L, l), i))), patterns=[at(at(L, l), i)])


def listed(p, q, start, pred, given=()):
    """q[start..) is the list of the cells with pred, best first"""
    return And(start <= hi(q),
               ForAll([i], Implies(And(start <= i, i < hi(q)), And(p.cell(at(q, i)), pred(at(q, i)))), patterns=[at(q, i)]),
               ForAll([i, j], Implies(And(start <= i, i < j, j < hi(q)), p.better(at(q, i), at(q, j))), patterns=[MultiPattern(at(q, i), at(q, j))]))


def same_part(q, q0, a, b):
    return ForAll([i], Implies(And(a <= i, i < b), at(q, i) == at(q0, i)), patterns=[at(q, i), at(q0, i)])


# ------------------------------------------------------------- spoil_queue
def spoiled(agg, q, q0, ret):
    """the agglomerated cells at the front are dropped; the first free one is taken"""
    m = lo(q)
    return And(hi(q) == hi(q0), lo(q0) <= m, get(q, 'arr') == get(q0, 'arr'),
               If(has(ret), And(m > lo(q0), at(q0, m - 1) == val(ret), Not(at(agg, val(ret))), ForAll([i], Implies(And(lo(q0) <= i, i < m - 1), at(agg, at(q0, i))), patterns=[at(q0, i)])),
                  And(m == hi(q0), ForAll([i], Implies(And(lo(q0) <= i, i < hi(q0)), at(agg, at(q0, i))), patterns=[at(q0, i)]))))


SPOIL = Contract(
    'Seeds_Pool::spoil_queue', props=('C07', 'C18'),
    requires=[('cells', lambda c: ForAll([i], Implies(And(lo(c.a(1)) <= i, i < hi(c.a(1))), And(0 <= at(c.a(1), i), at(c.a(1), i) < ln(c.a(0)))), patterns=[at(c.a(1), i)]))],
    ensures=[('first free cell of the queue', lambda c: spoiled(c.a(0), c.a(1), c.o(1), c.ret))],
    modifies=[1],
    loops={0: Loop([('dropped ones are agglomerated', lambda c: And(lo(c.old(1)) <= lo(c.arg(1)), hi(c.arg(1)) == hi(c.old(1)), get(c.arg(1), 'arr') == get(c.old(1), 'arr'), lo(c.arg(1)) <= hi(c.arg(1)),
                    ForAll([i], Implies(And(lo(c.old(1)) <= i, i < lo(c.arg(1))), at(c.arg(0), at(c.old(1), i))), patterns=[at(c.old(1), i)])))],
                   variant=lambda c: size(c.arg(1)))})


# ------------------------------------------------------------- highest free
def highest(c):
    p, r = P(c, c.a(0)), c.ret
    return And(Implies(Not(has(r)), ForAll([u], Implies(p.cell(u), at(p.agg, u)), patterns=[at(p.agg, u)])),
               Implies(has(r), And(Implies(val(r) < c.a(1), ForAll([u], Implies(p.free(u), p.b(u) <= val(r)), patterns=[p.b(u)])), level(val(r)))))


def _is_max(c, m, upto):
    p = P(c, c.arg(0))
    return And(ForAll([u], Implies(And(0 <= u, u < upto, Not(at(p.agg, u))), And(has(m), p.b(u) <= val(m))), patterns=[p.b(u), at(p.agg, u)]),
               Implies(has(m), And(level(val(m)), val(m) < c.arg(1))))


HIGHEST = Contract(
    'Seeds_Pool::get_highest_n_bnd_yet_to_agglomerate', props=('C07', 'C18'),
    requires=[('data', lambda c: sizes(P(c))), ('flags', lambda c: ln(c.a(0)) == P(c).n)],
    ensures=[('highest level of a free cell', highest),
             ('a free cell has it', lambda c: Implies(has(c.ret), Exists([u], And(P(c, c.a(0)).free(u), P(c).b(u) == val(c.ret)), patterns=[P(c).b(u)])))],
    loops={0: Loop([('highest so far', lambda c: _is_max(c, c.v('max_bnd', 'std::optional<int>', 0), c.k)),
                    ('a free cell has it', lambda c: Implies(has(c.v('max_bnd', 'std::optional<int>', 0)), Exists([u], And(0 <= u, u < c.k, Not(at(c.arg(0), u)), P(c).b(u) == val(c.v('max_bnd', 'std::optional<int>', 0))), patterns=[P(c).b(u)])))])})


# ------------------------------------------------------------- build_queue
def _tmp(c):
    return c.v('tmp_set', SETP, 0)


def _picked(c, p, W, pred):
    x = get(p_, 'first')
    return And(ForAll([p_], mem(W, p_) == And(0 <= x, x < c.k, pred(x), get(p_, 'second') == at(p.wt, x)), patterns=[mem(W, p_)]),
               ForAll([u], Implies(And(0 <= u, u < c.k, pred(u)), mem(W, p.pr(u))), patterns=[p.b(u)]))


def _appended(c, q, q0, k):
    it = c.counter_value()
    return And(lo(q) == lo(q0), hi(q) == hi(q0) + k, same_part(q, q0, lo(q0), hi(q0)),
               ForAll([i], Implies(And(hi(q0) <= i, i < hi(q)), at(q, i) == get(it.enum.at(i - hi(q0)), 'first')), patterns=[at(q, i)]),
               ForAll([i], Implies(And(0 <= i, i < k), at(q, hi(q0) + i) == get(it.enum.at(i), 'first')), patterns=[it.enum.at(i)]))


def others_same(p, l0, L=None, L0=None):
    L, L0 = p.L if L is None else L, p.L0 if L0 is None else L0
    return And(ln(L) == ln(L0), ForAll([l], Implies(And(level(l), l != l0), at(L, l) == at(L0, l)), patterns=[at(L, l), at(L0, l)]))


def holds_all(p, q, start, pred):
    """every cell with pred is in q[start..)"""
    return ForAll([u], Implies(And(p.cell(u), pred(u)), Exists([i], And(start <= i, i < hi(q), at(q, i) == u), patterns=[at(q, i)])), patterns=[p.b(u)])


def built(c, t):
    p = P(c, c.a(0))
    q, q0 = at(p.L, t), at(p.L0, t)
    pred = lambda x: And(Not(at(p.agg, x)), p.b(x) == t)
    return And(others_same(p, t), lo(q) == lo(q0), same_part(q, q0, lo(q0), hi(q0)), listed(p, q, hi(q0), pred), holds_all(p, q, hi(q0), pred))


BUILD = Contract(
    'Seeds_Pool::build_queue', props=('C07', 'C18'),
    requires=[('data', lambda c: sizes(P(c))), ('flags', lambda c: ln(c.a(0)) == P(c).n), ('level', lambda c: level(c.a(1)))],
    ensures=[('free cells of the level, best first', lambda c: built(c, c.a(1)))],
    modifies=['_l_of_seeds'],
    loops={0: Loop([('free cells of the level so far', lambda c: _picked(c, P(c, c.arg(0)), _tmp(c), lambda x: And(Not(at(c.arg(0), x)), P(c).b(x) == c.arg(1))))]),
           1: Loop([('queued so far', lambda c: And(others_same(P(c), c.arg(1)), _appended(c, at(P(c).L, c.arg(1)), at(P(c).L0, c.arg(1)), c.k)))])})


# ------------------------------------------------------------- boundary priority
def in_queue(L, l, i):
    return And(level(l), lo(at(L, l)) <= i, i < hi(at(L, l)))


def free_in_place(p, L=None):
    """a queued free cell is in the queue of its number of boundary faces"""
    L = p.L if L is None else L
    return ForAll([l, i], Implies(And(in_queue(L, l, i), Not(at(p.agg, at(at(L, l), i)))), p.b(at(at(L, l), i)) == l), patterns=[at(at(L, l), i)])


def top_level(p, top=None):
    top = p.top if top is None else top
    return Implies(has(top), level(val(top)))


def top_is_high(p, top=None):
    top = p.top if top is None else top
    return Implies(has(top), And(level(val(top)), ForAll([u], Implies(p.free(u), p.b(u) <= val(top)), patterns=[p.b(u)])))


def queues_drop(p, ret):
    """no queue loses a free cell other than the chosen one, and none loses its order"""
    def one(l):
        q, q0 = at(p.L, l), at(p.L0, l)
        drop = lambda i: Or(at(p.agg, at(q0, i)), And(has(ret), at(q0, i) == val(ret)))
        return Or(And(lo(q0) <= lo(q), hi(q) == hi(q0), same_part(q, q0, lo(q), hi(q0)), ForAll([i], Implies(And(lo(q0) <= i, i < lo(q), i < hi(q0)), drop(i)), patterns=[at(q0, i)])),
                  And(has(ret), ForAll([i], Implies(And(lo(q0) <= i, i < hi(q0)), at(p.agg, at(q0, i))), patterns=[at(q0, i)])))
    return And(ln(p.L) == LEVELS, *[one(IntVal(n)) for n in range(LEVELS)])


def choice(p, ret, q0):
    """the first free cell of the queue, or the best free cell of the level when the queue has none"""
    x = val(ret)
    m = hi(q0)
    return Or(Exists([j], And(lo(q0) <= j, j < m, at(q0, j) == x, ForAll([i], Implies(And(lo(q0) <= i, i < j), at(p.agg, at(q0, i))), patterns=[at(q0, i)])), patterns=[at(q0, j)]),
              And(ForAll([i], Implies(And(lo(q0) <= i, i < m), at(p.agg, at(q0, i))), patterns=[at(q0, i)]),
                  ForAll([u], Implies(And(p.free(u), p.b(u) == p.b(x), u != x), p.better(x, u)), patterns=[p.b(u)])))


def pool(c):
    return P(c, c.a(0))


STATE = [('data', lambda c: sizes(P(c)))]
FLAGS = [('flags', lambda c: ln(c.a(0)) == P(c).n)]
BINV = [('queued are cells', lambda c: queued_cells(P(c))), ('free cells queued in their level', lambda c: free_in_place(pool(c))), ('top level', lambda c: top_is_high(pool(c)))]
NOTHING_FREE = lambda c: Implies(And(has(P(c).top0), Not(has(c.ret))), ForAll([u], Implies(P(c).cell(u), at(c.a(0), u)), patterns=[at(c.a(0), u)]))
A_FREE_CELL = lambda c: Implies(has(c.ret), pool(c).free(val(c.ret)))
POOLF = [('heap', 'Seeds_Pool::_l_of_seeds', 'std::vector<std::deque<unsigned long>>'), ('heap', 'Seeds_Pool::_cur_top_queue', 'std::optional<int>')]

CHOOSE_B = Contract(
    'Seeds_Pool_Boundary_Priority::choose_new_seed', props=('C07', 'C18'),
    requires=STATE + FLAGS + BINV,
    ensures=[('a free cell', A_FREE_CELL), ('nothing only when no cell is free', NOTHING_FREE),
             ('most boundary faces', lambda c: Implies(has(c.ret), ForAll([u], Implies(pool(c).free(u), P(c).b(u) <= P(c).b(val(c.ret))), patterns=[P(c).b(u)]))),
             ('earliest queued or best of its level', lambda c: Implies(has(c.ret), choice(pool(c), c.ret, at(P(c).L0, P(c).b(val(c.ret)))))),
             ('queues keep their free cells', lambda c: queues_drop(pool(c), c.ret)), ('top stays', lambda c: has(P(c).top) == has(c.ret))] + STATE + BINV,
    modifies=POOLF)


# ------------------------------------------------------------- neighbourhood priority
def all_agg(p, q):
    return ForAll([i], Implies(And(lo(q) <= i, i < hi(q)), at(p.agg, at(q, i))), patterns=[at(q, i)])


def none_above(p, L=None, top=None):
    """queues above the current one hold no free cell"""
    L, top = p.L if L is None else L, p.top if top is None else top
    return Implies(has(top), And(level(val(top)), ForAll([l, i], Implies(And(in_queue(L, l, i), l > val(top)), at(p.agg, at(at(L, l), i))), patterns=[at(at(L, l), i)])))


def queued_first(p, ret):
    """the first free cell of the highest queue that has one; the best cell of its level only when no queued cell is free"""
    x = val(ret)
    def from_queue(n):
        q0 = at(p.L0, n)
        return And(Exists([j], And(lo(q0) <= j, j < hi(q0), at(q0, j) == x, ForAll([i], Implies(And(lo(q0) <= i, i < j), at(p.agg, at(q0, i))), patterns=[at(q0, i)])), patterns=[at(q0, j)]),
                   *[all_agg(p, at(p.L0, m)) for m in range(n + 1, LEVELS)])
    return Or(*[from_queue(n) for n in range(LEVELS)],
              And(*[all_agg(p, at(p.L0, m)) for m in range(LEVELS)], ForAll([u], Implies(And(p.free(u), p.b(u) == p.b(x), u != x), p.better(x, u)), patterns=[p.b(u)])))


NINV = [('queued are cells', lambda c: queued_cells(P(c))), ('nothing free above the current queue', lambda c: none_above(pool(c)))]


def _searched(c):
    """queues above the visited one were emptied, the others are as before"""
    p = P(c, c.arg(0))
    m = LEVELS - 1 - c.k       # level visited now
    return And(ln(p.L) == LEVELS, p.top == p.top0, 0 <= c.k, c.k <= LEVELS,
               ForAll([l], Implies(And(0 <= l, l <= m), at(p.L, l) == at(p.L0, l)), patterns=[at(p.L, l), at(p.L0, l)]),
               ForAll([l, i], Implies(And(level(l), l > m, lo(at(p.L0, l)) <= i, i < hi(at(p.L0, l))), at(p.agg, at(at(p.L0, l), i))), patterns=[at(at(p.L0, l), i)]),
               ForAll([l], Implies(And(level(l), l > m), And(lo(at(p.L0, l)) <= lo(at(p.L, l)), hi(at(p.L, l)) == hi(at(p.L0, l)), get(at(p.L, l), 'arr') == get(at(p.L0, l), 'arr'))), patterns=[at(p.L, l), at(p.L0, l)]))


CHOOSE_N = Contract(
    'Seeds_Pool_Neighbourhood_Priority::choose_new_seed', props=('C07', 'C18'),
    requires=STATE + FLAGS + NINV,
    ensures=[('a free cell', A_FREE_CELL), ('nothing only when no cell is free', NOTHING_FREE),
             ('queued cells first', lambda c: Implies(has(c.ret), queued_first(pool(c), c.ret))),
             ('queues keep their free cells', lambda c: queues_drop(pool(c), c.ret)), ('top stays', lambda c: has(P(c).top) == has(c.ret))] + STATE + NINV,
    modifies=POOLF, loops={0: Loop([('higher queues have no free cell', _searched)])})


# ------------------------------------------------------------- what every operation keeps
ANY = z3.Const('any_flags', T.sort_of(T.parse('std::vector<bool>')))


def kept(inv, given=lambda p: z3.BoolVal(True)):
    """inv(pool, queues, top) holds afterwards if it held before, whatever cells are agglomerated"""
    def f(c):
        p = P(c, ANY)
        return Implies(And(inv(p, p.L0, p.top0), given(p)), inv(p, p.L, p.top))
    return f


def high(p, top):
    return top_is_high(p, top)


KEEP_CELLS = ('queued stay cells', kept(lambda p, L, t: queued_cells(p, L)))
KEEP_B = [KEEP_CELLS, ('free cells stay queued in their level', kept(lambda p, L, t: free_in_place(p, L))), ('top stays high', kept(lambda p, L, t: top_is_high(p, t), lambda p: has(p.top0)))]
KEEP_N = [KEEP_CELLS, ('nothing free above the current queue', kept(lambda p, L, t: none_above(p, L, t)))]
KEEP_INIT = [KEEP_CELLS, ('free cells stay queued in their level', kept(lambda p, L, t: free_in_place(p, L), lambda p: top_is_high(p))),
             ('top stays high', kept(lambda p, L, t: top_is_high(p, t))), ('nothing free above the current queue', kept(lambda p, L, t: none_above(p, L, t), lambda p: Or(has(p.top0), pool_empty(p, p.L0))))]


# ------------------------------------------------------------- updates
AINT = z3.ArraySort(IS, IS)
# PLACE(seeds, boundary faces, cap, first, j, l): how many of seeds[first..j) go to queue l
PLACE = z3.Function('place', AINT, AINT, IS, IS, IS, IS, IS)
_s, _b = z3.Consts('s b', AINT)
PLACE_AX = [ForAll([_s, _b, i, j, l], PLACE(_s, _b, i, j, j, l) == 0, patterns=[PLACE(_s, _b, i, j, j, l)])]


def capped(p, cap, x):
    return If(p.b(x) <= cap, p.b(x), cap)


class Up:
    """update(seeds): each seed goes to the end of its queue"""

    def __init__(self, c, seeds, cap):
        self.p, self.s, self.cap = P(c), seeds, cap
        self.place = lambda j, l: PLACE(get(seeds, 'arr'), get(self.p.bnd, 'arr'), cap, lo(seeds), j, l)

    def lev(self, j):
        return capped(self.p, self.cap, at(self.s, j))

    def done(self, m, L=None):
        """state after the seeds before position m"""
        p, L = self.p, self.p.L if L is None else L
        q, q0 = (lambda l: at(L, l)), (lambda l: at(p.L0, l))
        at_ = self.place(j, self.lev(j))
        return And(ln(L) == LEVELS,
                   *[And(lo(q(IntVal(n))) == lo(q0(IntVal(n))), self.place(m, IntVal(n)) >= 0, hi(q(IntVal(n))) == hi(q0(IntVal(n))) + self.place(m, IntVal(n)),
                         same_part(q(IntVal(n)), q0(IntVal(n)), lo(q0(IntVal(n))), hi(q0(IntVal(n)))),
                         ForAll([i], Implies(And(hi(q0(IntVal(n))) <= i, i < hi(q(IntVal(n)))), And(p.cell(at(q(IntVal(n)), i)), capped(p, self.cap, at(q(IntVal(n)), i)) == n)), patterns=[at(q(IntVal(n)), i)]),
                         ForAll([j], Implies(And(lo(self.s) <= j, j < m, self.lev(j) == n),
                                             And(0 <= self.place(j, IntVal(n)), self.place(j, IntVal(n)) < self.place(m, IntVal(n)), at(q(IntVal(n)), hi(q0(IntVal(n))) + self.place(j, IntVal(n))) == at(self.s, j))),
                                patterns=[at(self.s, j)])) for n in range(LEVELS)])

    def definition(self, m):
        """PLACE from m to m + 1"""
        return And(*[And(self.place(m + 1, IntVal(n)) == self.place(m, IntVal(n)) + If(self.lev(m) == n, 1, 0)) for n in range(LEVELS)])


def cap_n(p):
    return If(has(p.top0), val(p.top0), IntVal(LEVELS - 1))


def seed_cells(c):
    s = c.a(0)
    return ForAll([i], Implies(And(lo(s) <= i, i < hi(s)), P(c).cell(at(s, i))), patterns=[at(s, i)])


def top_after(c):
    """the current queue is at least as high as every new seed"""
    p, s = P(c), c.a(0)
    return And(Implies(has(p.top0), And(has(p.top), val(p.top) >= val(p.top0))), Implies(size(s) > 0, has(p.top)), Implies(has(p.top), level(val(p.top))),
               ForAll([i], Implies(And(lo(s) <= i, i < hi(s)), And(has(p.top), p.b(at(s, i)) <= val(p.top))), patterns=[at(s, i)]),
               Implies(And(has(p.top), Or(Not(has(p.top0)), val(p.top) != val(p.top0))), Or(val(p.top) == 0, Exists([i], And(lo(s) <= i, i < hi(s), p.b(at(s, i)) == val(p.top)), patterns=[at(s, i)]))))


def _upd_loop(cap):
    def inv(c):
        p = P(c)
        up = Up(c, c.arg(0), cap(p))
        m = lo(c.arg(0)) + c.k
        return up.done(m)
    return inv


def _upd_step(cap):
    def inv(c):
        up = Up(c, c.arg(0), cap(P(c)))
        return up.definition(lo(c.arg(0)) + c.k)
    return inv


def _max_so_far(c):
    p, s, m = P(c), c.arg(0), c.v('max_bnd', 'int', 0)
    return And(p.top == p.top0, level(m), ForAll([i], Implies(And(lo(s) <= i, i < lo(s) + c.k), p.b(at(s, i)) <= m), patterns=[at(s, i)]),
               Or(m == 0, Exists([i], And(lo(s) <= i, i < lo(s) + c.k, p.b(at(s, i)) == m), patterns=[at(s, i)])))


def _fills(cap):
    """the queue of the first seed is not empty"""
    def f(c):
        p, s = P(c), c.a(0)
        up = Up(c, s, cap(p))
        return And(*[Implies(And(size(s) > 0, up.lev(lo(s)) == n), size(at(p.L, IntVal(n))) > 0) for n in range(LEVELS)])
    return f


def _filled(cap):
    def f(c):
        p, s = P(c), c.arg(0)
        up = Up(c, s, cap(p))
        return And(*[Implies(And(c.k > 0, up.lev(lo(s)) == n), size(at(p.L, IntVal(n))) > 0) for n in range(LEVELS)])
    return f


UPDATE_B = Contract(
    'Seeds_Pool_Boundary_Priority::update', props=('C07', 'C18'),
    requires=STATE + [('seeds are cells', seed_cells), ('top level', lambda c: top_level(P(c)))],
    ensures=[('each seed at the end of its queue', lambda c: Up(c, c.a(0), IntVal(LEVELS - 1)).done(hi(c.a(0)))), ('something is queued', _fills(lambda p: IntVal(LEVELS - 1))), ('top', top_after)] + KEEP_B,
    modifies=POOLF, axioms=PLACE_AX,
    loops={0: Loop([('queued so far', _upd_loop(lambda p: IntVal(LEVELS - 1))), ('queue of the first seed', _filled(lambda p: IntVal(LEVELS - 1))), ('highest so far', _max_so_far)], assumes=[_upd_step(lambda p: IntVal(LEVELS - 1))])})
UPDATE_N = Contract(
    'Seeds_Pool_Neighbourhood_Priority::update', props=('C07', 'C18'),
    requires=STATE + [('seeds are cells', seed_cells), ('top level', lambda c: top_level(P(c)))],
    ensures=[('each seed at the end of its queue', lambda c: Up(c, c.a(0), cap_n(P(c))).done(hi(c.a(0)))), ('something is queued', _fills(cap_n)), ('top', lambda c: P(c).top == P(c).top0)] + KEEP_N,
    modifies=POOLF[:1], axioms=PLACE_AX,
    loops={0: Loop([('queued so far', _upd_loop(cap_n)), ('queue of the first seed', _filled(cap_n))], assumes=[_upd_step(cap_n)])})



# ------------------------------------------------------------- ordered updates
MAPT = 'std::map<int, %s, std::greater<void>>' % SETP


def before(p, x, y):
    """order in which a set of new seeds is queued: more boundary faces first, then priority"""
    return Or(p.b(x) > p.b(y), And(p.b(x) == p.b(y), p.better(x, y)))


def ordered_in(p, S, cap, L, done=lambda x: True):
    """every queue keeps its cells and gets the new seeds of its level (those that are done), in order"""
    out = [ln(L) == LEVELS]
    for n in range(LEVELS):
        q, q0 = at(L, IntVal(n)), at(p.L0, IntVal(n))
        out += [lo(q) == lo(q0), hi(q) >= hi(q0), same_part(q, q0, lo(q0), hi(q0)),
                ForAll([i], Implies(And(hi(q0) <= i, i < hi(q)), And(mem(S, at(q, i)), done(at(q, i)), capped(p, cap, at(q, i)) == n)), patterns=[at(q, i)]),
                ForAll([i, j], Implies(And(hi(q0) <= i, i < j, j < hi(q)), before(p, at(q, i), at(q, j))), patterns=[MultiPattern(at(q, i), at(q, j))]),
                ForAll([u], Implies(And(mem(S, u), done(u), capped(p, cap, u) == n), Exists([i], And(hi(q0) <= i, i < hi(q), at(q, i) == u), patterns=[at(q, i)])), patterns=[mem(S, u)])]
    return And(*out)


def _grouped(c):
    """the visited seeds by number of boundary faces"""
    p = P(c)
    M = c.v('new_seeds_by_bnd', MAPT, 0)
    it = c.counter_value()
    x = get(p_, 'first')
    vis = lambda x: And(mem(c.arg(0), x), it.enum.pos(x) < c.k)
    mv = lambda b: Select(get(M, 'val'), b)
    return And(ForAll([l, p_], Implies(mem(M, l), mem(mv(l), p_) == And(vis(x), p.b(x) == l, get(p_, 'second') == at(p.wt, x))), patterns=[mem(mv(l), p_)]),
               ForAll([i], Implies(And(0 <= i, i < c.k), And(mem(M, p.b(it.enum.at(i))), mem(mv(p.b(it.enum.at(i))), p.pr(it.enum.at(i))))), patterns=[it.enum.at(i)]),
               ForAll([l], Implies(mem(M, l), And(level(l), Exists([u], And(vis(u), p.b(u) == l), patterns=[p.b(u)]))), patterns=[mem(M, l)]),
               p.top == p.top0, p.L == p.L0)


def _queued_groups(cap):
    def inv(c):
        p = P(c)
        it = c.counter_value()
        done = lambda x: it.enum.pos(p.b(x)) < c.k
        return And(ordered_in(p, c.arg(0), cap(p), p.L, done))
    return inv


def _grp_top(c):
    return P(c).top == P(c, None).c.ef('_cur_top_queue', cls='Seeds_Pool')


def set_cells(c):
    return ForAll([u], Implies(mem(c.a(0), u), P(c).cell(u)), patterns=[mem(c.a(0), u)])


def top_after_set(c):
    p, s = P(c), c.a(0)
    return And(Implies(has(p.top0), And(has(p.top), val(p.top) >= val(p.top0))), Implies(has(p.top), level(val(p.top))),
               ForAll([u], Implies(mem(s, u), And(has(p.top), p.b(u) <= val(p.top))), patterns=[mem(s, u)]),
               Implies(And(has(p.top), Or(Not(has(p.top0)), val(p.top) != val(p.top0))), Exists([u], And(mem(s, u), p.b(u) == val(p.top)), patterns=[p.b(u)])))


ORDER_B = Contract(
    'Seeds_Pool_Boundary_Priority::order_new_seeds_and_update', props=('C07', 'C18'),
    requires=STATE + [('seeds are cells', set_cells), ('top level', lambda c: top_level(P(c)))],
    ensures=[('seeds queued in order', lambda c: ordered_in(P(c), c.a(0), IntVal(LEVELS - 1), P(c).L)), ('top', top_after_set)] + KEEP_B,
    modifies=POOLF,
    loops={0: Loop([('grouped so far', _grouped)]), 1: Loop([('groups queued so far', _queued_groups(lambda p: IntVal(LEVELS - 1)))])})
ORDER_N = Contract(
    'Seeds_Pool_Neighbourhood_Priority::order_new_seeds_and_update', props=('C07', 'C18'),
    requires=STATE + [('seeds are cells', set_cells), ('top level', lambda c: top_level(P(c)))],
    ensures=[('seeds queued in order', lambda c: ordered_in(P(c), c.a(0), cap_n(P(c)), P(c).L)), ('top', lambda c: P(c).top == P(c).top0)] + KEEP_N,
    modifies=POOLF[:1],
    loops={0: Loop([('grouped so far', _grouped)]), 1: Loop([('groups queued so far', _queued_groups(cap_n))])})


# ------------------------------------------------------------- initialisation
class Given4(P):
    """the arguments of an initialiser"""

    def __init__(self, c):
        self.c, self.wt, self.bnd = c, c.arg(0), c.arg(1)
        self.n = ln(self.bnd)


def args_ok(c):
    p = Given4(c)
    return And(ln(p.wt) == p.n)


def appended_all(c):
    p, t, q, q0 = Given4(c), c.a(2), c.a(3), c.o(3)
    pred = lambda x: p.b(x) >= t
    return And(lo(q) == lo(q0), same_part(q, q0, lo(q0), hi(q0)), listed(p, q, hi(q0), pred), holds_all(p, q, hi(q0), pred))


def best_of(p, x, t):
    return And(p.cell(x), p.b(x) >= t, ForAll([u], Implies(And(p.cell(u), p.b(u) >= t, u != x), p.better(x, u)), patterns=[p.b(u)]))


def appended_best(c):
    p, t, q, q0 = Given4(c), c.a(2), c.a(3), c.o(3)
    return And(lo(q) == lo(q0), hi(q) == hi(q0) + 1, same_part(q, q0, lo(q0), hi(q0)),
               Implies(Exists([u], And(p.cell(u), p.b(u) >= t), patterns=[p.b(u)]), best_of(p, at(q, hi(q0)), t)))


def _best_so_far(c):
    p, t, m = Given4(c), c.arg(2), c.v('cur_max', PAIRT, 0)
    x = get(m, 'first')
    upto = lambda u: And(0 <= u, u < c.k, p.b(u) >= t)
    return And(Or(And(upto(x), m == p.pr(x)), And(x == 2 ** 64 - 1, get(m, 'second') == LOWEST)),
               ForAll([u], Implies(upto(u), And(upto(x), Or(u == x, p.better(x, u)))), patterns=[p.b(u)]))


def finite(c):
    p = Given4(c)
    return And(p.n < 2 ** 64 - 1, ForAll([u], Implies(p.cell(u), at(p.wt, u) >= LOWEST), patterns=[at(p.wt, u)]))


FULL = Contract('SPFullInitializator::operator()', props=('C07', 'C18'), requires=[('sizes', args_ok)],
                ensures=[('cells at or above the level, best first', appended_all)], modifies=[3],
                loops={0: Loop([('cells so far', lambda c: _picked(c, Given4(c), _tmp(c), lambda x: Given4(c).b(x) >= c.arg(2)))]),
                       1: Loop([('queued so far', lambda c: _appended(c, c.arg(3), c.old(3), c.k))])})
ONE = Contract('SPOnePointInitializator::operator()', props=('C07', 'C18'), requires=[('sizes', args_ok), ('weights are finite numbers', finite)],
               ensures=[('the best cell at or above the level', appended_best)], modifies=[3],
               loops={0: Loop([('best so far', _best_so_far)])})


def queue_empty(q):
    return lo(q) >= hi(q)


def pool_empty(p, L):
    return And(*[queue_empty(at(L, IntVal(n))) for n in range(LEVELS)])


EMPTY = Contract('Seeds_Pool::is_empty', props=('C07', 'C18'), requires=STATE + [('level or all', lambda c: And(0 <= c.a(0), c.a(0) <= LEVELS))],
                 ensures=[('whether the queue, or every queue, is empty', lambda c: c.ret == And(*[Implies(Or(c.a(0) == n, c.a(0) == LEVELS), queue_empty(at(P(c).L, IntVal(n)))) for n in range(LEVELS)]))])


def needs_b(c):
    p = pool(c)
    first = Or(pool_empty(p, p.L), Not(has(p.top0)))
    above = Exists([u], And(p.free(u), p.b(u) > val(p.top0)), patterns=[p.b(u)])
    return And(c.ret == Or(first, above), Implies(Or(first, Not(c.ret)), p.top == p.top0), Implies(Not(first), And(has(p.top), val(p.top) >= val(p.top0), top_is_high(p))),
               Implies(And(Not(first), c.ret), Exists([u], And(p.free(u), p.b(u) == val(p.top)), patterns=[p.b(u)])))


def needs_n(c):
    p = P(c)
    return And(c.ret == Or(pool_empty(p, p.L), Not(has(p.top0))), p.top == p.top0)


NEEDS_B = Contract('Seeds_Pool_Boundary_Priority::need_initialization', props=('C07', 'C18'), requires=STATE + FLAGS + [('top level', lambda c: top_level(P(c)))],
                   ensures=[('when nothing is queued, or a free cell has more boundary faces than the current queue', needs_b)], modifies=POOLF[1:])
NEEDS_N = Contract('Seeds_Pool_Neighbourhood_Priority::need_initialization', props=('C07', 'C18'), requires=STATE,
                   ensures=[('when nothing is queued', needs_n)], modifies=POOLF[1:])


def initial_top(p):
    """the given current queue, else the highest number of boundary faces of a cell"""
    t = val(p.top)
    return And(has(p.top), level(t), Implies(has(p.top0), p.top == p.top0),
               Implies(Not(has(p.top0)), And(ForAll([u], Implies(p.cell(u), p.b(u) <= t), patterns=[p.b(u)]), Exists([u], And(p.cell(u), p.b(u) == t), patterns=[p.b(u)]))))


def init_full(c):
    p = P(c)
    q, q0 = at(p.L, val(p.top)), at(p.L0, val(p.top))
    pred = lambda x: p.b(x) >= val(p.top)
    return And(others_same(p, val(p.top)), lo(q) == lo(q0), same_part(q, q0, lo(q0), hi(q0)), listed(p, q, hi(q0), pred), holds_all(p, q, hi(q0), pred))


def init_one(c):
    p = P(c)
    q, q0 = at(p.L, val(p.top)), at(p.L0, val(p.top))
    return And(others_same(p, val(p.top)), lo(q) == lo(q0), hi(q) == hi(q0) + 1, same_part(q, q0, lo(q0), hi(q0)),
               Implies(Exists([u], And(p.cell(u), p.b(u) >= val(p.top)), patterns=[p.b(u)]), best_of(p, at(q, hi(q0)), val(p.top))))


def initialises(cls, what, req=()):
    def setup(ex, st, this, args):
        ptr = ex.read(st, ex.field(st, this, '_initializator', 'Seeds_Pool'))
        st.dyn[ptr.sexpr()] = cls
    return Contract('Seeds_Pool::initialize', props=('C07', 'C18'), only_check=True, setup=setup,
                    requires=STATE + [('top level', lambda c: top_level(P(c))), ('some cell', lambda c: P(c).n > 0), ('initialiser', lambda c: c.f('_initializator', cls='Seeds_Pool') != 0)] + list(req),
                    ensures=[('current queue', lambda c: initial_top(P(c))), ('cells put in the current queue', what)] + KEEP_INIT, modifies=POOLF)


def finite_pool(c):
    p = P(c)
    return And(p.n < 2 ** 64 - 1, ForAll([u], Implies(p.cell(u), at(p.wt, u) >= LOWEST), patterns=[at(p.wt, u)]))


INIT_FULL = initialises('SPFullInitializator', init_full)
INIT_ONE = initialises('SPOnePointInitializator', init_one, [('weights are finite numbers', finite_pool), ('a cell reaches the current queue', lambda c: Implies(has(P(c).top), Exists([u], And(P(c).cell(u), P(c).b(u) >= val(P(c).top)), patterns=[P(c).b(u)])))])


ONE_POINT = z3.Function('is_one_point_initializator', z3.IntSort(), z3.BoolSort())      # of the class SPOnePointInitializator


def initialiser(c):
    r = c.f('_initializator', cls='Seeds_Pool')
    cls = c.st.dyn.get(r.sexpr())
    return c.arg(2) == (ONE_POINT(r) if cls is None else z3.BoolVal(cls == 'SPOnePointInitializator'))


def starts_empty(cls):
    def blank(c):
        p = P(c)
        return And(sizes_given(c), pool_empty(p, p.L), ln(p.L) == LEVELS, Not(has(p.top)), p.bnd == c.arg(0), p.wt == c.arg(1))

    def sizes_given(c):
        return c.f('_initializator', cls='Seeds_Pool') != 0

    return Contract('%s::%s' % (cls, cls), props=('C07',), only_check=True, frame=False, ensures=[('starts empty on the given data', blank), ('the initialiser asked for', initialiser)],
                    accepts=lambda ex, f: len(ex.params(f)) == 3)



class Plain(P):
    """a pool made of constants"""

    def __init__(self, agg):
        cst = lambda n, t: z3.Const(n, T.sort_of(T.parse(t)))
        self.L, self.top = cst('queues', 'std::vector<std::deque<unsigned long>>'), cst('top', 'std::optional<int>')
        self.bnd, self.wt = cst('bnd', 'std::vector<int>'), cst('wt', 'std::vector<double>')
        self.L0, self.top0, self.n, self.agg = self.L, self.top, ln(self.bnd), agg


def history_lemma():
    """between two operations of the pool cells only become agglomerated"""
    a, b = Plain(ANY), Plain(z3.Const('later_flags', ANY.sort()))
    more = [ForAll([u], Implies(at(a.agg, u), at(b.agg, u)), patterns=[at(b.agg, u)]), ForAll([u], Implies(at(a.agg, u), at(b.agg, u)), patterns=[at(a.agg, u)])]
    return Lemma('invariants of the pool while cells are agglomerated', None,
                 [(nm, [], more + [inv(a)], inv(b)) for nm, inv in (('free cells queued in their level', free_in_place), ('top level', top_is_high), ('nothing free above the current queue', none_above))]
                 + [('an empty pool: ' + nm, [], [pool_empty(a, a.L), Not(has(a.top))], inv(a)) for nm, inv in (('free cells queued in their level', free_in_place), ('top level', top_is_high), ('nothing free above the current queue', none_above), ('queued are cells', queued_cells))])


PROPERTY_LEMMAS = {'C07': [history_lemma()]}
CLASSES = {'Seeds_Pool': 1, 'Seeds_Pool_Boundary_Priority': 1, 'Seeds_Pool_Neighbourhood_Priority': 1, 'SPInitializator': 1, 'SPFullInitializator': 1, 'SPOnePointInitializator': 1}
CONTRACTS = [SPOIL, HIGHEST, BUILD, CHOOSE_B, CHOOSE_N, UPDATE_B, UPDATE_N, ORDER_B, ORDER_N, FULL, ONE, EMPTY, NEEDS_B, NEEDS_N, INIT_FULL, INIT_ONE, starts_empty('Seeds_Pool_Boundary_Priority'), starts_empty('Seeds_Pool_Neighbourhood_Priority')]
