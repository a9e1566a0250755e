"""Contracts of the isotropic agglomeration (Agglomerator.h): one coarse cell grown from a
seed, and the loop over the seeds."""
import z3
from z3 import And, Or, Not, Implies, ForAll, Exists, If, Select, Store, Int, Ints, IntVal, MultiPattern
from vf.contract import Contract, Loop
from vf.exec import Obj
from vf.types import get, parse, sort_of
from vf.proofs import Lemma
from vf import types as T
from .util import ln, at
from .graph import mem, G, ASET, AINT, IS, cells_of, CNT, CNT_AX, mc, MC, MC_DEF, PREDS, preds_def
from .neigh import lo, hi, size
from .features import Mesh, ESYM, ESYM_AX, _cntrow, one, plus, ADD_ONE, ABSENT
from .container import SYM, SYM_DEF, CONN, conn_def, cut, CONN_ONE, MARKS, EDGE, FLIP, inside
from .coarse import CNT_POS, NONNEG
from .grow import (THE, mesh, H, TAG, MAKES, CLOSED, CLOSED_AX, closed_def, NB_HEAP, MESH, right, cand_ok, computer, AGG, ISO, SETT, MAPT, CONN_GROW, SHARES)
from . import seeds
from .seeds import P, STATE, FLAGS, A_FREE_CELL, NOTHING_FREE, POOLF, ANY, has

i, j, k, l, u, v, w, x, m = Ints('i j k l u v w x m')
_S, _F, _T, _M, _R = (z3.Const('i' + n, ASET) for n in 'SFTMR')
_r, _c, _V = (z3.Const('i' + n, AINT) for n in ('r', 'c', 'V'))
_n, _s = Ints('in is')

# ------------------------------------------------------------- the seeds pool
FLAGSORT = ANY.sort()
fl_, fl2_ = z3.Consts('fl fl2', FLAGSORT)
POOLS = {'_l_of_seeds': 'std::vector<std::deque<unsigned long>>', '_cur_top_queue': 'std::optional<int>', '_n_bnd_faces': 'std::vector<int>', '_priority_weights': 'std::vector<double>'}
POOL_TAG = z3.Function('class_of_pool', IS, IS)
POOL_SORTS = [IS] + [sort_of(parse(t)) for t in POOLS.values()]
POOL = z3.Function('pool_ok', *POOL_SORTS, FLAGSORT, z3.BoolSort())


class At:
    """The same context for another object."""

    def __init__(self, c, obj):
        self.c, self.this = c, obj

    def f(self, n, obj=None, cls=None):
        return self.c.f(n, obj=self.this if obj is None else obj, cls=cls)

    def of(self, n, obj=None, cls=None):
        return self.c.of(n, obj=self.this if obj is None else obj, cls=cls)

    def __getattr__(self, n):
        return getattr(self.c, n)


def pool_ok(c, fl, old=False, obj=None):
    """Stands for the invariant of the class of the pool, for given flags."""
    o = obj if obj is not None else c.this
    f = c.of if old else c.f
    return POOL(POOL_TAG(o.ref), *[f(n, obj=o, cls='Seeds_Pool') for n in POOLS], fl)


TOP_SET = ('a queue is current when a seed was found', lambda c: has(P(c).top) == has(c.ret))
CHOOSE_SEED = Contract(
    'Seeds_Pool::choose_new_seed', props=('C01', 'C07'), abstract=True,
    requires=STATE + FLAGS + [('abstract: invariant of the class', lambda c: pool_ok(c, c.a(0)))],
    ensures=[('a free cell', A_FREE_CELL), ('nothing only when no cell is free', NOTHING_FREE), TOP_SET] + STATE + [('abstract: invariant of the class', lambda c: pool_ok(c, c.a(0)))],
    modifies=POOLF)
SEEDS_ARE = ('seeds are cells', seeds.set_cells)
TOP_KEPT = ('a current queue stays one', lambda c: Implies(has(P(c).top0), has(P(c).top)))


def pool_kept(c, obj=None):
    new = pool_ok(c, fl_, obj=obj)
    top = c.of('_cur_top_queue', obj=obj if obj is not None else c.this, cls='Seeds_Pool')
    return ForAll([fl_], Implies(And(has(top), pool_ok(c, fl_, True, obj)), new), patterns=[new])


ORDER_SEEDS = Contract(
    'Seeds_Pool::order_new_seeds_and_update', props=('C01', 'C07'), abstract=True,
    requires=STATE + [SEEDS_ARE, ('abstract: some flags', lambda c: Exists([fl_], pool_ok(c, fl_), patterns=[pool_ok(c, fl_)])), ],
    ensures=STATE + [TOP_KEPT, ('abstract: kept', pool_kept)], modifies=POOLF)

PINV_B = [('queued are cells', lambda p, L, t: seeds.queued_cells(p, L)), ('free cells queued in their level', lambda p, L, t: seeds.free_in_place(p, L)), ('top level', lambda p, L, t: seeds.top_is_high(p, t))]
PINV_N = [('queued are cells', lambda p, L, t: seeds.queued_cells(p, L)), ('nothing free above the current queue', lambda p, L, t: seeds.none_above(p, L, t))]


def pool_impl(choose, order, inv):
    now = lambda f: lambda c: (lambda p: f(p, p.L, p.top))(P(c, c.a(0)))
    any_flags = lambda f: lambda c: (lambda p: f(p, p.L, p.top))(P(c, ANY))
    keeps = lambda f, k: lambda c: (lambda p: Implies(And(has(p.top0), *[g(p, p.L0, p.top0) for _, g in inv]), f(p, p.L, p.top)))(P(c, ANY))
    return [Contract(choose.name, props=('C07',), implements=CHOOSE_SEED, by=choose, requires=STATE + FLAGS + [('abstract: ' + n, now(f)) for n, f in inv],
                     ensures=CHOOSE_SEED.ensures[:-1] + [('abstract: ' + n, now(f)) for n, f in inv], modifies=POOLF),
            Contract(order.name, props=('C07',), implements=ORDER_SEEDS, by=order, requires=STATE + [SEEDS_ARE] + [('abstract: ' + n, any_flags(f)) for n, f in inv],
                     ensures=STATE + [TOP_KEPT] + [('abstract: ' + n, keeps(f, n)) for n, f in inv], modifies=POOLF)]


POOL_IMPLS = pool_impl(seeds.CHOOSE_B, seeds.ORDER_B, PINV_B) + pool_impl(seeds.CHOOSE_N, seeds.ORDER_N, PINV_N)

# --------------------------------------------------- one coarse cell from a seed
def _upto(m):
    return ForAll([v], Implies(And(Select(_M, v), Select(_V, v) <= m), Select(_T, v)), patterns=[Select(_M, v)])


_given = [preds_def(_r, _c, _M, _V, one(_s)), ForAll([u, k], Implies(And(Select(_T, u), Select(_r, u) <= k, k < Select(_r, u + 1), Select(_M, Select(_c, k))), Select(_T, Select(_c, k)))), Select(_T, _s)]
BALL = Lemma('a closed set with the seed has the whole ball (induction over the order)',
    ForAll([_r, _c, _M, _V, _s, _T], Implies(And(PREDS(_r, _c, _M, _V, one(_s)), CLOSED(_r, _c, _M, _T), Select(_T, _s)), ForAll([v], Implies(Select(_M, v), Select(_T, v)), patterns=[Select(_M, v)])),
           patterns=[MultiPattern(PREDS(_r, _c, _M, _V, one(_s)), CLOSED(_r, _c, _M, _T))]),
    [('none', [], _given, _upto(IntVal(0))), ('one order more', [], _given + [m >= 0, _upto(m)], _upto(m + 1))])
_T1, _T2 = z3.Const('iT1', ASET), z3.Const('iT2', ASET)
BALL_CONN = Lemma('the ball is connected',
    ForAll([_r, _c, _n, _M, _V, _s, _R], Implies(And(SYM(_r, _c, _n), PREDS(_r, _c, _M, _V, one(_s)), inside(_R, _n), ForAll([x], Select(_R, x) == Or(x == _s, Select(_M, x)), patterns=[Select(_R, x)])), CONN(_r, _c, _R)),
           patterns=[MultiPattern(SYM(_r, _c, _n), PREDS(_r, _c, _M, _V, one(_s)), CONN(_r, _c, _R))]),
    [('the side of the seed has an edge out', MARKS,
      [PREDS(_r, _c, _M, _V, one(_s)), ForAll([x], Select(_R, x) == Or(x == _s, Select(_M, x)), patterns=[Select(_R, x), Select(_M, x)]), Select(_R, v), Not(Select(_T, v)), Select(_T, _s),
       ForAll([x], Select(_T1, x) == And(Select(_T, x), Select(_R, x)), patterns=[Select(_T1, x), Select(_R, x)]), CLOSED(_r, _c, _M, _T1) == closed_def(_r, _c, _M, _T1),
       Implies(And(CLOSED(_r, _c, _M, _T1), Select(_T1, _s)), ForAll([v], Implies(Select(_M, v), Select(_T1, v)), patterns=[Select(_M, v)]))],
      Exists([u, k], And(Select(_R, u), Select(_T, u), Select(_r, u) <= k, k < Select(_r, u + 1), Select(_R, Select(_c, k)), Not(Select(_T, Select(_c, k)))))),
     ('edges go both ways', SYM_DEF + MARKS, [SYM(_r, _c, _n), inside(_R, _n), FLIP(u, k), Select(_R, u), Not(Select(_T, u)), Select(_r, u) <= k, k < Select(_r, u + 1), Select(_R, Select(_c, k)), Select(_T, Select(_c, k))],
      Exists([u, k], And(EDGE(u, k), Select(_R, u), Select(_T, u), Select(_r, u) <= k, k < Select(_r, u + 1), Select(_R, Select(_c, k)), Not(Select(_T, Select(_c, k)))))),
     ('by definition', [conn_def(_r, _c, _R)], [ForAll([_T], cut(_r, _c, _R, _T))], CONN(_r, _c, _R))])
PAIRED = Lemma('in a connected set of several cells every cell has a neighbour',
    ForAll([_r, _c, _S, u, v], Implies(And(CONN(_r, _c, _S), Select(_S, u), Select(_S, v), u != v), _cntrow(_S, _r, _c, u) > 0), patterns=[MultiPattern(CONN(_r, _c, _S), _cntrow(_S, _r, _c, u), Select(_S, v))]),
    [('the cell alone', [CNT_POS.statement], [cut(_r, _c, _S, _T), ForAll([x], Select(_T, x) == (x == u), patterns=[Select(_T, x), Select(_S, x)]), Select(_T, u), Select(_S, u), Select(_S, v), u != v], _cntrow(_S, _r, _c, u) > 0),
     ('by definition', [conn_def(_r, _c, _S)], [CONN(_r, _c, _S)], cut(_r, _c, _S, _T))])

# counting unfolds only where a marker asks for it
UPTO = z3.Function('row_up_to', IS, z3.BoolSort())
UPTO_AX = [ForAll([k], UPTO(k), patterns=[UPTO(k)])]
_lo, _hi = Ints('ilo ihi')
CNT_STEP = Lemma('a count, entry by entry', And(ForAll([_S, _c, _lo], CNT(_S, _c, _lo, _lo) == 0, patterns=[CNT(_S, _c, _lo, _lo)]),
    ForAll([_S, _c, _lo, _hi], Implies(And(UPTO(_hi), _lo <= _hi), CNT(_S, _c, _lo, _hi + 1) == CNT(_S, _c, _lo, _hi) + If(Select(_S, Select(_c, _hi)), 1, 0)), patterns=[MultiPattern(UPTO(_hi), CNT(_S, _c, _lo, _hi + 1))])),
    [('nothing', CNT_AX, [], CNT(_S, _c, _lo, _lo) == 0), ('one entry', CNT_AX, [_lo <= _hi], CNT(_S, _c, _lo, _hi + 1) == CNT(_S, _c, _lo, _hi) + If(Select(_S, Select(_c, _hi)), 1, 0))])

KEYS = Contract('d_keys_to_set', props=('C18',),
                ensures=[('the keys', lambda c: And(get(c.ret, 'mem') == get(c.a(0), 'mem'), get(c.ret, 'card') == get(c.a(0), 'card')))],
                loops={0: Loop([('keys so far', lambda c: (lambda R, it: And(get(R, 'card') == c.k, ForAll([u], mem(R, u) == And(mem(c.arg(0), u), it.enum.pos(u) < c.k), patterns=[mem(R, u), mem(c.arg(0), u)])))(c.v('s_neighbours_of_seed', SETT), c.counter_value()))])})


class A:
    """The agglomerator and what it works on."""

    def __init__(self, c):
        self.c = c
        f = lambda n: c.f(n, cls=AGG)
        self.min, self.goal, self.max, self.dim, self.least = f('_min_card'), f('_goal_card'), f('_max_card'), f('_dimension'), f('_min_neighbourhood')
        self.cc, self.pool = Obj(f('_cc_graph'), 'Coarse_Cell_Container'), Obj(f('_seeds_pool'), 'Seeds_Pool')
        self.agg = c.f('_is_fc_agglomerated', obj=self.cc, cls='Coarse_Cell_Container')
        self.g = mesh(c)

    def free(self, y):
        return Not(at(self.agg, y))

    def p(self):
        return P(At(self.c, self.pool))


CARDS = ('cardinalities', lambda c: And(A(c).goal > 1, A(c).min <= A(c).goal, A(c).goal <= A(c).max))
PARTS = MESH + [CARDS, ('dimension', lambda c: And(A(c).dim >= 2, A(c).least >= 0)), ('the parts exist', lambda c: And([And(y > 0, y < c.st.ghost['_limit']) for y in (A(c).cc.ref, A(c).pool.ref)])),
                ('one mark per cell', lambda c: ln(A(c).agg) == A(c).g.n), ('seeds pool of this graph', lambda c: And(A(c).p().n == A(c).g.n, seeds.sizes(A(c).p())))]
POOL_NOW = ('the pool is in order', lambda c: And(has(A(c).p().top), pool_ok(c, A(c).agg, obj=A(c).pool)))
CHOOSE_REQ = PARTS + [POOL_NOW, ('the seed is a free cell', lambda c: And(A(c).g.cell(c.a(0)), A(c).free(c.a(0)))), ('one weight per cell', lambda c: ln(c.a(1)) == A(c).g.n)]


def no_free_neighbour(c, S):
    a = A(c)
    y = at(a.g.col, k)
    return ForAll([u, k], Implies(And(mem(S, u), a.g.inrow(u, k), a.free(y)), mem(S, y)), patterns=[MultiPattern(mem(S, u), y)])


def conn(c, S):
    return CONN(mesh(c).r, mesh(c).c, get(S, 'mem'))


def free_cells(c, S):
    return ForAll([u], Implies(mem(S, u), And(A(c).g.cell(u), A(c).free(u))), patterns=[mem(S, u)])


CHOOSE_ENS = [('free cells', lambda c: free_cells(c, c.ret)), ('with the seed', lambda c: mem(c.ret, c.a(0))), ('connected', lambda c: conn(c, c.ret)),
              ('at most the maximum', lambda c: get(c.ret, 'card') <= A(c).max), ('fewer than the minimum only when no free cell is next to it', lambda c: Or(get(c.ret, 'card') >= A(c).min, no_free_neighbour(c, c.ret))),
              ('its compactness', lambda c: c.a(2) == mc(mesh(c), c.ret)),
              ('the pool stays in order', lambda c: And(has(A(c).p().top), seeds.sizes(A(c).p()), pool_ok(c, A(c).agg, obj=A(c).pool)))]


class B:
    """Locals of the growth loop."""

    def __init__(self, c, get_=None):
        f = get_ or c.v
        self.T, self.D, self.M = f('tmp_cc', SETT, 1), f('d_n_of_seed', MAPT, 0), f('cur_compact_by_fc', MAPT, 1)
        self.size, self.maxc, self.arg, self.max_ind = [f(n, 'int', q) for q, n in ((0, 'size_current_cc'), (3, 'max_compact'), (4, 'arg_min_card'), (5, 'max_ind'))]
        self.dict = f('dict_cc_in_creation')
        self.next, self.feats = f('next_cell', 'unsigned long', 0), f('cur_cc_feats')
        self.nb = Obj(f('neighbourhood'), 'Neighbourhood')


def D0(c):
    return c.e('d_n_of_seed', MAPT, 0)


def val(m, y):
    return Select(get(m, 'val'), y)


def g_cells(c):
    b, d0 = B(c), D0(c)
    return And(free_cells(c, b.T), ForAll([x], Implies(mem(b.T, x), Or(x == c.arg(0), mem(d0, x))), patterns=[mem(b.T, x)]), mem(b.T, c.arg(0)), get(b.T, 'card') == b.size, b.size >= 1, b.size <= b.max_ind)


def g_left(c):
    b, d0 = B(c), D0(c)
    return And(ForAll([x], mem(b.D, x) == And(mem(d0, x), Not(mem(b.T, x))), patterns=[mem(b.D, x)]), get(b.D, 'card') + b.size == get(d0, 'card') + 1)


def g_counts(c):
    b = B(c)
    return And(ForAll([u], mem(b.M, u) == mem(b.T, u), patterns=[mem(b.M, u), mem(b.T, u)]), get(b.M, 'card') == b.size,
               ForAll([u], Implies(mem(b.T, u), val(b.M, u) == mesh(c).inner(b.T, u)), patterns=[val(b.M, u), mem(b.T, u)]))


def g_neigh(c):
    b = B(c)
    n = H(c, b.nb)
    return And(n.inv(), b.nb.ref > 0, b.nb.ref < c.st.ghost['_limit'], TAG(b.nb.ref) == MAKES(c.f('_neigh_crtor', cls=ISO)), get(n.S, 'mem') == get(D0(c), 'mem'), n.wt == c.arg(1),
               get(b.T, 'mem') == Store(get(n.F, 'mem'), b.next, True), mem(b.T, b.next))


def g_stored(c):
    b, a = B(c), A(c)
    s_ = Int('s')
    S = get(val(b.dict, s_), 'first')
    return And(ForAll([s_], mem(b.dict, s_) == And(2 <= s_, s_ <= b.size, Or(a.min <= s_, s_ == b.max_ind)), patterns=[mem(b.dict, s_)]),
               ForAll([s_], Implies(mem(b.dict, s_), And(get(S, 'card') == s_, mem(S, c.arg(0)), conn(c, S))), patterns=[mem(b.dict, s_)]),
               ForAll([s_, x], Implies(And(mem(b.dict, s_), mem(S, x)), mem(b.T, x)), patterns=[mem(S, x)]))


def g_best(c):
    b = B(c)
    S = get(val(b.dict, b.arg), 'first')
    stored = mem(b.dict, b.arg)
    return And(b.maxc >= 0, If(b.maxc > 0, And(stored, b.maxc == mc(mesh(c), S)), ForAll([x], Not(mem(b.dict, x)), patterns=[mem(b.dict, x)])))


def _row(c):
    b, M0 = B(c), c.e('cur_compact_by_fc', MAPT, 1)
    g = mesh(c)
    pos = c.pos('neigh')
    return And(g.lo(b.next) <= pos, pos <= g.hi(b.next), c.v('argmin_compact', 'int', 8) == CNT(get(b.T, 'mem'), g.c, g.lo(b.next), pos),
               get(b.M, 'card') == get(M0, 'card'), ForAll([u], mem(b.M, u) == mem(M0, u), patterns=[mem(b.M, u)]),
               ForAll([u], Implies(mem(M0, u), val(b.M, u) == val(M0, u) + CNT(one(u), g.c, g.lo(b.next), pos)), patterns=[val(b.M, u)]))


def hint(c, fact, text):
    c.ex.oblige(c.st, fact, 'hint', getattr(c, 'node', None) or c.fn, text)
    c.st.assume(fact)


def _orders(m_of):
    def f(c):
        g, d = mesh(c), m_of(c)
        return PREDS(g.r, g.c, get(d, 'mem'), get(d, 'val'), one(c.arg(0)))
    return ('orders are reached one after another', f)


def _ball(c):
    """the cells met so far joined the seed"""
    S, d, it = c.v('s_current_cc', SETT, 0), D0(c), c.counter_value()
    return And(get(S, 'card') == 1 + c.k, ForAll([x], mem(S, x) == Or(x == c.arg(0), And(mem(d, x), it.enum.pos(x) < c.k)), patterns=[mem(S, x), mem(d, x)]))


def _whole(c):
    S, d = c.v('s_current_cc', SETT, 0), D0(c)
    hint(c, ForAll([x], mem(S, x) == Or(x == c.arg(0), mem(d, x)), patterns=[mem(S, x), mem(d, x)]), 'the whole ball')
    hint(c, inside(get(S, 'mem'), mesh(c).n), 'of cells')
    hint(c, conn(c, S), 'connected')


def _connected(c):
    """facts on the set with the new cell"""
    b, g = B(c), mesh(c)
    hint(c, conn(c, b.T), 'still connected')
    hint(c, ForAll([u], Implies(mem(b.T, u), g.inner(b.T, u) > 0), patterns=[mem(b.T, u)]), 'every cell has a neighbour inside')


def _grown(c):
    b, cur = B(c), c.v('cur_compact', 'int', 9)
    hint(c, g_counts(c), 'counts of the set so far')
    hint(c, cur == mc(mesh(c), b.T), 'compactness of the set so far')
    hint(c, cur > 0, 'which is not zero')
    hint(c, Implies(mem(b.dict, b.size), get(val(b.dict, b.size), 'first') == b.T), 'the set stored is the set so far')
    s_, d0 = Int('s'), c.h('dict_cc_in_creation')
    hint(c, ForAll([s_], Implies(And(mem(b.dict, s_), s_ != b.size), And(mem(d0, s_), get(val(b.dict, s_), 'first') == get(val(d0, s_), 'first'))), patterns=[mem(b.dict, s_)]), 'the other sets stay stored')
    hint(c, conn(c, b.T), 'the set so far is connected')


def _finished(c):
    b = B(c)
    hint(c, mem(b.dict, b.max_ind), 'the last set is stored')
    hint(c, mem(b.dict, b.arg), 'the best set is stored')


def cells_in(S, c):
    return ForAll([u], Implies(mem(S, u), mesh(c).cell(u)), patterns=[mem(S, u)])


def _orders_of(c):
    by = c.v('neighs_by_order')
    o_ = Int('o')
    return And(cells_in(c.v('neighs_not_found'), c), ForAll([o_, u], Implies(And(mem(by, o_), mem(val(by, o_), u)), mesh(c).cell(u)), patterns=[mem(val(by, o_), u)]))


def _queued(c):
    a = A(c)
    return And(a.p().n == a.g.n, seeds.sizes(a.p()), has(a.p().top), pool_ok(c, a.agg, obj=a.pool))


GROWN = ('features of the cell so far', lambda c: right(c, B(c).feats, get(B(c).T, 'mem')))
CHOOSE = Contract(
    'Agglomerator_Biconnected::choose_optimal_cc_and_update_seeds_pool', props=('C02', 'C03', 'C10'), allocates=True,
    requires=CHOOSE_REQ, ensures=CHOOSE_ENS, modifies=[2] + NB_HEAP + POOLF,
    axioms=CLOSED_AX + ESYM_AX + MC_DEF + UPTO_AX, lemmas=[CNT_STEP, BALL, BALL_CONN, PAIRED, CONN_GROW, CONN_ONE, ADD_ONE, ABSENT, NONNEG],
    loops={0: Loop([_orders(D0), ('the ball so far', _ball)], at_exit=_whole),
           1: Loop([_orders(D0), ('cells so far', g_cells), ('cells left', g_left), ('connected', lambda c: conn(c, B(c).T)), ('counts', g_counts), ('neighbourhood', g_neigh), GROWN,
                    ('stored sets', g_stored), ('best stored set', g_best)], at_exit=_finished, at_step=_grown, variant=lambda c: c.v('max_ind', 'int') - c.v('size_current_cc', 'int')),
           2: Loop([('row so far', _row)], at_body=lambda c: c.st.assume(UPTO(c.pos('neigh'))), at_exit=_connected),
           3: Loop([]), 4: Loop([]), 5: Loop([('neighbours are cells', _orders_of)]), 6: Loop([('pool in order', _queued)])})
CONTRACTS = [CHOOSE_SEED, ORDER_SEEDS] + POOL_IMPLS + [KEYS, CHOOSE]
