"""Contracts of the anisotropic agglomeration (Agglomerator.h): cutting of lines, export."""
import z3
from z3 import And, Or, Not, Implies, ForAll, Exists, If, Select, Store, Int, Ints, IntVal, MultiPattern
from vf.contract import Contract, Loop
from vf.exec import Obj
from vf import types as T
from vf.types import get, parse, sort_of
from vf.proofs import Lemma
from .util import ln, at
from .graph import mem, G, cells_of
from .neigh import lo, hi, size
from .container import K, INV, holds, SHARED, CONNECTED, CONN_ONE, MARKS, CELLS, right_compact, older, CT_AX
from .grow import CONN, CONN_GROW, AGG, MESH, mesh, THE
from .features import one, ADD_ONE, ESYM_AX, _cntrow
from .coarse import NONNEG
from .iso import A, At, P, hint, pool_ok, has
from . import seeds
from .poolinit import BLANK, blank
from .level import cc, part, Q, CC_HEAP, POOLF, STATE_CC, OURS, stays

N = 'Agglomerator_Anisotropic'
i, j, k, l, t, u, v, x, m = Ints('i j k l t u v x m')
DEQ = 'std::deque<unsigned long>'


class Lines:
    """The lines of a level (0 fine, 1 coarse) in a state."""

    def __init__(self, c, level, old=False, st=None):
        f = c.of if old else c.f
        self.all = f('_v_lines', cls=N)
        self.v = at(self.all, level)
        self.n = ln(self.v)
        s = st if st is not None else c.pre if old else c.st
        self.h = c.ex.named_heap(s, '*deque<unsigned long>', parse(DEQ))
        self.limit = s.ghost['_limit']

    def ptr(self, q):
        return at(self.v, q)

    def line(self, q):
        return Select(self.h, self.ptr(q))

    def real(self):
        return ForAll([t], Implies(And(0 <= t, t < self.n), And(0 < self.ptr(t), self.ptr(t) < self.limit, size(self.line(t)) >= 0)), patterns=[self.ptr(t)])


# ------------------------------------------------------------------ export
def listed_upto(c, idx, out, kk):
    L = Lines(c, c.a(0) if not hasattr(c, 'arg') else c.arg(0))
    a = at(idx, t)
    return And(ln(idx) == kk + 1, at(idx, 0) == 0, at(idx, kk) == ln(out),
               ForAll([t], Implies(And(0 <= t, t < kk), And(0 <= a, at(idx, t + 1) == a + size(L.line(t)))), patterns=[a]),
               ForAll([t, j], Implies(And(0 <= t, t < kk, 0 <= j, j < size(L.line(t))), And(a + j < ln(out), at(out, a + j) == at(L.line(t), lo(L.line(t)) + j))), patterns=[MultiPattern(a, at(L.line(t), lo(L.line(t)) + j))]))


def exported(c):
    L = Lines(c, c.a(0))
    some = And(c.f('_should_agglomerate', cls=N), L.n > 0)
    return If(some, listed_upto(c, c.a(1), c.a(2), L.n), And(ln(c.a(1)) == 0, ln(c.a(2)) == 0))


EXPORT = Contract(
    N + '::export_anisotropic_lines', props=('C06', 'C18'),
    requires=[('level', lambda c: And(0 <= c.a(0), c.a(0) < ln(c.f('_v_lines', cls=N)))), ('lines exist', lambda c: Lines(c, c.a(0)).real()),
              ('parts exist', lambda c: And(c.f('_cc_graph', cls=AGG) > 0, c.f('_fc_graph', cls=AGG) > 0))],
    ensures=[('offsets and lines, or nothing without lines', exported)], modifies=[1, 2],
    loops={0: Loop([('lines so far', lambda c: And(listed_upto(c, c.v('aniso_lines_idx'), c.v('aniso_lines'), c.k), c.v('idx', 'unsigned long', 0) == ln(c.v('aniso_lines'))))])})

# ----------------------------------------------------------------- cutting
GRAPH = [MESH[q] for q in (0, 1, 5, 6)]
IS, BS = z3.IntSort(), z3.BoolSort()
FWD, USED, NTH = z3.Function('from_the_front', IS, BS), z3.Function('cells_used', IS, IS), z3.Function('nth_of_line', IS, IS, IS)
PIECE = z3.Function('piece_of_line', sort_of(parse('std::unordered_set<unsigned long>')), IS, IS, IS, BS)      # see Cut.piece_def
KIND, HALF = z3.Function('kind_of_piece', IS, IS, IS), z3.Function('pieces_of_line', IS, IS)      # see Cut.kind_def, Cut.half_def
NEXT = z3.Function('next_in_line', IS, IS, BS)
CUTAT = z3.Function('cell_in_cutting_order', IS, IS, BS)      # marker, always true
CUTS = [ForAll([t, j], CUTAT(t, j), patterns=[CUTAT(t, j)])]
OWNER, PLACE = z3.Function('line_of', IS, IS), z3.Function('place_in_line', IS, IS)


def same_lines(c):
    """the fine lines are as before"""
    L, L0 = Lines(c, 0), Lines(c, 0, True)
    p = Int('p')
    return And(L.v == L0.v, ln(L.all) == ln(L0.all), ForAll([p], Implies(p < L0.limit, Select(L.h, p) == Select(L0.h, p)), patterns=[Select(L.h, p)]))


def cells_free(c, frm=None, part=None):
    L, q = Lines(c, 0), Q(c)
    return ForAll([t, i], Implies(And(0 <= t, t < L.n, lo(L.line(t)) <= i, i < hi(L.line(t))), q.fine(at(L.line(t), i))), patterns=[at(L.line(t), i)])


def distinct_cells(c):
    if not getattr(c, 'caller', False):     # said by the ghost functions line_of and place_in_line, which it lets exist
        return z3.BoolVal(True)
    L = Lines(c, 0)
    a, b = at(L.line(t), i), at(L.line(u), j)
    return ForAll([t, i, u, j], Implies(And(0 <= t, t < L.n, 0 <= u, u < L.n, lo(L.line(t)) <= i, i < hi(L.line(t)), lo(L.line(u)) <= j, j < hi(L.line(u)), a == b), And(t == u, i == j)), patterns=[MultiPattern(a, b)])


def adjacent_cells(c):
    """consecutive cells share a face; in the body used where the marker NEXT is set"""
    L, g = Lines(c, 0), mesh(c)
    a, b = at(L.line(t), i), at(L.line(t), i + 1)
    marked = [NEXT(t, i)] if getattr(c, 'caller', False) else []       # NEXT is always true
    return ForAll([t, i], Implies(And(0 <= t, t < L.n, lo(L.line(t)) <= i, i + 1 < hi(L.line(t)), *marked), _cntrow(one(a), g.r, g.c, b) > 0), patterns=[NEXT(t, i)])


LINES = [('two levels of lines', lambda c: And(ln(c.f('_v_lines', cls=N)) == 2, Lines(c, 1).n == 0)), ('lines exist', lambda c: Lines(c, 0).real()),
         ('lines of at least two cells', lambda c: (lambda L: ForAll([t], Implies(And(0 <= t, t < L.n), size(L.line(t)) >= 2), patterns=[L.ptr(t)]))(Lines(c, 0))),
         ('lines of cells', cells_free), ('no cell twice in the lines', distinct_cells), ('consecutive cells are adjacent', adjacent_cells)]


class Cut:
    """How one line is to be cut."""

    def __init__(self, c, t_):
        self.c, self.q, self.g, self.t = c, Q(c), mesh(c), t_
        self.L = Lines(c, 0, True).line(t_)
        self.n = size(self.L)
        self.odd, mx = c.f('_odd_line_length', cls=N), c.f('_max_cells_in_line', cls=N)
        self.cap, self.M = get(mx, 'has'), get(mx, 'val')
        self.named = not getattr(c, 'caller', False)
        self.used = USED(t_) if self.named else self.used_def()

    def used_def(self):
        eff = If(And(self.cap, self.M < self.n), self.M, self.n)
        return If(eff < 2, 0, If(And(eff % 2 == 1, Not(self.odd)), eff - 1, eff))

    def kind_def(self, n, used):
        return If(2 * n + 3 == used, IntVal(3), IntVal(2))

    def half_def(self):
        return self.used / 2

    def bnd(self, y):
        return at(self.g.bnd, y)

    def forward(self):
        wt = self.c.arg(3) if hasattr(self.c, 'arg') else self.c.a(3)
        a, b = at(self.L, lo(self.L)), at(self.L, hi(self.L) - 1)
        bnd, w = self.bnd, (lambda y: at(wt, y))
        return Or(bnd(a) > bnd(b), And(bnd(a) == bnd(b), Or(w(a) > w(b), And(w(a) == w(b), a < b))))

    def nth_def(self, q):
        return If(FWD(self.t) if self.named else self.forward(), at(self.L, lo(self.L) + q), at(self.L, hi(self.L) - 1 - q))

    def nth(self, q):
        return NTH(self.t, q)      # callers get its definition where they call: see name_cut

    def piece_def(self, S, n, k):
        """S is made of the two or three cells from the n-th pair on"""
        three = lambda y: Or(y == self.nth(2 * n), y == self.nth(2 * n + 1), And(k == 3, y == self.nth(2 * n + 2)))
        return And(get(S, 'card') == k, mem(S, self.nth(2 * n)), mem(S, self.nth(2 * n + 1)), Implies(k == 3, mem(S, self.nth(2 * n + 2))), ForAll([x], Implies(mem(S, x), three(x)), patterns=[mem(S, x)]))

    def piece(self, S, n, k):
        return PIECE(S, self.t, n, k) if self.named else self.piece_def(S, n, k)

    def pieces(self, E, used, vs=(), guard=True, what=None):
        """the coarse cells numbered in E are the pairs of the first cells, the last one perhaps a triple"""
        q, e, n = self.q, at(E, i), i - lo(E)
        within = And(guard, lo(E) <= i, i < hi(E))
        said = [And(q.live(e), Not(q.cell(e, '_is_isotropic'))), self.piece(q.cell(e, '_s_fc'), n, KIND(self.t, n) if self.named and used is None else self.kind_def(n, used))]
        return ForAll(list(vs) + [i], Implies(within, And(said) if what is None else said[what]), patterns=[e])


def is_line(c, y):
    return And(0 <= y, y < Lines(c, 0, True).n)


def inside(c, y, q):
    return And(is_line(c, y), 0 <= q, q < Cut(c, y).n)


GHOSTS = [('which end to start from', lambda c: ForAll([t], FWD(t) == Cut(c, t).forward(), patterns=[FWD(t)])), ('number of cells used', lambda c: ForAll([t], USED(t) == Cut(c, t).used_def(), patterns=[USED(t)])),
          ('cells of the line in that order', lambda c: ForAll([t, j], NTH(t, j) == Cut(c, t).nth_def(j), patterns=[NTH(t, j)])),
          ('line and place of a cell', lambda c: And(ForAll([t, j], Implies(inside(c, t, j), And(OWNER(NTH(t, j)) == t, PLACE(NTH(t, j)) == j)), patterns=[NTH(t, j)]),
                                                     ForAll([x], Or(OWNER(x) == -1, And(inside(c, OWNER(x), PLACE(x)), NTH(OWNER(x), PLACE(x)) == x)), patterns=[OWNER(x)])))]


def _one_each(c, upto):
    E, s = Lines(c, 1), Cut(c, t)
    return And(E.n == upto, ForAll([t], Implies(And(0 <= t, t < upto), And(0 < E.ptr(t), E.ptr(t) < E.limit, size(E.line(t)) >= 0, size(E.line(t)) == (HALF(t) if s.named else s.half_def()))), patterns=[E.ptr(t)]))


def _pieces(c, upto, what):
    return Cut(c, t).pieces(Lines(c, 1).line(t), None if Cut(c, t).named else Cut(c, t).used, [t], And(0 <= t, t < upto), what)


def cut_lines(upto):
    """the lines before are cut as they should"""
    f = lambda g: lambda c: g(c, upto(c))
    return [('one coarse line per line', f(_one_each)), ('of existing coarse cells', f(lambda c, n: _pieces(c, n, 0))), ('cut in pairs', f(lambda c, n: _pieces(c, n, 1)))]


def all_free(c):
    L, q = Lines(c, 0), Q(c)
    a = at(L.line(t), i)
    return ForAll([t, i], Implies(And(0 <= t, t < L.n, lo(L.line(t)) <= i, i < hi(L.line(t))), Not(at(q.agg, a))), patterns=[a])


def rest_free(c, frm, d=0):
    """the cells of the lines not reached yet, and those of the current one from a place on, are free"""
    return ForAll([t, j], Implies(And(inside(c, t, j), Or(t > frm, And(t == frm, j >= d))), Not(at(Q(c).agg, NTH(t, j)))), patterns=[NTH(t, j)])


def only_used(c, frm, d=0):
    """cells marked here are used cells of lines"""
    q, o = Q(c), Q(c, True)
    L = Lines(c, 0, True)
    if getattr(c, 'caller', False):
        s = Cut(c, OWNER(x))       # by the definition of line_of and place_in_line
        where = And(is_line(c, OWNER(x)), 0 <= PLACE(x), PLACE(x) < s.used, s.nth(PLACE(x)) == x)
    else:
        where = And(OWNER(x) >= 0, Or(And(OWNER(x) < frm, PLACE(x) < USED(OWNER(x))), And(OWNER(x) == frm, PLACE(x) < d)))
    return ForAll([x], Implies(And(q.fine(x), at(q.agg, x), Not(at(o.agg, x))), where), patterns=[at(q.agg, x)])


def new_cells(c):
    """coarse cells made here are anisotropic and of two or three cells"""
    q, o = Q(c), Q(c, True)
    n = get(q.cell(m, '_s_fc'), 'card')
    return ForAll([m], Implies(And(q.live(m), m >= o.n_cc), And(Not(q.cell(m, '_is_isotropic')), 2 <= n, n <= 3)), patterns=[q.ptr(m)])


def known_neighbours(c):
    d, g = c.f('_aniso_neighbours', cls=N), mesh(c)
    return And(size(d) >= 0, ForAll([i], Implies(And(lo(d) <= i, i < hi(d)), g.cell(at(d, i))), patterns=[at(d, i)]))


def fresh_lines(c):
    """what was allocated before stays; coarse lines are new"""
    E, L0 = Lines(c, 1), Lines(c, 0, True)
    return ForAll([t], Implies(And(0 <= t, t < E.n), E.ptr(t) >= L0.limit), patterns=[E.ptr(t)])


STATE = [h for h in OURS if h[0] != 'seeds pool of this graph'] + STATE_CC


def inner(c):
    L0 = c.outer(0).pos
    it = c.v('line_it')
    s = Cut(c, L0)
    ptr = c.v('line_lvl_p_one')
    E = Select(Lines(c, 1).h, ptr)
    return s, c.pos('line_it'), c.v('n_cells'), E, ptr, it.rev


def in_step(c):
    s, d, nc, E, ptr, rev = inner(c)
    shifted = And(nc == 2 * size(E), Or(And(d == s.n, Or(Not(s.odd), And(s.cap, nc == s.M))), And(s.cap, nc + 1 == s.M, Not(s.odd))))
    return And(0 <= d, d <= s.n, nc >= 0, size(E) >= 0, Or(d == nc, And(d == nc + 1, shifted)), Implies(s.cap, Or(nc <= s.M, nc == 0)),
               Or(nc == 2 * size(E), And(nc == 2 * size(E) + 1, size(E) >= 1, s.odd, Or(d == s.n, And(s.cap, nc == s.M)))),
               Implies(And(s.cap, s.M == nc + 1, nc >= 2), Or(d == s.n, d == nc + 1)), Implies(d < s.n, Or(s.n - d >= 2, And(s.cap, nc + 2 > s.M))))


def in_cut(c):
    s, d, nc, E, ptr, rev = inner(c)
    E1 = Lines(c, 1)
    return And(FWD(s.t) == (not rev), ptr >= Lines(c, 0, True).limit, ptr < E1.limit, ForAll([t], Implies(And(0 <= t, t < E1.n), E1.ptr(t) < ptr), patterns=[E1.ptr(t)]), s.pieces(E, nc))


# ------------------------------------------------------- seeds of the next step
POOL_DATA = [('seeds pool of this graph', lambda c: And(A(c).p().bnd == mesh(c).bnd, A(c).p().n == A(c).g.n, A(c).p().n > 0, seeds.sizes(A(c).p()))),
             ('initialiser', lambda c: c.f('_initializator', obj=A(c).pool, cls='Seeds_Pool') != 0), ('weights are finite numbers', lambda c: seeds.finite_pool(At(c, A(c).pool)))]
POOL_BLANK = ('nothing is queued yet', lambda c: (lambda p: And(Not(has(p.top)), blank(p)))(A(c).p()))
ONE_MARK = ('one mark per cell', lambda c: ln(A(c).agg) == mesh(c).n)
POOL_READY = ('the pool is in order', lambda c: And(pool_ok(c, A(c).agg, obj=A(c).pool), has(A(c).p().top)))


def cleaned(c):
    d, p = c.f('_aniso_neighbours', cls=N), c.pos('it')
    return And(known_neighbours(c), 0 <= p, p <= size(d), ForAll([i], Implies(And(lo(d) <= i, i < lo(d) + p), Not(at(A(c).agg, at(d, i)))), patterns=[at(d, i)]))


SEEDS_AFTER = Contract(
    N + '::update_seeds_pool', props=('C01', 'C07'), lemmas=[BLANK], requires=GRAPH + [('the parts exist', dict(OURS)['the parts exist'])] + POOL_DATA + [POOL_BLANK, ONE_MARK, ('neighbours are cells', known_neighbours)],
    ensures=[POOL_READY, ('seeds pool of this graph', POOL_DATA[0][1])], modifies=['_aniso_neighbours'] + POOLF,
    loops={0: Loop([('seeds so far are free', cleaned)], variant=lambda c: size(c.f('_aniso_neighbours', cls=N)) - c.pos('it'))})


def in_free(c):
    s, d, nc, E, ptr, rev = inner(c)
    return And(rest_free(c, s.t, d), only_used(c, s.t, nc))


KEPT = [('container', lambda c: And([f(c) for _, f in STATE])), ('fine lines stay', same_lines), ('coarse lines are new', fresh_lines), ('neighbours are cells', known_neighbours), ('coarse cells there before stay', stays), ('new coarse cells', new_cells)]


def reads(c):
    s, d, nc, E, ptr, rev = inner(c)
    L = Lines(c, 0).line(s.t)
    for q in range(3):
        hint(c, Implies(And(d >= 0, d + q < s.n), And(NTH(s.t, d + q) == (at(L, hi(L) - 1 - (d + q)) if rev else at(L, lo(L) + d + q)), Q(c).fine(NTH(s.t, d + q)))), 'cell %d ahead' % q)
    a, b, e = [NTH(s.t, d + q) for q in range(3)]
    r, co = s.g.r, s.g.c
    ahead = lambda q: And(d >= 0, d + q < s.n)
    two = Store(one(a), b, z3.BoolVal(True))
    c.st.assume(And([NEXT(s.t, hi(L) - 2 - d - q if rev else lo(L) + d + q) for q in range(2)]))
    hint(c, And(Implies(ahead(1), And(a != b, _cntrow(one(a), r, co, b) > 0)), Implies(ahead(2), And(b != e, a != e, _cntrow(one(b), r, co, e) > 0))), 'cells ahead are adjacent')
    hint(c, And(Implies(ahead(1), CONN(r, co, two)), Implies(ahead(2), CONN(r, co, Store(two, e, z3.BoolVal(True))))), 'cells ahead are connected')


def piece_made(c):
    s, d, nc, E, ptr, rev = inner(c)
    h = type(c)(c.ex, c.head, c.at_entry, c.head, c.node, c.inc)
    E1, E0, q, o = Lines(c, 1), Lines(h, 1), Q(c), Q(h)
    hint(c, ForAll([t], Implies(And(0 <= t, t < s.t), E1.line(t) == E0.line(t)), patterns=[E1.ptr(t)]), 'earlier coarse lines stay')
    hint(c, ForAll([m], Implies(o.live(m), And(q.live(m), q.cell(m, '_s_fc') == o.cell(m, '_s_fc'), q.cell(m, '_is_isotropic') == o.cell(m, '_is_isotropic'))), patterns=[q.ptr(m)]), 'coarse cells there stay')
    S, n, k = s.q.cell(at(E, hi(E) - 1), '_s_fc'), size(E) - 1, If(2 * size(E) + 1 == nc, IntVal(3), IntVal(2))
    hint(c, s.piece_def(S, n, k), 'the coarse cell made')
    c.st.assume(PIECE(S, s.t, n, k))


def used_up(c):
    s, d, nc, E, ptr, rev = inner(c)
    hint(c, nc == USED(s.t), 'number of cells used')
    c.st.assume(And(HALF(s.t) == s.half_def(), ForAll([j], KIND(s.t, j) == s.kind_def(j, s.used), patterns=[KIND(s.t, j)])))


INNER = Loop(KEPT + [*cut_lines(lambda c: c.outer(0).pos), ('place', in_step), ('pieces so far', in_cut), ('cells ahead are free', in_free)], variant=lambda c: Cut(c, c.outer(0).pos).n - c.pos('line_it'), at_body=reads, at_step=piece_made, at_exit=used_up, at_break=used_up)
def name_cut(c):
    """callers get the definition of the cells in cutting order"""
    named = c.ex.__dict__.setdefault('cut_named', {})
    if named.setdefault(c.ex.cur, c.node) is not c.node:
        raise T.Unsupported('a second cutting')
    L, s = Lines(c, 0), Cut(c, t)
    old = s.forward()
    c.st.assume(ForAll([t, j], NTH(t, j) == s.nth_def(j), patterns=[CUTAT(t, j)]))
    hint(c, ForAll([t], Implies(And(0 <= t, t < L.n), L.line(t) == s.L), patterns=[L.ptr(t)]), 'fine lines stay')
    s.L = L.line(t)
    s.n = size(s.L)
    hint(c, ForAll([t], Implies(And(0 <= t, t < L.n), old == s.forward()), patterns=[L.ptr(t)]), 'and their ends')
    hint(c, ForAll([t, j], Implies(And(0 <= t, t < L.n, CUTAT(t, j)), NTH(t, j) == s.nth_def(j)), patterns=[CUTAT(t, j)]), 'order of cutting')


CUT = Contract(
    N + '::agglomerate_one_level', on_apply=name_cut, props=('C05', 'C06', 'C01', 'C02'), allocates=True, axioms=MARKS + ESYM_AX, lemmas=[CONN_ONE, CONN_GROW, ADD_ONE, NONNEG, BLANK], ghosts=GHOSTS,
    requires=GRAPH + STATE + LINES + POOL_DATA + [POOL_BLANK, ('cells of lines are free', all_free), ('neighbours are cells', known_neighbours), ('one weight per cell', lambda c: ln(c.a(3)) == mesh(c).n)],
    ensures=STATE + [*[(n, lambda c, f=f: Implies(c.f('_should_agglomerate', cls=N), f(c))) for n, f in cut_lines(lambda c: Lines(c, 0).n)], ('only cells of lines are agglomerated', lambda c: only_used(c, Lines(c, 0).n)),
                     ('new coarse cells', new_cells), ('coarse cells there before stay', stays), POOL_READY, ('seeds pool of this graph', POOL_DATA[0][1]),
                     ('two levels of lines', lambda c: ln(c.f('_v_lines', cls=N)) == 2), ('fine lines stay', same_lines), ('coarse lines exist', lambda c: Lines(c, 1).real())],
    modifies=['_v_lines', '_aniso_neighbours', ('heap', '*deque<unsigned long>', DEQ)] + CC_HEAP + CELLS + POOLF,
    loops={0: Loop(KEPT + [('a line or the end', lambda c: And(0 <= c.counter_value().pos, c.counter_value().pos <= Lines(c, 0, True).n)), *cut_lines(lambda c: c.counter_value().pos), ('cells ahead are free', lambda c: And(rest_free(c, c.counter_value().pos), only_used(c, c.counter_value().pos)))]),
           1: INNER, 2: INNER})
CLASSES = {N: 1}
CONTRACTS = [EXPORT, CUT, SEEDS_AFTER]
