"""Contract of the whole agglomeration call (CoMMA.h)."""
import z3
from z3 import And, Or, Not, Implies, ForAll, Exists, If, Select, Int, Ints, MultiPattern
from vf.contract import Contract, Loop
from vf.exec import Obj
from vf.types import get, parse, sort_of
from .args import NAMES
from .util import ln, at
from .features import Mesh, ESYM, WSYM
from .container import MARKS, SYM, K, NOTE, EDGE, CONN, Before, Named
from .graph import mem, mc
from .iso import hint
from .grow import THE, mesh
from .lines import Given, STEPS, MARK, RANK
from .aniso import Lines, Cut, N as ANISO, OWNER, PLACE, NTH, CUTAT, CUTS, DEQ
from .neigh import lo, hi, size
from .ctors import RATIOS
from .poolinit import BLANK
from vf.stl import LOWEST

i, j, k, l, s, t, u, v, x = Ints('i j k l s t u v x')
AT = {n: i for i, n in enumerate(NAMES)}


class In:
    """The arguments as given."""

    def __init__(self, c):
        for n in NAMES:
            setattr(self, n, c.ex.rv(c.pre, c.args[AT[n]]))

    def given(self):
        """lines are given and to be used"""
        return And(self.aniso, Not(self.build), ln(self.li) >= 2, ln(self.l) > 0)

    def building(self):
        return And(self.aniso, self.build)

    def shape(self):
        """arguments rejected before anything is done, except for the kind of pool"""
        return Or(And(self.dim != 2, self.dim != 3), self.mn <= 1, self.goal <= 1, self.mx <= 1, self.mn > self.goal, self.goal > self.mx, self.iter < 1, self.iter > 4,
                  ln(self.rows) == 0, at(self.rows, ln(self.rows) - 1) != ln(self.cols), at(self.rows, ln(self.rows) - 1) != ln(self.areas),
                  And(self.given(), at(self.li, ln(self.li) - 1) != ln(self.l)), self.sing <= 0)

    def bad(self):
        return Or(self.shape(), And([self.pool != y for y in (0, 1, 10, 11)]), self.ar < 0, self.ar >= RATIOS)


class Given_(Given):
    def __init__(self, a, g):
        self.g, self.idx, self.cells, self.caller = g, a.li, a.l, False

    def once(self):
        self.caller = True
        return super().once()


class M(Mesh):
    """The mesh given by the arguments."""

    def __init__(self, c):
        a = In(c)
        self.n = ln(a.rows) - 1
        self.row, self.col, self.val, self.vol, self.centers, self.bnd = a.rows, a.cols, a.areas, a.vols, a.centers, a.bnd
        self.r, self.c, self.w = (get(y, 'arr') for y in (self.row, self.col, self.val))


def data(f):
    return lambda c: Implies(Not(In(c).shape()), f(M(c), In(c)))


def given(f):
    return lambda c: Implies(And(Not(In(c).shape()), In(c).given()), f(Given_(In(c), M(c))))


DATA = [('the graph is well formed', data(lambda g, a: And(g.n > 0, g.n < 2 ** 64 - 1, g.valid()))), ('no self loops', data(lambda g, a: g.noloops())), ('every neighbour is listed once', data(lambda g, a: g.distinct())),
        ('centres of one dimension', data(lambda g, a: g.geometry())), ('entries are symmetric', data(lambda g, a: And(ESYM(g.r, g.c, g.n), WSYM(g.r, g.c, g.w, g.n)))), ('symmetric graph', data(lambda g, a: SYM(g.r, g.c, g.n))),
        ('boundary faces', data(lambda g, a: ForAll([u], Implies(g.cell(u), at(a.bnd, u) >= 0), patterns=[at(a.bnd, u)]))),
        ('one finite weight per cell', data(lambda g, a: And(ln(a.prio) == g.n, ForAll([u], Implies(g.cell(u), at(a.prio, u) >= LOWEST), patterns=[at(a.prio, u)])))),
        ('compliant cells exist', data(lambda g, a: ForAll([i], Implies(And(0 <= i, i < ln(a.compliant)), g.cell(at(a.compliant, i))), patterns=[at(a.compliant, i)]))),
        ('faces are positive and finite', data(lambda g, a: ForAll([k], Implies(And(0 <= k, k < ln(a.areas)), And(at(a.areas, k) > 0, at(a.areas, k) < -LOWEST)), patterns=[at(a.areas, k)]))),
        ('given offsets', given(Given_.offsets)), ('given cells', given(Given_.inside)), ('given cells are different', given(Given_.once)), ('given lines are paths', given(Given_.joined))]


def out(c):
    return c.ex.rv(c.st, c.args[AT['f2c']])


def cont(c):
    return Obj(c.st.ghost['container'], 'Coarse_Cell_Container')


class Out:
    """The result: what is returned and the coarse cells it stands for."""

    def __init__(self, c):
        self.g, self.a, self.f2c = M(c), In(c), out(c)
        self.q = K(c, obj=cont(c))
        self.n_cc = self.q.n_cc

    def label(self, y):
        return at(self.f2c, y)

    def id(self, y):
        return And(0 <= y, y < self.n_cc)

    def cells(self, y):
        return self.q.cell(y, '_s_fc')


def wit(S):
    return z3.Function('wit_' + S.sort().name(), S.sort(), z3.IntSort())(S)


def returned(c):
    """the numbers returned are those in the container; every set there is one"""
    r = Out(c)
    hint(c, ForAll([x], Implies(r.g.cell(x), And(r.q.has(x), r.label(x) == r.q.names(x))), patterns=[r.label(x), at(r.q.f2c, x)]), 'numbers of the container')
    w = wit(r.cells(i))
    c.st.assume(ForAll([i], Implies(r.q.live(i), mem(r.cells(i), w)), patterns=[r.q.ptr(i)]))
    hint(c, ForAll([i], Implies(And(r.id(i), NOTE(i)), And(r.g.cell(w), r.label(w) == i)), patterns=[NOTE(i)]), 'every number occurs')


def numbered(c):
    r = Out(c)
    return And(ForAll([x], Implies(r.g.cell(x), r.id(r.label(x))), patterns=[r.label(x)]),
               ForAll([i], Implies(And(r.id(i), NOTE(i)), Exists([x], And(r.g.cell(x), r.label(x) == i))), patterns=[NOTE(i)]))


def meant(c):
    r = Out(c)
    return ForAll([i, x], Implies(r.id(i), mem(r.cells(i), x) == And(r.g.cell(x), r.label(x) == i)), patterns=[mem(r.cells(i), x)])


def connected(c):
    r = Out(c)
    return ForAll([i], Implies(r.id(i), CONN(r.g.r, r.g.c, get(r.cells(i), 'mem'))), patterns=[r.q.ptr(i)])


def limits(c):
    """without correction: isotropic coarse cells"""
    r = Out(c)
    y, card = at(r.g.col, k), get(r.cells(i), 'card')
    return Implies(Not(r.a.corr), And(
        ForAll([i], Implies(r.id(i), If(r.q.cell(i, '_is_isotropic'), card <= r.a.mx, And(2 <= card, card <= 3))), patterns=[r.q.ptr(i)]),
        ForAll([i, x, k], Implies(And(r.id(i), r.q.cell(i, '_is_isotropic'), card < r.a.mn, mem(r.cells(i), x), r.g.inrow(x, k)), r.label(y) <= i), patterns=[MultiPattern(mem(r.cells(i), x), y)])))


def compact(c):
    r = Out(c)
    return ForAll([i], Implies(And(r.id(i), r.q.cell(i, '_is_isotropic')), r.q.cell(i, '_compactness') == mc(r.g, r.cells(i))), patterns=[r.q.ptr(i)])


# ------------------------------------------------- the correction (C04)
def threshold(r):
    return If(r.a.sing >= r.a.mn, r.a.mn - 1, r.a.sing)


def corr(f):
    """with correction: f of the result and of the partition before the correction"""
    return lambda c: Implies(In(c).corr, f(Out(c), Before()))


def u_limits(r, o):
    """what holds of the result of a call without correction"""
    card, y = get(o.cell(i, '_s_fc'), 'card'), at(r.g.col, k)
    return And(o.n == r.g.n, o.thr == threshold(r), ForAll([i], Implies(o.id(i), If(o.cell(i, '_is_isotropic'), card <= r.a.mx, And(2 <= card, card <= 3))), patterns=[o.ptr(i)]),
               ForAll([i, x, k], Implies(And(o.id(i), o.cell(i, '_is_isotropic'), card < r.a.mn, o.lists(i, x), r.g.inrow(x, k)), And(o.has(y), o.names(y) <= i)), patterns=[MultiPattern(o.lists(i, x), y)]))


def aniso_stay(r, o):
    return ForAll([i], Implies(And(o.id(i), Not(o.cell(i, '_is_isotropic'))), And(r.id(i), Not(r.q.cell(i, '_is_isotropic')), r.cells(i) == o.cell(i, '_s_fc'))), patterns=[o.ptr(i)])


def together(r, o):
    n = Select(r.q.h['_idx'], o.ptr(i))
    return ForAll([i, x], Implies(And(NOTE(i), o.id(i), Not(o.small(i)), o.lists(i, x)), r.label(x) == n), patterns=[MultiPattern(NOTE(i), o.lists(i, x))])


def in_order(r, o):
    w = lambda z: Select(o.h['_idx'], r.q.ptr(z))
    return And(ForAll([i], Implies(r.id(i), And(o.id(w(i)), r.q.cell(i, '_is_isotropic') == o.cell(w(i), '_is_isotropic'))), patterns=[r.q.ptr(i)]),
               ForAll([i, x], Implies(And(r.id(i), o.lists(w(i), x)), r.label(x) == i), patterns=[MultiPattern(r.q.ptr(i), r.label(x))]),
               ForAll([i, j], Implies(And(0 <= i, i < j, j < r.n_cc), w(i) < w(j)), patterns=[MultiPattern(r.q.ptr(i), r.q.ptr(j))]))


def none_left(r, o):
    y = r.label(at(r.g.col, k))
    return ForAll([i, x, k], Implies(And(EDGE(x, k), NOTE(i), r.id(i), r.q.cell(i, '_is_isotropic'), get(r.cells(i), 'card') <= threshold(r), mem(r.cells(i), x), r.g.inrow(x, k)),
                                     Or(y == i, Not(r.q.cell(y, '_is_isotropic')))), patterns=[MultiPattern(r.q.ptr(i), EDGE(x, k))])


def unchanged(r, o):
    return Implies(ForAll([i], Implies(o.id(i), Not(o.small(i))), patterns=[o.ptr(i)]), ForAll([x], Implies(r.g.cell(x), And(o.has(x), r.label(x) == o.names(x))), patterns=[r.label(x)]))


def first_aniso(c):
    o = Before()
    iso = lambda z: o.cell(z, '_is_isotropic')
    hint(c, Implies(In(c).corr, ForAll([i, j], Implies(And(o.id(i), Not(iso(i)), 0 <= j, j <= i), Not(iso(j))), patterns=[MultiPattern(o.ptr(i), o.ptr(j))])), 'anisotropic coarse cells come first')


# ------------------------------------------------- anisotropic lines (C05, C06)
class Aniso:
    """The anisotropic agglomerator of the call, read in the final state."""

    caller = True

    def __init__(self, c):
        self.c, self.ex, self.st, self.pre = c, c.ex, c.st, c.st
        self.f = self.of = lambda n, cls: c.f(n, obj=Obj(Int('the_anisotropic_agglomerator'), ANISO), cls=cls)
        self.a = self.arg = lambda q: In(c).prio


class Fixed:
    """The lines of a level after the cutting, under names of their own."""

    h = z3.Const('cut_deques', z3.ArraySort(z3.IntSort(), sort_of(parse(DEQ))))

    def __init__(self, name):
        self.v = z3.Const(name, sort_of(parse('std::vector<std::shared_ptr<std::deque<unsigned long>>>')))
        self.n = ln(self.v)

    def equals(self, o):
        return And(self.v == o.v, self.h == o.h)

    ptr, line = Lines.ptr, Lines.line

    def one(self, y):
        return And(0 <= y, y < self.n)


L, E = Fixed('cut_lines'), Fixed('cut_coarse_lines')
IDX, LIST = (z3.Const(n, sort_of(parse('std::vector<unsigned long>'))) for n in ('exported_offsets', 'exported_lines'))


def AfterCut():
    return Named('cut')


class Piece(Cut):
    """How one line is to be cut, by the arguments of the call."""

    def __init__(self, c, t_):
        a = In(c)
        self.c, self.g, self.t, self.named = Aniso(c), M(c), t_, False
        self.L = L.line(t_)
        self.n = size(self.L)
        self.odd, self.M = a.odd, get(a.maxl, 'val')
        self.cap = And(get(a.maxl, 'has'), Not(And(a.build, self.M <= 0)))
        self.used = self.used_def()

    def bnd(self, y):
        """boundary faces count up to the dimension"""
        n, d = at(self.g.bnd, y), In(self.c.c).dim
        return If(n > d, d, n)


class ByGraph(Piece):
    """the same with the boundary faces of the graph made"""

    bnd = Cut.bnd


def on_line(D, q):
    return And(lo(D) <= q, q < hi(D))


def right_lines(c):
    """lines of at least two cells, and the given ones when given"""
    a, y = In(c), at(L.line(t), i)
    return And(L.n >= 0, ForAll([t], Implies(L.one(t), size(L.line(t)) >= 2), patterns=[L.ptr(t)]), ForAll([t, i], Implies(And(L.one(t), on_line(L.line(t), i)), M(c).cell(y)), patterns=[y]),
               Implies(Not(a.build), Given_(a, M(c)).kept(L, ln(a.li) - 1)))


def once(c):
    a, b = at(L.line(t), i), at(L.line(u), j)
    return ForAll([t, i, u, j], Implies(And(L.one(t), L.one(u), on_line(L.line(t), i), on_line(L.line(u), j), a == b), And(t == u, i == j)), patterns=[MultiPattern(a, b)])


def order(c):
    """the cells of a line from the right end on"""
    return ForAll([t, j], Implies(And(L.one(t), CUTAT(t, j)), NTH(t, j) == Piece(c, t).nth_def(j)), patterns=[CUTAT(t, j)])


def one_each(c):
    return Implies(L.n > 0, And(E.n == L.n, ForAll([t], Implies(L.one(t), size(E.line(t)) == Piece(c, t).half_def()), patterns=[E.ptr(t)])))


def pieces(c, q, extra=lambda y: True):
    """the coarse cells of a line are the pairs of its cells from the right end on, the last one perhaps a triple"""
    D, p = E.line(t), Piece(c, t)
    y, n = at(D, i), i - lo(D)
    return ForAll([t, i], Implies(And(L.one(t), on_line(D, i)), And(q.id(y), extra(y), p.piece_def(q.cell(y, '_s_fc'), n, p.kind_def(n, p.used)))), patterns=[y])


def marked_used(c, q):
    s = Piece(c, OWNER(x))
    return ForAll([x], Implies(And(q.fine(x), at(q.agg, x)), And(L.one(OWNER(x)), 0 <= PLACE(x), PLACE(x) < s.used, s.nth(PLACE(x)) == x)), patterns=[at(q.agg, x)])


def anisotropic(q):
    return ForAll([i], Implies(q.id(i), And(q.live(i), Not(q.cell(i, FLAG)))), patterns=[q.ptr(i)])


def offsets(c):
    """one entry per line and one per coarse cell of a line; nothing without lines"""
    e = at(IDX, t)
    return And(If(L.n > 0, And(ln(IDX) == L.n + 1, at(IDX, 0) == 0, at(IDX, L.n) == ln(LIST)), And(ln(IDX) == 0, ln(LIST) == 0)),
               ForAll([t], Implies(L.one(t), And(0 <= e, at(IDX, t + 1) == e + Piece(c, t).half_def())), patterns=[e]))


def listed(c):
    D, e = E.line(t), at(IDX, t)
    return ForAll([t, j], Implies(And(L.one(t), 0 <= j, j < size(D)), And(at(LIST, e + j) == at(D, lo(D) + j), Implies(NOTE(at(D, lo(D) + j)), e + j < ln(LIST)))), patterns=[at(D, lo(D) + j), MultiPattern(e, at(LIST, e + j))])


FLAG = '_is_isotropic'


def after_cut(c):
    a, A = Aniso(c), AfterCut()
    c.st.assume(And(L.equals(Lines(a, 0)), E.equals(Lines(a, 1)), A.equals(K(c, obj=cont(c)))))
    s, p = ByGraph(c, t), Piece(c, t)
    s.g = mesh(c)
    hint(c, ForAll([u], Implies(M(c).cell(u), s.bnd(u) == p.bnd(u)), patterns=[s.bnd(u)]), 'boundary faces')
    hint(c, ForAll([t], Implies(And(L.one(t), size(L.line(t)) >= 1), s.forward() == p.forward()), patterns=[L.ptr(t)]), 'the end to start from')
    hint(c, ForAll([t, j], Implies(And(L.one(t), CUTAT(t, j)), NTH(t, j) == s.nth_def(j)), patterns=[CUTAT(t, j)]), 'order of cutting, by the graph')
    for n, f in (('lines', right_lines), ('order of cutting', order), ('one coarse line per line', one_each), ('pieces', lambda c: pieces(c, A)), ('coarse cells cut are anisotropic', lambda c: anisotropic(A)),
                 ('cells taken are used ones', lambda c: marked_used(c, A)), ('no cell twice in the lines', once)):
        hint(c, f(c), n)


def after_export(c):
    c.st.assume(And(*[v == c.ex.rv(c.st, c.args[AT[n]]) for v, n in ((IDX, 'li'), (LIST, 'l'))]))
    hint(c, offsets(c), 'offsets')
    hint(c, listed(c), 'listed as in the coarse lines')


def ran(f):
    """when lines are given or to be built"""
    return lambda c: Implies(And(In(c).aniso, Or(In(c).build, In(c).given())), f(c))


def returned_lines(c):
    return And(*[v == c.ex.rv(c.st, c.args[AT[n]]) for v, n in ((IDX, 'li'), (LIST, 'l'))])


def cut_stays(c):
    """the coarse cells cut are coarse cells of the result"""
    r, A = Out(c), AfterCut()
    return ForAll([i], Implies(A.id(i), And(r.id(i), Not(r.q.cell(i, FLAG)), r.cells(i) == A.cell(i, '_s_fc'))), patterns=[A.ptr(i)])


def exported(c):
    """the coarse cells listed for a line"""
    r, p, e = Out(c), Piece(c, t), at(IDX, t)
    z = at(LIST, e + j)
    return ForAll([t, j], Implies(And(L.one(t), 0 <= j, j < p.half_def(), NOTE(z)), And(e + j < ln(LIST), r.id(z), Not(r.q.cell(z, FLAG)), p.piece_def(r.cells(z), j, p.kind_def(j, p.used)))), patterns=[MultiPattern(e, z)])


def only_pieces(c):
    """every anisotropic coarse cell is one of those listed"""
    r = Out(c)
    return ForAll([i], Implies(And(r.id(i), Not(r.q.cell(i, FLAG)), NOTE(i)), Exists([t, j], And(L.one(t), 0 <= j, j < Piece(c, t).half_def(), at(LIST, at(IDX, t) + j) == i))), patterns=[NOTE(i)])


PAIR_OF = z3.Function('pair_of', z3.IntSort(), z3.IntSort())


def from_lines(c):
    r, A, b = Out(c), AfterCut(), Before()
    for n, f in (('offsets', offsets), ('list', listed), ('one coarse line per line', one_each), ('coarse cells cut', lambda c: pieces(c, A)), ('cells taken are used ones', lambda c: marked_used(c, A))):
        hint(c, ran(f)(c), n)
    given_ = lambda f: ran(lambda c: f)(c)
    hint(c, given_(Implies(r.a.corr, ForAll([i], Implies(A.id(i), And(b.id(i), b.ptr(i) == A.ptr(i), Not(b.cell(i, FLAG)), b.cell(i, '_s_fc') == A.cell(i, '_s_fc'))), patterns=[A.ptr(i)]))), 'pieces are there before the correction')
    hint(c, Implies(r.a.corr, aniso_stay(r, b)), 'the correction leaves anisotropic coarse cells')
    hint(c, ran(cut_stays)(c), 'pieces stay')
    hint(c, ran(lambda c: pieces(c, r.q, lambda y: Not(r.q.cell(y, FLAG))))(c), 'coarse cells of the lines')
    D, e = E.line(t), at(IDX, t)
    z = at(LIST, e + j)
    hint(c, given_(ForAll([t, j], Implies(And(L.one(t), 0 <= j, j < Piece(c, t).half_def(), NOTE(z)), And(z == at(D, lo(D) + j), on_line(D, lo(D) + j), e + j < ln(LIST))), patterns=[MultiPattern(e, z)])), 'listed from its line')
    aniso = And(r.id(i), Not(r.q.cell(i, FLAG)))
    was = If(r.a.corr, Select(b.h['_idx'], r.q.ptr(i)), i)
    w = wit(r.cells(i))
    hint(c, given_(ForAll([i], Implies(aniso, And(A.id(was), r.cells(i) == A.cell(was, '_s_fc'))), patterns=[r.q.ptr(i)])), 'anisotropic coarse cells are pieces')
    hint(c, given_(ForAll([i], Implies(And(aniso, NOTE(i)), And(mem(r.cells(i), w), A.fine(w), at(A.agg, w), r.label(w) == i)), patterns=[NOTE(i)])), 'a cell of it')
    D, P, p = E.line(OWNER(w)), PLACE(w), Piece(c, OWNER(w))
    h = Piece(c, OWNER(w)).half_def()
    q = PAIR_OF(i)
    S = r.cells(at(D, lo(D) + q))
    c.st.assume(ForAll([i], q == If(P / 2 < h, P / 2, h - 1), patterns=[q]))
    hint(c, given_(ForAll([i], Implies(And(aniso, NOTE(i)), And(L.one(OWNER(w)), 0 <= P, P < p.used, w == NTH(OWNER(w), P))), patterns=[NOTE(i)])), 'it is a used one')
    hint(c, given_(ForAll([i], Implies(And(aniso, NOTE(i)), And(L.one(OWNER(w)), h == size(D))), patterns=[NOTE(i)])), 'its line')
    hint(c, given_(ForAll([i], Implies(And(aniso, NOTE(i)), Or(P == 2 * q, P == 2 * q + 1, And(P == 2 * q + 2, p.kind_def(q, p.used) == 3))), patterns=[NOTE(i)])), 'its pair')
    hint(c, given_(ForAll([i], Implies(And(aniso, NOTE(i)), And(0 <= q, q < h)), patterns=[NOTE(i)])), 'a pair of its line')
    for n in (0, 1, 2):
        hint(c, given_(ForAll([i], Implies(And(aniso, NOTE(i), P == 2 * q + n), w == NTH(OWNER(w), 2 * q + n)), patterns=[NOTE(i)])), 'its place')
    hint(c, given_(ForAll([i], Implies(And(aniso, NOTE(i)), And(mem(S, NTH(OWNER(w), 2 * q)), mem(S, NTH(OWNER(w), 2 * q + 1)), Implies(p.kind_def(q, p.used) == 3, mem(S, NTH(OWNER(w), 2 * q + 2))))), patterns=[NOTE(i)])), 'the piece there')
    hint(c, given_(ForAll([i], Implies(And(aniso, NOTE(i)), mem(r.cells(at(D, lo(D) + q)), w)), patterns=[NOTE(i)])), 'its place in the line')
    hint(c, given_(ForAll([i], Implies(And(aniso, NOTE(i)), at(LIST, at(IDX, OWNER(w)) + q) == i), patterns=[NOTE(i)])), 'its place in the list')


MAIN = Contract(
    'agglomerate_one_level', props=('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C08', 'C10', 'C18'), accepts=lambda ex, f: len(ex.params(f)) == 28, only_check=True, allocates=True, frame=False, merge='join', axioms=MARKS + MARK + STEPS + CUTS, lemmas=[BLANK],
    requires=DATA, exception='invalid_argument', throws=lambda c: And(In(c).bad(), out(c) == In(c).f2c), at_exit=lambda c: (returned(c), first_aniso(c), from_lines(c)),
    ensures=[('admissible arguments only', lambda c: Not(In(c).bad())), ('one number per fine cell', lambda c: ln(out(c)) == M(c).n), ('numbered without gaps', numbered), ('coarse cells are the sets of cells with their number', meant),
             ('coarse cells are connected', connected), ('limits without correction', limits), ('recorded compactness', compact),
             ('limits before the correction', corr(u_limits)), ('anisotropic coarse cells stay', corr(aniso_stay)), ('cells of a larger coarse cell stay together', corr(together)), ('surviving coarse cells in order', corr(in_order)),
             ('no too-small isotropic coarse cell touches another', corr(none_left)), ('unchanged without too-small ones', corr(unchanged)),
             ('lines', ran(right_lines)), ('order of cutting', ran(order)), ('offsets of the exported lines', ran(lambda c: And(returned_lines(c), offsets(c)))),
             ('exported lines list the coarse cells cut', ran(exported)), ('anisotropic coarse cells are those listed', ran(only_pieces)), ('no cell twice in the lines', ran(once))],
    at_call={ANISO + '::agglomerate_one_level': after_cut, ANISO + '::export_anisotropic_lines': after_export})
CLASSES = {}
CONTRACTS = [MAIN]
