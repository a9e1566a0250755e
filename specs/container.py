"""Contracts of Coarse_Cell_Container.h and Coarse_Cell.h: the records of coarse
and fine cells (C19), and what the agglomerators rest on."""
import z3
from z3 import And, Or, Not, Implies, ForAll, Exists, If, Select, Store, Int, Ints, IntVal, MultiPattern
from vf.contract import Contract, Loop
from vf.types import get, parse, sort_of
from vf import types as T
from vf.proofs import Lemma
from .util import ln, at
from .graph import mem, G, val, CNT_AX, cells_of, mc, MC, MC_DEF
from vf.stl import union_fn, union_card

i, j, k, m, u, v, w, x = Ints('i j k m u v w x')
ASET = z3.ArraySort(z3.IntSort(), z3.BoolSort())
SETT = 'std::unordered_set<unsigned long>'
CELL = {'_idx': 'unsigned long', '_compactness': 'int', '_cardinality': 'int', '_is_isotropic': 'bool', '_s_fc': SETT,
        '_fc_graph': 'std::shared_ptr<Dual_Graph<unsigned long, double, int>>'}
CELLS = [('heap', 'Coarse_Cell::' + f, t) for f, t in CELL.items()]

# markers without content: they only say where a quantified fact is used
EDGE = z3.Function('edge_of', z3.IntSort(), z3.IntSort(), z3.BoolSort())
FLIP = z3.Function('edge_back', z3.IntSort(), z3.IntSort(), z3.BoolSort())
NOTE = z3.Function('noted', z3.IntSort(), z3.BoolSort())
PAIR = z3.Function('pair_of', z3.IntSort(), z3.IntSort(), z3.BoolSort())
MARKS = [ForAll([u, k], PAIR(u, k), patterns=[PAIR(u, k)]), ForAll([u, k], EDGE(u, k), patterns=[EDGE(u, k)]), ForAll([u, k], FLIP(u, k), patterns=[FLIP(u, k)]), ForAll([u], NOTE(u), patterns=[NOTE(u)])]

# number of marked cells among the first m
CT = z3.Function('ct', ASET, z3.IntSort(), z3.IntSort())
F = z3.Const('F', ASET)
CT_AX = [ForAll([F, m], Implies(m <= 0, CT(F, m) == 0), patterns=[CT(F, m)]),
         ForAll([F, m], Implies(m > 0, CT(F, m) == CT(F, m - 1) + If(Select(F, m - 1), 1, 0)), patterns=[CT(F, m)])]


def _mark(F, i, m):
    return CT(Store(F, i, True), m) == CT(F, m) + If(And(0 <= i, i < m, Not(Select(F, i))), 1, 0)


def _full(F, m):
    return Implies(CT(F, m) == m, ForAll([i], Implies(And(0 <= i, i < m), Select(F, i)), patterns=[Select(F, i)]))


CT_MARK = Lemma('marking one more', ForAll([F, i, m], _mark(F, i, m), patterns=[CT(Store(F, i, True), m)]),
                [('none', CT_AX, [m <= 0], _mark(F, i, m)), ('one more', CT_AX, [m >= 0, _mark(F, i, m)], _mark(F, i, m + 1))])
CT_BOUND = Lemma('at most all', ForAll([F, m], Implies(m >= 0, And(0 <= CT(F, m), CT(F, m) <= m)), patterns=[CT(F, m)]),
                 [('none', CT_AX, [m == 0], And(0 <= CT(F, m), CT(F, m) <= m)),
                  ('one more', CT_AX, [m >= 0, And(0 <= CT(F, m), CT(F, m) <= m)], And(0 <= CT(F, m + 1), CT(F, m + 1) <= m + 1))])
CT_FULL = Lemma('all counted means all marked', ForAll([F, m], Implies(m >= 0, _full(F, m)), patterns=[CT(F, m)]),
                [('none', CT_AX, [m == 0], _full(F, m)),
                 ('one more', CT_AX + [CT_BOUND.statement], [m >= 0, _full(F, m)], _full(F, m + 1))])


class K:
    """The container in a state."""

    def __init__(self, c, old=False, obj=None):
        f = c.ef if isinstance(old, str) else c.of if old else c.f
        kw = {} if obj is None else {'obj': obj}
        cls = 'Coarse_Cell_Container'
        self.ccs, self.n_cc, self.f2c, self.agg, self.thr, self.nb, self.delayed, self.sing, self.graph = [
            f(n, cls=cls, **kw) for n in ('_ccs', '_cc_counter', '_fc_2_cc', '_is_fc_agglomerated', '_sing_card_thresh', '_nb_of_agglomerated_fc', '_delayed_cc', '_singular_cc', '_fc_graph')]
        st = c.pre if old else c.st
        name = c.ex.named_heap
        if isinstance(old, str):        # the state at loop entry: used for values only
            st, name = c.at_entry, c.ex.heap_arr
        self.h = {n: name(st, 'Coarse_Cell::' + n, parse(t)) for n, t in CELL.items()}
        self.limit = st.ghost['_limit']
        self.n = ln(self.f2c)

    def ptr(self, q):
        return Select(get(self.ccs, 'val'), q)

    def cell(self, q, fld):
        return Select(self.h[fld], self.ptr(q))

    def lists(self, q, x):
        return mem(self.cell(q, '_s_fc'), x)

    def has(self, x):
        return get(at(self.f2c, x), 'has')

    def names(self, x):
        return get(at(self.f2c, x), 'val')

    def id(self, q):
        return And(0 <= q, q < self.n_cc)

    def live(self, q):
        return mem(self.ccs, q)

    def fine(self, x):
        return And(0 <= x, x < self.n)

    def wait(self, q):
        return get(at(self.delayed, q), 'first')

    def slot(self, q):
        return Select(get(self.sing, 'arr'), q)

    def queued(self, q):
        return And(get(self.sing, 'lo') <= q, q < get(self.sing, 'hi'))

    # ------------------------------------------------------ the invariants
    def shape(self):
        return And(ln(self.agg) == self.n, self.n_cc >= 0)

    def numbers(self):
        return ForAll([i], mem(self.ccs, i) == self.id(i), patterns=[mem(self.ccs, i)])

    def alive(self):
        return ForAll([i], Implies(self.live(i), And(0 < self.ptr(i), self.ptr(i) < self.limit)), patterns=[self.ptr(i), self.live(i)])

    def selfaware(self):
        return ForAll([i], Implies(self.live(i), And(self.cell(i, '_idx') == i, self.cell(i, '_cardinality') == get(self.cell(i, '_s_fc'), 'card'),
                                                   get(self.cell(i, '_s_fc'), 'card') > 0)), patterns=[self.ptr(i), self.live(i)])

    def exact(self):
        return And(ForAll([i, x], Implies(And(self.live(i), self.lists(i, x)), And(self.fine(x), self.has(x), self.names(x) == i)), patterns=[self.lists(i, x)]),
                   ForAll([x], Implies(And(self.fine(x), self.has(x), self.live(self.names(x))), self.lists(self.names(x), x)), patterns=[at(self.f2c, x)]))

    def within(self):
        return ForAll([i, x], Implies(And(self.live(i), self.lists(i, x)), self.fine(x)), patterns=[self.lists(i, x)])

    def inrange(self):
        return ForAll([x], Implies(And(self.fine(x), self.has(x)), And(self.names(x) >= 0, self.live(self.names(x)))), patterns=[at(self.f2c, x)])

    def counted(self):
        return self.nb == CT(get(self.agg, 'arr'), self.n)

    def marked(self):
        """a cell with a coarse cell is marked"""
        return ForAll([x], Implies(And(self.fine(x), self.has(x)), at(self.agg, x)), patterns=[at(self.f2c, x)])

    def waiting(self):
        """marked cells without a coarse cell are exactly those of the waiting sets, which are disjoint"""
        D = ln(self.delayed)
        return And(ForAll([j, x], Implies(And(0 <= j, j < D, mem(self.wait(j), x)), And(self.fine(x), at(self.agg, x), Not(self.has(x)))), patterns=[mem(self.wait(j), x)]),
                   ForAll([i, j, x], Implies(And(0 <= i, i < j, j < D, mem(self.wait(i), x)), Not(mem(self.wait(j), x))), patterns=[MultiPattern(mem(self.wait(i), x), mem(self.wait(j), x))]),
                   ForAll([j], Implies(And(0 <= j, j < D), get(self.wait(j), 'card') > 0), patterns=[at(self.delayed, j)]),
                   ForAll([x], Implies(And(self.fine(x), at(self.agg, x), Not(self.has(x))), Exists([j], And(0 <= j, j < D, mem(self.wait(j), x)))), patterns=[at(self.agg, x)]))

    def small(self, q):
        return And(self.cell(q, '_is_isotropic'), self.cell(q, '_cardinality') <= self.thr)

    def singular(self):
        """the recorded too-small cells are exactly the isotropic ones not above the threshold, in order"""
        return And(ForAll([j], Implies(self.queued(j), And(self.id(self.slot(j)), self.small(self.slot(j)))), patterns=[self.slot(j)]),
                   ForAll([i, j], Implies(And(self.queued(i), self.queued(j), i < j), self.slot(i) < self.slot(j)), patterns=[MultiPattern(self.slot(i), self.slot(j))]),
                   ForAll([i], Implies(And(NOTE(i), self.id(i), self.small(i)), Exists([j], And(self.queued(j), self.slot(j) == i))), patterns=[NOTE(i)]))


CORE = ['shape', 'numbers', 'alive', 'selfaware', 'exact', 'inrange', 'counted', 'marked']
LABEL = dict(shape='one entry per fine cell', numbers='coarse numbers are 0..N-1', alive='coarse cells exist', selfaware='each coarse cell knows its number and size',
             exact='each coarse cell lists exactly the fine cells naming it', inrange='named coarse cells exist', counted='count of agglomerated fine cells is right',
             marked='fine cells of a coarse cell are marked', within='coarse cells list existing fine cells', waiting='marked cells without coarse cell wait in exactly one set', singular='recorded too-small cells are exactly the isotropic ones not above the threshold')


def holds(n):
    return (LABEL[n], lambda c: getattr(K(c), n)())


def keeps(n):
    return (LABEL[n] + ' (kept)', lambda c: Implies(getattr(K(c, old=True), n)(), getattr(K(c), n)()))


INV = [holds(n) for n in CORE]

# arguments: 0 cells, 1 compactness, 2 anisotropic, 3 delayed


def fresh_cells(c):
    q = K(c)
    return ForAll([x], Implies(mem(c.a(0), x), And(q.fine(x), Not(q.has(x)))), patterns=[mem(c.a(0), x)])


def new_or_waiting(c):
    q = K(c)
    return Or(ForAll([x], Implies(mem(c.a(0), x), Not(at(q.agg, x))), patterns=[mem(c.a(0), x)]),
              Exists([j], And(0 <= j, j < ln(q.delayed), ForAll([x], Implies(mem(c.a(0), x), mem(q.wait(j), x)), patterns=[mem(c.a(0), x)]))))


def marks(c):
    q, o = K(c), K(c, old=True)
    return ForAll([x], at(q.agg, x) == Or(at(o.agg, x), mem(c.a(0), x)), patterns=[at(q.agg, x)])


def named(c):
    q, o = K(c), K(c, old=True)
    return ForAll([x], Implies(q.fine(x), at(q.f2c, x) == If(And(mem(c.a(0), x), Not(c.a(3))), get_some(q.f2c, o.n_cc), at(o.f2c, x))), patterns=[at(q.f2c, x)])


def get_some(vec, y):
    s = get(vec, 'arr').sort().range()
    from vf.types import mk
    return mk(s, z3.BoolVal(True), y)


def new_cell(c):
    q, o = K(c), K(c, old=True)
    return Implies(Not(c.a(3)), And(q.n_cc == o.n_cc + 1, q.cell(o.n_cc, '_s_fc') == c.a(0), q.cell(o.n_cc, '_compactness') == c.a(1), q.cell(o.n_cc, '_is_isotropic') == Not(c.a(2)),
                                    q.cell(o.n_cc, '_fc_graph') == q.graph, q.ptr(o.n_cc) >= o.limit))


def others_stay(c):
    q, o = K(c), K(c, old=True)
    p = Int('p')
    return And(ForAll([i], Implies(Or(i != o.n_cc, c.a(3)), q.ptr(i) == o.ptr(i)), patterns=[q.ptr(i)]),
               *[ForAll([p], Implies(p < o.limit, Select(q.h[f], p) == Select(o.h[f], p)), patterns=[Select(q.h[f], p)]) for f in CELL])


def delays(c):
    q, o = K(c), K(c, old=True)
    D = ln(o.delayed)
    return If(c.a(3), And(q.n_cc == o.n_cc, ln(q.delayed) == D + 1, q.wait(D) == c.a(0), get(at(q.delayed, D), 'second') == c.a(1),
                          ForAll([j], Implies(And(0 <= j, j < D), at(q.delayed, j) == at(o.delayed, j)), patterns=[at(q.delayed, j)])), q.delayed == o.delayed)


def c_marks(c):
    it = c.counter_value()
    q, o = K(c), K(c, old=True)
    return ForAll([x], at(q.agg, x) == Or(at(o.agg, x), And(mem(c.arg(0), x), it.enum.pos(x) < c.k)), patterns=[at(q.agg, x)])


def c_names(c):
    it = c.counter_value()
    q, o = K(c), K(c, old=True)
    return ForAll([x], Implies(q.fine(x), at(q.f2c, x) == If(And(mem(c.arg(0), x), it.enum.pos(x) < c.k), get_some(q.f2c, o.n_cc), at(o.f2c, x))), patterns=[at(q.f2c, x)])


def count_step(c):
    """cells marked before are not counted again"""
    q, o = K(c), K(c, old=True)
    return And(q.n == o.n, Implies(ForAll([x], Implies(mem(c.a(0), x), at(o.agg, x)), patterns=[mem(c.a(0), x)]), q.nb == o.nb))


CREATE = Contract(
    'Coarse_Cell_Container::create_cc', props=('C19', 'C18'), wraps=True, axioms=CT_AX + MARKS, lemmas=[CT_MARK, CT_BOUND], allocates=True,
    requires=INV + [('cells exist and have no coarse cell yet', fresh_cells), ('not empty', lambda c: get(c.a(0), 'card') > 0),
                    ('not delayed if anisotropic', lambda c: Not(And(c.a(2), c.a(3))))],
    modifies=['_ccs', '_cc_counter', '_fc_2_cc', '_is_fc_agglomerated', '_nb_of_agglomerated_fc', '_delayed_cc', '_singular_cc'] + CELLS,
    ensures=INV + [('count grows by the new marks only', count_step), ('exactly the given cells become marked', marks), ('exactly the given cells name the new coarse cell, unless delayed', named),
                   ('the new coarse cell is as requested', new_cell), ('other coarse cells stay', others_stay), ('the waiting sets grow only by a delayed one', delays),
                   ('number of the new coarse cell', lambda c: Implies(Not(c.a(3)), c.ret == c.of('_cc_counter'))), keeps('singular'),
                   ('waiting sets stay right', lambda c: Implies(And(K(c, old=True).waiting(), ForAll([x], Implies(mem(c.a(0), x), Not(at(K(c, old=True).agg, x))), patterns=[mem(c.a(0), x)])), K(c).waiting()))],
    loops={0: Loop([('marks of the cells so far', c_marks), ('count', lambda c: K(c).counted()), ('no second count', count_step)]),
           1: Loop([('names of the cells so far', c_names)])})


class Named(K):
    """The container at one place of a call, under names of its own: the place is passed once."""

    def __init__(self, at_):
        c = lambda n, t: z3.Const(at_ + n, sort_of(parse(t)))
        self.ccs, self.n_cc, self.f2c, self.thr = c('_ccs', 'std::map<unsigned long, std::shared_ptr<Coarse_Cell<unsigned long, double, int>>>'), Int(at_ + '_count'), c('_fc_2_cc', 'std::vector<std::optional<unsigned long>>'), Int(at_ + '_thr')
        self.h = {n: z3.Const(at_ + '_' + n, z3.ArraySort(z3.IntSort(), sort_of(parse(t)))) for n, t in CELL.items()}
        self.n, self.limit, self.agg = ln(self.f2c), Int(at_ + '_limit'), c('_marks', 'std::vector<bool>')

    def equals(self, q):
        return And(self.limit == q.limit, self.ccs == q.ccs, self.n_cc == q.n_cc, self.f2c == q.f2c, self.thr == q.thr, self.agg == q.agg, *[self.h[n] == q.h[n] for n in CELL])


def Before():
    """as handed to the correction"""
    return Named('uncorrected')


def name_before(c):
    if c.st.ghost.get('uncorrected') is not None:
        raise T.Unsupported('a second correction')
    c.st.ghost['uncorrected'] = z3.BoolVal(True)
    c.st.assume(Before().equals(K(c, old=True)))


# ------------------------------------------------------------ construction
CT_NONE = Lemma('nothing marked', ForAll([F, m], Implies(ForAll([i], Not(Select(F, i)), patterns=[Select(F, i)]), CT(F, m) == 0), patterns=[CT(F, m)]),
                [('none', CT_AX, [m <= 0], CT(F, m) == 0),
                 ('one more', CT_AX, [m >= 0, CT(F, m) == 0, ForAll([i], Not(Select(F, i)), patterns=[Select(F, i)])], CT(F, m + 1) == 0)])


def the_graph(c, i=0):
    return G(c, obj=c.obj(c.a(i), 'Dual_Graph'))


def name_container(c):
    c.st.ghost['container'] = c.this.ref        # for the contract of the whole call


CTOR = Contract(
    'Coarse_Cell_Container::Coarse_Cell_Container', on_apply=name_container, props=('C19', 'C18'), axioms=CT_AX + MARKS, lemmas=[CT_NONE],
    requires=[('graph given', lambda c: And(c.a(0) > 0, the_graph(c).n >= 0))],
    ensures=INV + [holds('waiting'), holds('singular'), ('nothing agglomerated', lambda c: And(K(c).n == the_graph(c).n, K(c).n_cc == 0, K(c).nb == 0, ForAll([x], Implies(K(c).fine(x), And(Not(K(c).has(x)), Not(at(K(c).agg, x)))), patterns=[at(K(c).f2c, x), at(K(c).agg, x)]))),
                   ('threshold and graph are stored', lambda c: And(K(c).thr == c.a(1), K(c).graph == c.a(0))), ('nothing waits', lambda c: ln(K(c).delayed) == 0)])


# -------------------------------------------------------- delayed creation
def ahead(c):
    """the sets not reached yet still wait"""
    q = K(c)
    D = ln(q.delayed)
    return And(ForAll([j, x], Implies(And(c.k <= j, j < D, mem(q.wait(j), x)), And(q.fine(x), at(q.agg, x), Not(q.has(x)))), patterns=[mem(q.wait(j), x)]),
               ForAll([x], Implies(And(q.fine(x), at(q.agg, x), Not(q.has(x))), Exists([j], And(c.k <= j, j < D, mem(q.wait(j), x)))), patterns=[at(q.agg, x)]))


def delayed_frame(c):
    q, o = K(c), K(c, old=True)
    p = Int('p')
    return And(q.n_cc == o.n_cc + c.k if isinstance(c.k, z3.ExprRef) else True, q.n == o.n, q.delayed == o.delayed, q.thr == o.thr, q.graph == o.graph, q.nb == o.nb,
               ForAll([x], at(q.agg, x) == at(o.agg, x), patterns=[at(q.agg, x)]), older(c))


def older(c, q=None):
    """existing coarse cells stay as they are"""
    q, o = q or K(c), K(c, old=True)
    p = Int('p')
    return And(q.limit >= o.limit, q.n_cc >= o.n_cc, ForAll([i], Implies(i < o.n_cc, q.ptr(i) == o.ptr(i)), patterns=[q.ptr(i)]),
               ForAll([x], Implies(And(o.fine(x), o.has(x)), at(q.f2c, x) == at(o.f2c, x)), patterns=[at(q.f2c, x)]),
               *[ForAll([p], Implies(p < o.limit, Select(q.h[f], p) == Select(o.h[f], p)), patterns=[Select(q.h[f], p)]) for f in CELL])


def created(c, upto):
    """coarse cell number N+j is the j-th waiting set"""
    q, o = K(c), K(c, old=True)
    return ForAll([j], Implies(And(0 <= j, j < upto), And(q.cell(o.n_cc + j, '_s_fc') == o.wait(j), q.cell(o.n_cc + j, '_is_isotropic'), q.cell(o.n_cc + j, '_compactness') == get(at(o.delayed, j), 'second'))),
                  patterns=[at(o.delayed, j)])


DELAYED = Contract(
    'Coarse_Cell_Container::cc_create_all_delayed_cc', props=('C19', 'C18'), axioms=CT_AX + MARKS, allocates=True,
    requires=INV + [holds('waiting'), holds('singular')],
    modifies=['_ccs', '_cc_counter', '_fc_2_cc', '_is_fc_agglomerated', '_nb_of_agglomerated_fc', '_delayed_cc', '_singular_cc'] + CELLS,
    ensures=INV + [holds('waiting'), holds('singular'), ('nothing waits', lambda c: ln(K(c).delayed) == 0), ('marks stay', lambda c: And(K(c).n == K(c, old=True).n, K(c).nb == K(c, old=True).nb, ForAll([x], at(K(c).agg, x) == at(K(c, old=True).agg, x), patterns=[at(K(c).agg, x)]))),
                   ('existing coarse cells stay', older), ('one coarse cell per waiting set, in order', lambda c: And(K(c).n_cc == K(c, old=True).n_cc + ln(K(c, old=True).delayed), created(c, ln(K(c, old=True).delayed))))],
    loops={0: Loop(INV + [holds('singular'), ('sets not reached still wait', ahead), ('the rest stays', delayed_frame), ('cells created so far', lambda c: created(c, c.k))])})


# ------------------------------------------------------------- coarse cells
def own_graph(c, old=False):
    return G(c, obj=c.obj((c.of if old else c.f)('_fc_graph', cls='Coarse_Cell'), 'Dual_Graph'), old=old)


GRAPH_OK = [('graph given', lambda c: c.f('_fc_graph', cls='Coarse_Cell') > 0), ('the graph is well formed', lambda c: own_graph(c).valid()), ('no self loops', lambda c: own_graph(c).noloops()),
            ('cells exist', lambda c: cells_of(own_graph(c), c.f('_s_fc', cls='Coarse_Cell')))]


def new_compactness(c, opt):
    return c.f('_compactness') == If(get(opt, 'has'), get(opt, 'val'), mc(own_graph(c), c.f('_s_fc')))


INSERT = Contract(
    'Coarse_Cell::insert_cell', props=('C19', 'C10', 'C18'), axioms=CNT_AX + MC_DEF,
    requires=GRAPH_OK + [('a cell not yet inside', lambda c: And(Not(mem(c.f('_s_fc'), c.a(0))), own_graph(c).cell(c.a(0))))],
    modifies=['_s_fc', '_cardinality', '_compactness'],
    ensures=[('the cell is added', lambda c: And(get(c.f('_s_fc'), 'mem') == Store(get(c.of('_s_fc'), 'mem'), c.o(0), True), get(c.f('_s_fc'), 'card') == get(c.of('_s_fc'), 'card') + 1)),
             ('size', lambda c: c.f('_cardinality') == c.of('_cardinality') + 1), ('compactness as given, else computed', lambda c: new_compactness(c, c.o(1)))])

UNION, UCARD = union_fn(ASET), union_card(ASET)


def disjoint(A, B):
    return ForAll([x], Not(And(mem(A, x), mem(B, x))), patterns=[mem(A, x), mem(B, x)])


INSERTS = Contract(
    'Coarse_Cell::insert_cells', props=('C19', 'C10', 'C18'), axioms=CNT_AX + MC_DEF,
    requires=GRAPH_OK + [('cells not yet inside', lambda c: disjoint(c.f('_s_fc'), c.a(0))), ('new cells exist', lambda c: cells_of(own_graph(c), c.a(0)))],
    modifies=['_s_fc', '_cardinality', '_compactness'],
    ensures=[('the cells are added', lambda c: And(ForAll([x], mem(c.f('_s_fc'), x) == Or(mem(c.of('_s_fc'), x), mem(c.o(0), x)), patterns=[mem(c.f('_s_fc'), x)]), get(c.f('_s_fc'), 'card') == get(c.of('_s_fc'), 'card') + get(c.o(0), 'card'))),
             ('as the union', lambda c: And(get(c.f('_s_fc'), 'mem') == UNION(get(c.of('_s_fc'), 'mem'), get(c.o(0), 'mem')),
                                            get(c.f('_s_fc'), 'card') == UCARD(get(c.of('_s_fc'), 'mem'), get(c.of('_s_fc'), 'card'), get(c.o(0), 'mem'), get(c.o(0), 'card')))),
             ('size', lambda c: c.f('_cardinality') == c.of('_cardinality') + get(c.o(0), 'card')), ('compactness as given, else computed', lambda c: new_compactness(c, c.o(1)))])


# -------------------------------------------------------------- correction
def fine_graph(c, old=False):
    return G(c, obj=c.obj((c.of if old else c.f)('_fc_graph', cls='Coarse_Cell_Container'), 'Dual_Graph'), old=old)


FINE = [('fine graph given', lambda c: c.f('_fc_graph') > 0), ('the fine graph is well formed', lambda c: fine_graph(c).valid()), ('no self loops', lambda c: fine_graph(c).noloops()),
        ('one entry per cell of the graph', lambda c: K(c).n == fine_graph(c).n)]


def all_named(q):
    return ForAll([x], Implies(q.fine(x), q.has(x)), patterns=[at(q.f2c, x)])


ALL_NAMED = ('every fine cell has a coarse cell', lambda c: all_named(K(c)))


def touched(c, R, upto=None):
    """every coarse cell next to the fine cell, other than the given one"""
    q, g, f = K(c), fine_graph(c), c.a(0)
    return ForAll([k], Implies(And(g.lo(f) <= k, k < (g.hi(f) if upto is None else upto), q.names(at(g.col, k)) != c.a(1)), mem(R, q.names(at(g.col, k)))), patterns=[at(g.col, k)])


def only_touched(c, R):
    q, g, f = K(c), fine_graph(c), c.a(0)
    return ForAll([j], Implies(mem(R, j), And(j != c.a(1), Exists([k], And(EDGE(f, k), FLIP(f, k), g.inrow(f, k), q.names(at(g.col, k)) == j)))), patterns=[mem(R, j)])


NEIGHS = Contract(
    'Coarse_Cell_Container::get_neighs_cc', props=('C19', 'C04', 'C18'), axioms=MARKS,
    requires=FINE + [ALL_NAMED, ('the fine cell exists', lambda c: K(c).fine(c.a(0)))],
    ensures=[('all coarse cells next to it', lambda c: touched(c, c.ret)), ('nothing else', lambda c: only_touched(c, c.ret))],
    loops={0: Loop([('neighbours so far', lambda c: touched(c, c.v('result', 'std::set<unsigned long>'), c.k)), ('nothing else', lambda c: only_touched(c, c.v('result', 'std::set<unsigned long>')))])})


PARTS = [holds(n) for n in ('shape', 'alive', 'within')]
LIVE = [('candidates exist', lambda c: ForAll([j], Implies(mem(c.a(1), j), And(K(c).live(j), j >= 0)), patterns=[mem(c.a(1), j)])), ('no compactness given', lambda c: Not(get(c.a(3), 'has')))]
DQ = 'std::deque<unsigned long>'


def joined(c, q, j):
    """compactness of coarse cell j together with the new cells"""
    S = q.cell(j, '_s_fc')
    g = fine_graph(c)
    r, cl = get(g.row, 'arr'), get(g.col, 'arr')
    m0, n0 = get(S, 'mem'), get(S, 'card')
    if c.a(0).sort() == z3.IntSort():
        return MC(r, cl, Store(m0, c.a(0), True), n0 + 1)
    return MC(r, cl, UNION(m0, get(c.a(0), 'mem')), UCARD(m0, n0, get(c.a(0), 'mem'), get(c.a(0), 'card')))


def picks(c, d):
    """positions of a list of candidates hold isotropic coarse cells whose joint compactness is known"""
    q = K(c)
    w = c.v('compact', 'std::unordered_map<unsigned long, int>', -1)
    arr = get(d, 'arr')
    return ForAll([k], Implies(And(get(d, 'lo') <= k, k < get(d, 'hi')), And(mem(c.a(1), Select(arr, k)), q.cell(Select(arr, k), '_is_isotropic'), mem(w, Select(arr, k)))), patterns=[Select(arr, k)])


def known(c):
    q = K(c)
    w = c.v('compact', 'std::unordered_map<unsigned long, int>', -1)
    return ForAll([j], Implies(mem(w, j), And(mem(c.a(1), j), q.cell(j, '_is_isotropic'), val(w, j) == joined(c, q, j))), patterns=[mem(w, j)])


def chosen(c):
    q = K(c)
    j = get(c.ret, 'val')
    return Implies(get(c.ret, 'has'), And(PAIR(c.a(0), j) if c.a(0).sort() == z3.IntSort() else True, mem(c.a(1), j), q.cell(j, '_is_isotropic'), Implies(get(c.a(3), 'has'), get(c.a(3), 'val') == joined(c, q, j))))


def one_of(c, name):
    d = c.v(name, DQ)
    r = c.v('ret_cc', 'unsigned long')
    w = c.v('compact', 'std::unordered_map<unsigned long, int>', -1)
    return And(mem(c.a(1), r), K(c).cell(r, '_is_isotropic'), mem(w, r))


def collected(c):
    it = c.counter_value()
    q, d = K(c), c.v('iso_neighs', DQ)
    return And(get(d, 'lo') <= get(d, 'hi'),
               ForAll([j], Implies(And(mem(c.a(1), j), it.enum.pos(j) < c.k, q.cell(j, '_is_isotropic')), get(d, 'lo') < get(d, 'hi')), patterns=[mem(c.a(1), j)]))


WHOLE = Contract(
    'Coarse_Cell_Container::select_best_cc_to_agglomerate_whole', props=('C19', 'C10', 'C04', 'C18'), axioms=MARKS + CNT_AX + MC_DEF,
    requires=FINE + PARTS + LIVE + [('new cells exist', lambda c: cells_of(fine_graph(c), c.a(0)))], modifies=[3],
    ensures=[('an isotropic candidate, with its joint compactness', chosen), ('compactness comes with the choice', lambda c: Implies(get(c.ret, 'has'), get(c.a(3), 'has')))],
    loops={0: Loop([('candidates so far', lambda c: picks(c, c.v('argtrue_compact', DQ))), ('joint compactness', known)]),
           1: Loop([('still a candidate', lambda c: one_of(c, 'argtrue_compact'))])})

FACES = Contract(
    'Coarse_Cell_Container::get_shared_faces', props=('C18',),
    requires=FINE[:2] + [('coarse cell given', lambda c: c.a(1) > 0), ('its cells exist', lambda c: cells_of(fine_graph(c), c.f('_s_fc', obj=c.obj(c.a(1), 'Coarse_Cell'))))],
    ensures=[('not negative', lambda c: c.ret >= 0)], loops={0: Loop([('not negative', lambda c: c.v('shared_faces', 'int') >= 0)])})

BEST = Contract(
    'Coarse_Cell_Container::select_best_cc_to_agglomerate', props=('C19', 'C10', 'C04', 'C18'), axioms=MARKS + CNT_AX + MC_DEF,
    requires=FINE + PARTS + LIVE + [('the new cell exists', lambda c: fine_graph(c).cell(c.a(0))), ('and is not inside a candidate', lambda c: ForAll([j], Implies(mem(c.a(1), j), Not(K(c).lists(j, c.a(0)))), patterns=[mem(c.a(1), j)]))],
    modifies=[3],
    ensures=[('an isotropic candidate, with its joint compactness', chosen),
             ('one is found if there is an isotropic one', lambda c: ForAll([j], Implies(And(mem(c.a(1), j), K(c).cell(j, '_is_isotropic')), get(c.ret, 'has')), patterns=[mem(c.a(1), j)]))],
    loops={0: Loop([('candidates so far', lambda c: And([picks(c, c.v(n, DQ)) for n in ('argtrue_compact', 'argmax_shared_f', 'argmin_card', 'iso_neighs')])), ('joint compactness', known), ('isotropic ones are collected', collected)]),
           1: Loop([('still a candidate', lambda c: one_of(c, 'argtrue_compact'))]),
           2: Loop([('still a candidate', lambda c: one_of(c, 'argmax_shared_f'))])})


# connected sets: every proper part has an edge leaving it inside the set
AI = z3.ArraySort(z3.IntSort(), z3.IntSort())
CONN = z3.Function('connected', AI, AI, ASET, z3.BoolSort())
_r, _cl = z3.Const('cr', AI), z3.Const('cc', AI)
_S, _S2, _T = z3.Const('cS', ASET), z3.Const('cS2', ASET), z3.Const('cT', ASET)


def edge(r, cl, S, T):
    """an edge from S inside T to S outside T"""
    return Exists([u, k], And(EDGE(u, k), FLIP(u, k), Select(S, u), Select(T, u), Select(r, u) <= k, k < Select(r, u + 1), Select(S, Select(cl, k)), Not(Select(T, Select(cl, k)))))


def cut(r, cl, S, T):
    return Implies(And(Exists([u], And(Select(S, u), Select(T, u))), Exists([u], And(Select(S, u), Not(Select(T, u))))), edge(r, cl, S, T))


def conn_def(r, cl, S):
    return CONN(r, cl, S) == ForAll([_T], cut(r, cl, S, _T))


# symmetric graphs
SYM = z3.Function('symmetric', AI, AI, z3.IntSort(), z3.BoolSort())
_e, _n = Ints('e n')


def sym_body(r, cl, n):
    return ForAll([u, k], Implies(And(FLIP(u, k), 0 <= u, u < n, Select(r, u) <= k, k < Select(r, u + 1)),
                                  Exists([_e], And(EDGE(Select(cl, k), _e), Select(r, Select(cl, k)) <= _e, _e < Select(r, Select(cl, k) + 1), Select(cl, _e) == u))), patterns=[FLIP(u, k)])


SYM_DEF = [ForAll([_r, _cl, _n], SYM(_r, _cl, _n) == sym_body(_r, _cl, _n), patterns=[SYM(_r, _cl, _n)])]


def inside(A, n):
    return ForAll([u], Implies(Select(A, u), And(0 <= u, u < n)), patterns=[Select(A, u)])


def link(r, cl, x, A):
    """an edge from x into the set"""
    return Exists([k], And(EDGE(x, k), Select(r, x) <= k, k < Select(r, x + 1), Select(A, Select(cl, k))))


def links(r, cl, A, B):
    """an edge from A into B"""
    return Exists([u, k], And(EDGE(u, k), Select(A, u), Select(r, u) <= k, k < Select(r, u + 1), Select(B, Select(cl, k))))


def no(q):
    """the negation of an existential with its marker as pattern"""
    vs = [z3.Const('q_' + q.var_name(n), q.var_sort(n)) for n in range(q.num_vars())]
    b = z3.substitute_vars(q.body(), *reversed(vs))
    return ForAll(vs, Not(b), patterns=[b.arg(0)])


_m0, _m1 = z3.Const('m0', ASET), z3.Const('m1', ASET)
UNION_DEF = [ForAll([_m0, _m1, x], Select(UNION(_m0, _m1), x) == Or(Select(_m0, x), Select(_m1, x)), patterns=[Select(UNION(_m0, _m1), x)])]
CONN_ADD = Lemma('a connected set and an adjacent cell',
                 ForAll([_r, _cl, _n, _S, x], Implies(And(SYM(_r, _cl, _n), CONN(_r, _cl, _S), 0 <= x, x < _n, Not(no(link(_r, _cl, x, _S)))), CONN(_r, _cl, Store(_S, x, True))),
                        patterns=[MultiPattern(SYM(_r, _cl, _n), CONN(_r, _cl, Store(_S, x, True)))]),
                 [('cut', SYM_DEF + MARKS, [SYM(_r, _cl, _n), sym_body(_r, _cl, _n), cut(_r, _cl, _S, _T), 0 <= x, x < _n, link(_r, _cl, x, _S)], cut(_r, _cl, Store(_S, x, True), _T)),
                  ('by definition', [conn_def(_r, _cl, _S), conn_def(_r, _cl, Store(_S, x, True))], [CONN(_r, _cl, _S), ForAll([_T], Implies(cut(_r, _cl, _S, _T), cut(_r, _cl, Store(_S, x, True), _T)))], CONN(_r, _cl, Store(_S, x, True)))])
CONN_UNION = Lemma('two connected sets joined by an edge',
                   ForAll([_r, _cl, _n, _S, _S2], Implies(And(SYM(_r, _cl, _n), CONN(_r, _cl, _S), CONN(_r, _cl, _S2), inside(_S2, _n), Not(no(links(_r, _cl, _S2, _S)))), CONN(_r, _cl, UNION(_S, _S2))),
                          patterns=[MultiPattern(SYM(_r, _cl, _n), CONN(_r, _cl, UNION(_S, _S2)))]),
                   [('cut', UNION_DEF + MARKS, [sym_body(_r, _cl, _n), inside(_S2, _n), cut(_r, _cl, _S, _T), cut(_r, _cl, _S2, _T), links(_r, _cl, _S2, _S)], cut(_r, _cl, UNION(_S, _S2), _T)),
                    ('by definition', [conn_def(_r, _cl, _S), conn_def(_r, _cl, _S2), conn_def(_r, _cl, UNION(_S, _S2))],
                     [CONN(_r, _cl, _S), CONN(_r, _cl, _S2), ForAll([_T], Implies(And(cut(_r, _cl, _S, _T), cut(_r, _cl, _S2, _T)), cut(_r, _cl, UNION(_S, _S2), _T)))], CONN(_r, _cl, UNION(_S, _S2)))])
CONN_ONE = Lemma('a single cell', ForAll([_r, _cl, _S, x], Implies(And(Select(_S, x), ForAll([u], Implies(Select(_S, u), u == x), patterns=[Select(_S, u)])), CONN(_r, _cl, _S)),
                                         patterns=[MultiPattern(CONN(_r, _cl, _S), Select(_S, x))]),
                 [('cut', [], [Select(_S, x), ForAll([u], Implies(Select(_S, u), u == x), patterns=[Select(_S, u)])], cut(_r, _cl, _S, _T)),
                  ('by definition', [conn_def(_r, _cl, _S)], [ForAll([_T], cut(_r, _cl, _S, _T))], CONN(_r, _cl, _S))])


def connected(g, S):
    return CONN(get(g.row, 'arr'), get(g.col, 'arr'), get(S, 'mem'))


def symmetric(g):
    return SYM(get(g.row, 'arr'), get(g.col, 'arr'), g.n)


class Fix:
    """The correction in progress: o is the container at its start."""

    def __init__(self, c):
        self.c, self.q, self.o, self.g = c, K(c), K(c, old=True), fine_graph(c)
        self.lo = get(self.q.sing, 'lo')

    def removed(self):
        return self.c.v('removed_cc', 'std::set<unsigned long>')

    def gone(self, q):
        return mem(self.removed(), q)

    def iso(self, q):
        return self.q.cell(q, '_is_isotropic')

    # ---- what holds between two singular cells
    def living(self):
        q = self.q
        return And(q.n_cc == self.o.n_cc, q.n == self.o.n, ForAll([i], q.live(i) == And(q.id(i), Not(self.gone(i))), patterns=[q.live(i), NOTE(i)]),
                   ForAll([i], Implies(self.gone(i), And(q.id(i), self.o.small(i))), patterns=[self.gone(i)]))

    def later_live(self, kk):
        q = self.q
        return ForAll([j], Implies(And(self.lo + kk <= j, j < get(q.sing, 'hi')), And(Not(self.gone(q.slot(j))), q.id(q.slot(j)))), patterns=[q.slot(j)])

    def grown(self):
        q, o = self.q, self.o
        return And(ForAll([i], Implies(q.id(i), And(q.ptr(i) == o.ptr(i), Implies(Not(self.iso(i)), q.cell(i, '_s_fc') == o.cell(i, '_s_fc')))), patterns=[q.ptr(i)]),
                   ForAll([i], Implies(q.id(i), get(q.cell(i, '_s_fc'), 'card') >= get(o.cell(i, '_s_fc'), 'card')), patterns=[q.ptr(i)]),
                   ForAll([i, x], Implies(And(q.id(i), o.lists(i, x)), q.lists(i, x)), patterns=[o.lists(i, x)]))

    def linked(self):
        q = self.q
        return ForAll([i], Implies(q.live(i), connected(self.g, q.cell(i, '_s_fc'))), patterns=[q.ptr(i)])

    def settled(self, kk):
        q = self.q
        s_ = q.slot(j)
        return ForAll([j, x, k], Implies(And(EDGE(x, k), self.lo <= j, j < self.lo + kk, q.live(s_), q.small(s_), q.lists(s_, x), self.g.inrow(x, k)),
                                         Or(q.names(at(self.g.col, k)) == s_, Not(self.iso(q.names(at(self.g.col, k)))))), patterns=[MultiPattern(s_, EDGE(x, k))])

    # ---- while the cells of one singular cell move
    def cur(self):
        return self.c.v('old_cc', 'unsigned long')

    def exact_but(self, left):
        q, b = self.q, self.cur()
        return And(ForAll([i, x], Implies(And(q.live(i), i != b, q.lists(i, x)), And(q.fine(x), q.has(x), q.names(x) == i)), patterns=[q.lists(i, x)]),
                   ForAll([x], Implies(And(q.fine(x), q.has(x), q.live(q.names(x)), q.names(x) != b), q.lists(q.names(x), x)), patterns=[at(q.f2c, x)]),
                   ForAll([x], And(Implies(And(q.fine(x), q.names(x) == b), mem(left, x)), Implies(mem(left, x), And(q.fine(x), q.names(x) == b, q.lists(b, x)))), patterns=[at(q.f2c, x), mem(left, x)]))

    def moved_ok(self, left):
        """cells that left are in live isotropic coarse cells"""
        q, b = self.q, self.cur()
        return ForAll([x], Implies(And(q.lists(b, x), Not(mem(left, x))), And(q.fine(x), self.iso(q.names(x)), q.names(x) != b)), patterns=[q.lists(b, x)])

    def table(self, name='neighs_by_fc'):
        return self.c.v(name, 'std::unordered_map<unsigned long, std::set<unsigned long>>')

    def stale(self):
        """the table lists, per cell, exactly the other coarse cells next to it when the cell was taken up (their neighbours outside do not move)"""
        q, g, b, t = self.q, self.g, self.cur(), self.table()
        S = q.cell(b, '_s_fc')
        y = at(g.col, k)
        return And(ForAll([x, k], Implies(And(EDGE(x, k), mem(t, x), g.inrow(x, k), Not(mem(S, y))), mem(val(t, x), q.names(y))), patterns=[EDGE(x, k)]),
                   ForAll([x, j], Implies(And(mem(t, x), mem(val(t, x), j)), And(j != b, q.live(j), j >= 0)), patterns=[mem(val(t, x), j)]),
                   ForAll([x, j], Implies(And(PAIR(x, j), mem(t, x), mem(val(t, x), j)), Exists([k], And(EDGE(x, k), FLIP(x, k), g.inrow(x, k), Not(mem(S, y)), q.names(y) == j))), patterns=[PAIR(x, j)]))

    def tabled(self, upto=None):
        q, b, t = self.q, self.cur(), self.table()
        S = q.cell(b, '_s_fc')
        lim = (lambda z: True) if upto is None else upto
        return ForAll([x], mem(t, x) == And(mem(S, x), lim(x)), patterns=[mem(t, x), mem(S, x)])


def F_(m, *a):
    return lambda c: getattr(Fix(c), m)(*a)


def same_old(c):
    """the singular cell itself keeps its record"""
    q, e, b = K(c), K(c, old='entry'), Fix(c).cur()
    return And(*[q.cell(b, f) == e.cell(b, f) for f in ('_s_fc', '_cardinality')])


def right_compact(c, old=False):
    q, g = K(c, old=old), fine_graph(c)
    return ForAll([i], Implies(And(q.live(i), q.cell(i, '_is_isotropic')), q.cell(i, '_compactness') == mc(g, q.cell(i, '_s_fc'))), patterns=[q.ptr(i)])


def kept_compact(c):
    return Implies(right_compact(c, True), right_compact(c))


LEFT = lambda c: c.v('left', SETT)
BETWEEN = [holds(n) for n in ('shape', 'alive', 'selfaware', 'inrange', 'within')] + [ALL_NAMED, ('living coarse cells', F_('living')), ('coarse cells only grow, anisotropic ones stay', F_('grown')),
          ('recorded compactness', kept_compact), ('connected', F_('linked'))]
DURING = BETWEEN + [('records of the other coarse cells', lambda c: Fix(c).exact_but(LEFT(c))), ('moved cells are in isotropic ones', lambda c: Fix(c).moved_ok(LEFT(c))), ('the singular cell keeps its record', same_old),
                    ('later singular cells live', lambda c: Fix(c).later_live(c.outer(0).pos)), ('settled ones stay settled', lambda c: Fix(c).settled(c.outer(0).pos))]


def no_iso_in_table(c):
    f = Fix(c)
    it = c.counter_value()
    t, L = f.table(), LEFT(c)
    return ForAll([x, j], Implies(And(mem(t, x), it.enum.pos(x) < c.k, mem(L, x), mem(val(t, x), j)), Not(f.iso(j))), patterns=[mem(val(t, x), j)])


def at_hand(c):
    """arithmetic: the element not visited before but after this step is the one at hand"""
    it = c.counter_value()
    c.st.assume(ForAll([x], Implies(And(Not(it.enum.pos(x) < c.k), it.enum.pos(x) < c.k + 1), And(it.enum.pos(x) == c.k, it.enum.at(it.enum.pos(x)) == it.enum.at(c.k))), patterns=[it.enum.pos(x)]))


def not_yet(c):
    it = c.counter_value()
    t, L = Fix(c).table(), LEFT(c)
    return ForAll([x], Implies(And(mem(t, x), it.enum.pos(x) >= c.k), mem(L, x)), patterns=[mem(t, x)])


def any_moved(c):
    f = Fix(c)
    L, S = LEFT(c), f.q.cell(f.cur(), '_s_fc')
    r = c.v('should_remove', 'bool')
    return And(Implies(r, Exists([x], And(mem(S, x), Not(mem(L, x))))), Implies(Not(r), ForAll([x], mem(S, x) == mem(L, x), patterns=[mem(S, x), mem(L, x)])),
               ForAll([x], Implies(mem(L, x), mem(S, x)), patterns=[mem(L, x)]))


def no_way(c):
    """visited cells of the rest have no isotropic neighbour"""
    f = Fix(c)
    it = c.v('it')
    L = LEFT(c)
    y = at(f.g.col, k)
    return ForAll([x, k], Implies(And(EDGE(x, k), mem(L, x), it.enum.pos(x) < it.pos, f.g.inrow(x, k)), Or(f.q.names(y) == f.cur(), Not(f.iso(f.q.names(y))))), patterns=[EDGE(x, k)])


def all_leave(c):
    """definition of connectedness for the cells that are left"""
    f = Fix(c)
    S = get(f.q.cell(f.cur(), '_s_fc'), 'mem')
    r, cl = get(f.g.row, 'arr'), get(f.g.col, 'arr')
    c.st.assume(Implies(CONN(r, cl, S), cut(r, cl, S, get(LEFT(c), 'mem'))))


def globs(c):
    f = Fix(c)
    q, b = f.q, f.cur()
    gl = c.v('glob_neighs', 'std::set<unsigned long>', 1)
    t = f.table()
    return ForAll([j], Implies(mem(gl, j), And(j != b, q.live(j), j >= 0, Not(ForAll([x], Not(And(PAIR(x, j), mem(t, x), mem(val(t, x), j))), patterns=[mem(val(t, x), j)])))), patterns=[mem(gl, j)])


def renamed(c):
    it = c.counter_value()
    q, e, f = K(c), K(c, old='entry'), Fix(c)
    S = q.cell(f.cur(), '_s_fc')
    n = get(c.v('new_cc', 'std::optional<unsigned long>', -1), 'val')
    return And(q.n == e.n, ForAll([x], Implies(q.fine(x), at(q.f2c, x) == If(And(mem(S, x), it.enum.pos(x) < c.k), get_some(q.f2c, n), at(e.f2c, x))), patterns=[at(q.f2c, x)]))


# the renumbering
class Num(Fix):
    def key(self):
        return self.c.v('it_cc')

    def nid(self):
        return self.c.v('new_ID', 'unsigned long')

    def was(self, p):
        return Select(self.o.h['_idx'], p)

    def live0(self, q):
        return And(self.o.id(q), Not(self.gone(q)))

    def ahead(self, q):
        it = self.key()
        return And(Not(it.end), q >= it.key, self.live0(q))

    def keys(self):
        q, it, n = self.q, self.key(), self.nid()
        return And(n >= 0, Implies(Not(it.end), And(n < it.key, self.live0(it.key))), ForAll([i], q.live(i) == Or(And(0 <= i, i < n), self.ahead(i)), patterns=[q.live(i), NOTE(i)]))

    def objects(self):
        q, o, it, n = self.q, self.o, self.key(), self.nid()
        p = q.ptr(i)
        return And(ForAll([i], Implies(self.ahead(i), p == o.ptr(i)), patterns=[p]),
                   ForAll([i], Implies(And(0 <= i, i < n), And(self.live0(self.was(p)), p == o.ptr(self.was(p)), Or(it.end, self.was(p) < it.key))), patterns=[p]),
                   ForAll([i, j], Implies(And(0 <= i, i < j, j < n), self.was(q.ptr(i)) < self.was(q.ptr(j))), patterns=[MultiPattern(q.ptr(i), q.ptr(j))]),
                   ForAll([j], Implies(And(NOTE(j), self.live0(j), Not(self.ahead(j))), And(0 <= Select(q.h['_idx'], o.ptr(j)), Select(q.h['_idx'], o.ptr(j)) < n, q.ptr(Select(q.h['_idx'], o.ptr(j))) == o.ptr(j))), patterns=[NOTE(j)]),
                   ForAll([i], Implies(And(0 <= i, i < n, ForAll([j], Implies(And(0 <= j, j <= i), Not(self.gone(j))), patterns=[self.gone(j)])), p == o.ptr(i)), patterns=[p]))


def named_by_object(c):
    """each fine cell names the number of the object that lists it"""
    f = Num(c)
    q, e = f.q, K(c, old='entry')
    return And(q.n == e.n)


def r7(c):
    f = Num(c)
    it = c.counter_value()
    q, e = f.q, K(c, old='entry')
    S = q.cell(f.key().key, '_s_fc')
    return And(q.n == e.n, ForAll([x], Implies(q.fine(x), at(q.f2c, x) == If(And(mem(S, x), it.enum.pos(x) < c.k), get_some(q.f2c, f.nid()), at(e.f2c, x))), patterns=[at(q.f2c, x)]))


def survivors(c, q=None, o=None):
    """coarse cells after the correction are old ones, in the old order, with their fine cells kept; anisotropic ones have exactly theirs"""
    q, o = q or K(c), o or K(c, old=True)
    w = lambda z: Select(o.h['_idx'], q.ptr(z))
    return And(ForAll([i], Implies(q.id(i), And(o.id(w(i)), q.ptr(i) == o.ptr(w(i)), q.cell(i, '_is_isotropic') == o.cell(w(i), '_is_isotropic'), Implies(Not(q.cell(i, '_is_isotropic')), q.cell(i, '_s_fc') == o.cell(w(i), '_s_fc')))), patterns=[q.ptr(i)]),
               ForAll([i, x], Implies(And(q.id(i), o.lists(w(i), x)), q.lists(i, x)), patterns=[MultiPattern(q.ptr(i), at(q.f2c, x))]),
               ForAll([i, j], Implies(And(0 <= i, i < j, j < q.n_cc), w(i) < w(j)), patterns=[MultiPattern(q.ptr(i), q.ptr(j))]))


def big_survive(c, q=None, o=None):
    q, o = q or K(c), o or K(c, old=True)
    n = Select(q.h['_idx'], o.ptr(j))
    return ForAll([j], Implies(And(NOTE(j), o.id(j), Not(o.small(j))), And(q.id(n), q.ptr(n) == o.ptr(j))), patterns=[NOTE(j)])


def prefix_stays(c, q=None, o=None):
    """coarse cells before the first too-small one keep their numbers"""
    q, o = q or K(c), o or K(c, old=True)
    return ForAll([i], Implies(And(o.id(i), ForAll([j], Implies(And(0 <= j, j <= i), Not(o.small(j))), patterns=[o.ptr(j)])), And(q.id(i), q.ptr(i) == o.ptr(i))), patterns=[o.ptr(i)])


def none_small(c, q=None, o=None):
    q, o = q or K(c), o or K(c, old=True)
    return Implies(ForAll([i], Implies(o.id(i), Not(o.small(i))), patterns=[o.ptr(i)]), And(q.n_cc == o.n_cc, q.f2c == o.f2c))


def no_small_left(c, q=None, o=None, g=None):
    q, o, g = q or K(c), o or K(c, old=True), g or fine_graph(c)
    y = at(g.col, k)
    was = lambda z: Select(o.h['_idx'], q.ptr(z))
    return ForAll([i, x, k], Implies(And(EDGE(x, k), NOTE(i), NOTE(was(i)), NOTE(was(q.names(y))), q.id(i), q.small(i), q.lists(i, x), g.inrow(x, k)), Or(q.names(y) == i, Not(q.cell(q.names(y), '_is_isotropic')))), patterns=[MultiPattern(q.ptr(i), EDGE(x, k))])


SHARED = ('coarse cells share the graph', lambda c: ForAll([i], Implies(K(c).live(i), K(c).cell(i, '_fc_graph') == K(c).graph), patterns=[K(c).ptr(i)]))
CONNECTED = ('coarse cells are connected', lambda c: Fix(c).linked())
CORRECT = Contract(
    'Coarse_Cell_Container::correct', on_apply=name_before, props=('C19', 'C04', 'C02', 'C01', 'C10', 'C18'), axioms=MARKS + UNION_DEF + SYM_DEF, lemmas=[CONN_ADD, CONN_UNION], keyed=('map',), merge=True,
    requires=INV + FINE + [('symmetric graph', lambda c: symmetric(fine_graph(c))), ALL_NAMED, CONNECTED, holds('singular'), SHARED],
    modifies=['_ccs', '_cc_counter', '_fc_2_cc'] + CELLS,
    ensures=INV + [ALL_NAMED, ('recorded compactness of isotropic coarse cells (kept)', kept_compact), CONNECTED, ('survivors keep order and fine cells', survivors), ('coarse cells above the threshold and anisotropic ones survive', big_survive),
                   ('numbers before the first too-small one stay', prefix_stays), ('nothing changes without too-small ones', none_small), ('no too-small coarse cell touches another isotropic one', no_small_left)],
    loops={0: Loop(BETWEEN + [holds('exact'), ('later singular cells live', lambda c: Fix(c).later_live(c.k)), ('settled', lambda c: Fix(c).settled(c.k)), ('nothing changed without too-small ones', none_small)]),
           1: Loop([('table so far', lambda c: And(Fix(c).tabled(lambda z: c.counter_value().enum.pos(z) < c.k), Fix(c).stale()))]),
           2: Loop([('adjacent coarse cells', globs)]),
           3: Loop([('names so far', renamed)]),
           4: Loop(DURING + [('table', lambda c: And(Fix(c).tabled(), Fix(c).stale())), ('no isotropic neighbour for those that stay', no_iso_in_table), ('rest not visited', not_yet), ('something moved', any_moved)], at_body=at_hand),
           5: Loop(DURING + [('no isotropic neighbour for those visited', no_way), ('something moved', any_moved)], at_exit=all_leave, variant=lambda c: (get(LEFT(c), 'card'), get(LEFT(c), 'card') - c.pos('it'))),
           6: Loop([holds(n) for n in ('shape', 'alive', 'selfaware', 'exact', 'inrange')] + [ALL_NAMED, ('keys', lambda c: Num(c).keys()), ('objects', lambda c: Num(c).objects())]),
           7: Loop([('names so far', r7)])})

CLASSES = {'Coarse_Cell': 1, 'Coarse_Cell_Container': 1, 'Dual_Graph': 1, 'Graph': 1}
CONTRACTS = [CREATE, CTOR, DELAYED, INSERT, INSERTS, NEIGHS, WHOLE, FACES, BEST, CORRECT]
