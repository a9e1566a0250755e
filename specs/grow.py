"""Contracts of the growth of isotropic coarse cells (Agglomerator.h): candidate lists
over whole histories, the choice of the next cell, and the growth loop."""
import z3
from z3 import And, Or, Not, Implies, ForAll, Exists, If, Select, Store, Int, Ints, IntVal, MultiPattern
from vf.contract import Contract, Loop
from vf.exec import Obj
from vf.types import get, parse, sort_of
from vf.proofs import Lemma
from vf import types as T
from .util import ln, at
from .graph import mem, G, ASET, AINT, IS, cells_of, CNT, CNT_AX, mc, MC, MC_DEF
from .neigh import (N, Q, FIRST, FIRST_AX, inq, lo, hi, size, distinct, eligible, levels_ok, EXTENDED, PURE_FRONT, SETP, RANGE, p_, COMMON as WEIGHTS)

from .features import Mesh, ESYM, WSYM, ESYM_AX, _cntrow
from .container import SYM, SYM_DEF, CONN, CONN_ADD, CONN_ONE, MARKS, EDGE, FLIP, inside
from .coarse import CNT_POS, NONNEG

i, j, k, u, v, w, x, m = Ints('i j k u v w x m')
SETT = 'std::unordered_set<unsigned long>'
MAPT = 'std::unordered_map<unsigned long, int>'

# the fine graph of the agglomeration under way
THE = Int('the_graph')
_S, _F = z3.Const('nS', ASET), z3.Const('nF', ASET)
_r, _c = z3.Const('nr', AINT), z3.Const('nc', AINT)


def the_graph(c):
    return G(c, Obj(THE, 'Dual_Graph'))


# CLOSED(r, c, S, F): no cell of F has a neighbour in S outside F
CLOSED = z3.Function('closed_in', AINT, AINT, ASET, ASET, z3.BoolSort())


def closed_def(r, c, S, F):
    return ForAll([u, k], Implies(And(Select(F, u), Select(r, u) <= k, k < Select(r, u + 1), Select(S, Select(c, k))), Select(F, Select(c, k))),
                  patterns=[MultiPattern(Select(F, u), Select(c, k))])


CLOSED_AX = [ForAll([_r, _c, _S, _F], CLOSED(_r, _c, _S, _F) == closed_def(_r, _c, _S, _F), patterns=[CLOSED(_r, _c, _S, _F)])]


def listed_by(g, F, x):
    """some cell of F lists x as neighbour"""
    return Exists([u, k], And(Select(F, u), g.inrow(u, k), at(g.col, k) == x))


_n, _k = Ints('nn nk')
SHARES = Lemma('a cell listed by a set shares faces with it',
    ForAll([_r, _c, _n, _F, x], Implies(And(SYM(_r, _c, _n), inside(_F, _n), Exists([u, k], And(Select(_F, u), Select(_r, u) <= k, k < Select(_r, u + 1), Select(_c, k) == x))), _cntrow(_F, _r, _c, x) > 0),
           patterns=[MultiPattern(SYM(_r, _c, _n), _cntrow(_F, _r, _c, x))]),
    [('back', SYM_DEF + MARKS + [CNT_POS.statement], [SYM(_r, _c, _n), inside(_F, _n), Select(_F, u), Select(_r, u) <= k, k < Select(_r, u + 1), Select(_c, k) == x, FLIP(u, k)], _cntrow(_F, _r, _c, x) > 0)])
CONN_GROW = Lemma('a connected set and a cell that shares faces with it',
    ForAll([_r, _c, _n, _F, x], Implies(And(SYM(_r, _c, _n), CONN(_r, _c, _F), 0 <= x, x < _n, _cntrow(_F, _r, _c, x) > 0), CONN(_r, _c, Store(_F, x, True))),
           patterns=[MultiPattern(SYM(_r, _c, _n), CONN(_r, _c, Store(_F, x, True)))]),
    [('an entry', [CNT_POS.statement], [_cntrow(_F, _r, _c, x) > 0], Exists([k], And(Select(_r, x) <= k, k < Select(_r, x + 1), Select(_F, Select(_c, k))))),
     ('adjacent', [CONN_ADD.statement] + MARKS, [SYM(_r, _c, _n), CONN(_r, _c, _F), 0 <= x, x < _n, EDGE(x, k), Select(_r, x) <= k, k < Select(_r, x + 1), Select(_F, Select(_c, k))], CONN(_r, _c, Store(_F, x, True)))])

# --------------------------------------------------------- the neighbourhoods
NB = {'_s_neighbours_of_seed': SETT, '_s_fc': SETT, '_candidates': 'std::deque<unsigned long>', '_weights': 'std::vector<double>'}
PF = {'_q_neighs_w_weights': 'std::deque<%s>' % SETP, '_dimension': 'int'}
NB_HEAP = [('heap', 'Neighbourhood::' + n, t) for n, t in NB.items()] + [('heap', 'Neighbourhood_Pure_Front::' + n, t) for n, t in PF.items()]
TAG = z3.Function('class_of', IS, IS)             # the class of a neighbourhood
MAKES = z3.Function('class_made_by', IS, IS)      # the class of the neighbourhoods of a creator


class H:
    """A neighbourhood object, of whatever class."""

    def __init__(self, c, obj=None, old=False):
        f = c.of if old else c.f
        self.obj = obj if obj is not None else c.this
        self.S, self.F, self.C, self.wt = [f(n, obj=self.obj, cls='Neighbourhood') for n in NB]
        self.Q, self.dim = [f(n, obj=self.obj, cls='Neighbourhood_Pure_Front') for n in PF]
        self.c = c

    def values(self):
        return [self.S, self.F, self.C, self.wt, self.Q, self.dim]

    def inv(self):
        """Stands for the invariant of the class, ext_inv or front_inv."""
        g = the_graph(self.c)
        a = [TAG(self.obj.ref)] + self.values() + [get(g.row, 'arr'), get(g.col, 'arr')]
        return z3.Function('neighbourhood_ok', *[y.sort() for y in a], z3.BoolSort())(*a)


def cells_F(c, F):
    return ForAll([u], Implies(mem(F, u), the_graph(c).cell(u)), patterns=[mem(F, u)])


def ext_inv(c, obj=None):
    n, g = H(c, obj), the_graph(c)
    y = at(g.col, k)
    return [('cells', cells_F(c, n.F)), ('candidates are different', distinct(n.C)), ('candidates are eligible', eligible(n, n.C, n.F)),
            ('candidates are listed', ForAll([i], Implies(And(lo(n.C) <= i, i < hi(n.C)), listed_by(g, get(n.F, 'mem'), at(n.C, i))), patterns=[at(n.C, i)])),
            ('eligible neighbours are candidates', ForAll([u, k], Implies(And(mem(n.F, u), g.inrow(u, k), mem(n.S, y), Not(mem(n.F, y))), inq(n.C, y)), patterns=[MultiPattern(mem(n.F, u), y)]))]


class QH(H):
    def ok(self, x, F):
        return And(mem(self.S, x), Not(mem(F, x)))


def front_inv(c, obj=None):
    n, g = QH(c, obj), the_graph(c)
    y = at(g.col, k)
    pr = T.mk(p_.sort(), y, at(n.wt, y))
    return [('cells', cells_F(c, n.F)), ('dimension', n.dim >= 2), ('levels hold eligible cells', levels_ok(n, n.Q, n.F)),
            ('cells of levels are listed', ForAll([i, p_], Implies(And(lo(n.Q) <= i, i < hi(n.Q), mem(at(n.Q, i), p_)), listed_by(g, get(n.F, 'mem'), get(p_, 'first'))), patterns=[mem(at(n.Q, i), p_)])),
            ('eligible neighbours are in a level', ForAll([u, k], Implies(And(mem(n.F, u), g.inrow(u, k), mem(n.S, y), Not(mem(n.F, y))),
                                                                       Exists([j], And(lo(n.Q) <= j, j < hi(n.Q), mem(at(n.Q, j), pr)), patterns=[mem(at(n.Q, j), pr)])), patterns=[MultiPattern(mem(n.F, u), y)]))]


def given_row(c):
    """the range given is the row of the cell"""
    n, g = N(c), the_graph(c)
    return And(n.rng == g.col, g.cell(n.new), n.nb == g.lo(n.new), n.ne == g.hi(n.new))


GRAPH_OK = ('the graph is well formed', lambda c: the_graph(c).valid())
ROW = ('the neighbours given are those of the cell', given_row)
ADDED = ('the cell is added to the set', lambda c: get(H(c).F, 'mem') == Store(get(H(c, old=True).F, 'mem'), c.a(0), True))
ELIG = ('candidates are eligible', lambda c: eligible(H(c), H(c).C, H(c).F))


def listed(c, obj=None):
    n, g = H(c, obj), the_graph(c)
    return ForAll([i], Implies(And(lo(n.C) <= i, i < hi(n.C)), listed_by(g, get(n.F, 'mem'), at(n.C, i))), patterns=[at(n.C, i)])


LISTED = ('candidates are listed by an added cell', lambda c: listed(c))
NONE_LEFT = ('no candidate only when no neighbour is eligible', lambda c: Implies(size(H(c).C) == 0, CLOSED(get(the_graph(c).row, 'arr'), get(the_graph(c).col, 'arr'), get(H(c).S, 'mem'), get(H(c).F, 'mem'))))
GROW_NB = ['Neighbourhood::_s_fc', 'Neighbourhood::_candidates', 'Neighbourhood_Pure_Front::_q_neighs_w_weights']

UPDATE = Contract(
    'Neighbourhood::update_it', props=('C11', 'C02', 'C03'), abstract=True,
    requires=[GRAPH_OK, ROW] + WEIGHTS + [('abstract: invariant of the class', lambda c: H(c).inv())],
    ensures=[ADDED, ELIG, LISTED, NONE_LEFT, ('abstract: invariant of the class', lambda c: H(c).inv())], modifies=GROW_NB)


def history(base, inv, names):
    """the same function over whole histories in one graph"""
    part = lambda nm: lambda c: dict(inv(c))[nm]
    return Contract(base.name, props=('C11',), ranges=RANGE, implements=UPDATE, by=base,
                    requires=[GRAPH_OK, ROW] + WEIGHTS + [('abstract: ' + n, part(n)) for n in names],
                    ensures=[ADDED, ELIG] + [('abstract: ' + n, part(n)) for n in names] + [LISTED, NONE_LEFT],
                    modifies=GROW_NB, axioms=FIRST_AX + CLOSED_AX)


EXT_NAMES = ['cells', 'candidates are different', 'candidates are eligible', 'candidates are listed', 'eligible neighbours are candidates']
PF_NAMES = ['cells', 'dimension', 'levels hold eligible cells', 'cells of levels are listed', 'eligible neighbours are in a level']
EXT_H, PF_H = history(EXTENDED, ext_inv, EXT_NAMES), history(PURE_FRONT, front_inv, PF_NAMES)


# ------------------------------------------------------------- the creators
def older(c, heaps):
    """objects that existed before stay as they were"""
    lim = c.pre.ghost['_limit']
    new = lambda key, t: Select(c.ex.named_heap(c.st, key, parse(t)), x)
    return And([ForAll([x], Implies(And(0 < x, x < lim), new(key, t) == Select(c.ex.heap_arr(c.pre, key, parse(t)), x)), patterns=[new(key, t)]) for _, key, t in heaps])


def made(c):
    return Obj(c.ret, 'Neighbourhood')


NEW = ('a new object', lambda c: And(c.ret >= c.pre.ghost['_limit'], c.ret < c.st.ghost['_limit'], c.ret > 0))
OLDER = ('older neighbourhoods stay', lambda c: older(c, NB_HEAP))
BLANK = ('empty, on the given cells and weights', lambda c: (lambda n: And(n.S == c.a(0), n.wt == c.a(1), get(n.F, 'mem') == z3.K(IS, z3.BoolVal(False)), get(n.F, 'card') == 0, size(n.C) == 0))(H(c, made(c))))
CREATE = Contract(
    'NeighbourhoodCreator::create', props=('C11', 'C02', 'C03'), abstract=True, allocates=True,
    requires=[('dimension', lambda c: c.a(2) >= 2)],
    ensures=[NEW, OLDER, BLANK, ('abstract: its class and invariant', lambda c: And(TAG(c.ret) == MAKES(c.this.ref), H(c, made(c)).inv()))], modifies=NB_HEAP)
COPIED = ('same contents', lambda c: And([a == b for a, b in zip(H(c, made(c)).values()[:4], H(c, Obj(c.o(0), 'Neighbourhood'), True).values()[:4])]))
CLONE = Contract(
    'NeighbourhoodCreator::clone', props=('C11', 'C02', 'C03'), abstract=True, allocates=True,
    requires=[('there is one to copy', lambda c: And(c.a(0) > 0, c.a(0) < c.st.ghost['_limit'])), ('abstract: of the class of this creator', lambda c: TAG(c.a(0)) == MAKES(c.this.ref))],
    ensures=[NEW, OLDER, COPIED, ('abstract: its class, invariant kept', lambda c: And(TAG(c.ret) == MAKES(c.this.ref), Implies(H(c, Obj(c.o(0), 'Neighbourhood'), True).inv(), H(c, made(c)).inv())))], modifies=NB_HEAP)


def creator(cls, made_cls, inv, names):
    isa = lambda c: z3.BoolVal(c.st.dyn.get(c.ret.sexpr()) == made_cls)

    def setup(ex, st, this, args):
        st.dyn[ex.rv(st, args[0]).sexpr()] = made_cls
    return [Contract(cls + '::create', props=('C11',), implements=CREATE, requires=CREATE.requires,
                     ensures=[NEW, OLDER, BLANK, ('abstract: its class', isa)] + [('abstract: ' + n, lambda c, n=n: dict(inv(c, made(c)))[n]) for n in names], modifies=NB_HEAP, axioms=FIRST_AX),
            Contract(cls + '::clone', props=('C11',), implements=CLONE, requires=CLONE.requires[:1], setup=setup,
                     ensures=[NEW, OLDER, COPIED, ('abstract: its class', isa), ('abstract: same contents of the class', lambda c: And([a == b for a, b in zip(H(c, made(c)).values()[4:], H(c, Obj(c.o(0), 'Neighbourhood'), True).values()[4:])] if made_cls == 'Neighbourhood_Pure_Front' else []))], modifies=NB_HEAP)]


CREATORS = creator('NeighbourhoodExtendedCreator', 'Neighbourhood_Extended', ext_inv, EXT_NAMES) + creator('NeighbourhoodPureFrontCreator', 'Neighbourhood_Pure_Front', front_inv, PF_NAMES)


# --------------------------------------------------- the best cell to add
AGG = 'Agglomerator'
ISO = 'Agglomerator_Isotropic'


def mesh(c):
    return Mesh(c, Obj(THE, 'Dual_Graph'))


def computer(c):
    return c.f('_ar_computer', cls=ISO)


def right(c, f, S):
    """the features are right for the set, as far as the computer of this agglomerator keeps them"""
    g = mesh(c)
    a = [computer(c), g.r, g.c, g.w, g.va, g.b, g.cen, f, S]
    return z3.Function('features_right', *[y.sort() for y in a], z3.BoolSort())(*a)


MESH = [('the graph of the agglomerator', lambda c: And(c.f('_fc_graph', cls=AGG) == THE, THE > 0, THE < c.st.ghost['_limit'])),
        ('the graph is well formed', lambda c: mesh(c).valid()), ('no self loops', lambda c: mesh(c).noloops()), ('every neighbour is listed once', lambda c: mesh(c).distinct()),
        ('centres of one dimension', lambda c: mesh(c).geometry()), ('entries are symmetric', lambda c: And(ESYM(mesh(c).r, mesh(c).c, mesh(c).n), WSYM(mesh(c).r, mesh(c).c, mesh(c).w, mesh(c).n))),
        ('symmetric graph', lambda c: SYM(mesh(c).r, mesh(c).c, mesh(c).n)),
        ('a computer of aspect ratios on this graph', lambda c: And(computer(c) > 0, computer(c) < c.st.ghost['_limit'], c.f('_graph', obj=Obj(computer(c), 'ARComputer'), cls='ARComputer') == THE)),
        ('a creator of neighbourhoods', lambda c: And(c.f('_neigh_crtor', cls=ISO) > 0, c.f('_neigh_crtor', cls=ISO) < c.st.ghost['_limit']))]


def nbh(c, n=1):
    return H(c, Obj(c.arg(n), 'Neighbourhood'))


def cand_ok(c, n):
    return And(eligible(n, n.C, n.F), listed(c, n.obj), ForAll([u], Implies(mem(n.S, u), And(mesh(c).cell(u), u < ln(n.wt))), patterns=[mem(n.S, u)]))


def is_cand(n, y):
    return inq(n.C, y)


BEST_REQ = MESH + [
    ('a neighbourhood of the creator', lambda c: And(c.a(1) > 0, c.a(1) < c.st.ghost['_limit'], TAG(c.a(1)) == MAKES(c.f('_neigh_crtor', cls=ISO)))), ('its invariant', lambda c: nbh(c).inv()),
    ('it has added the cells of the set', lambda c: get(nbh(c).F, 'mem') == get(c.a(5), 'mem')), ('candidates', lambda c: cand_ok(c, nbh(c))),
    ('its cells have an order', lambda c: ForAll([u], Implies(And(mem(nbh(c).S, u), Not(mem(c.a(5), u))), mem(c.a(2), u)), patterns=[mem(nbh(c).S, u)])),
    ('shared faces come first', lambda c: Not(c.a(3))), ('the set has cells', lambda c: And(get(c.a(5), 'card') > 0, cells_of(mesh(c), c.a(5)))),
    ('features of the set', lambda c: right(c, c.a(4), get(c.a(5), 'mem'))), ('no shared face yet', lambda c: c.a(7) == 0)]
SOME = ('there is a candidate', lambda c: size(nbh(c).C) > 0)


def H0(c):
    return H(c, Obj(c.o(1), 'Neighbourhood'), True)


def picked(c, y, faces, f):
    return And(is_cand(H0(c), y), mem(H0(c).S, y), Not(mem(c.old(5), y)), mesh(c).cell(y), faces == mesh(c).inner(c.old(5), y), faces > 0, right(c, f, Store(get(c.old(5), 'mem'), y, True)))


BEST_ENS = [('a candidate, with its shared faces and features', lambda c: Implies(size(H0(c).C) > 0, picked(c, c.a(6), c.a(7), c.a(8)))),
            ('none without candidates', lambda c: Implies(size(H0(c).C) <= 0, c.a(7) == 0)), OLDER]


def _best(c):
    n = nbh(c)
    it = c.counter_value()
    y, f = c.arg(6), c.arg(8)
    return And(Implies(c.k == 0, c.arg(7) == 0), Implies(c.k > 0, picked(c, y, c.arg(7), f)))


def _shares(c):
    """the candidate at hand shares faces with the set"""
    n = nbh(c)
    y = at(n.C, lo(n.C) + c.k)
    fact = mesh(c).inner(c.arg(5), y) > 0
    c.ex.oblige(c.st, fact, 'hint', c.node, 'candidates share faces')
    c.st.assume(fact)


BEST = Contract(
    'Agglomerator_Biconnected::compute_best_fc_to_add', props=('C02', 'C12'), allocates=True, abstract='body',
    requires=BEST_REQ + [SOME], ensures=BEST_ENS, modifies=[6, 7, 8] + NB_HEAP, axioms=FIRST_AX, lemmas=[SHARES],
    loops={0: Loop([('best so far', _best), ('a candidate', lambda c: is_cand(nbh(c), c.v('arg_max_faces_in_common', 'unsigned long', 1)))], at_body=_shares)})



def _best_it(c):
    n0 = H0(c)
    y, f = c.arg(6), c.arg(8)
    return And(Implies(c.k == 0, And(c.arg(7) == 0, c.v('ref_max_faces', 'int') == 0)),
               Implies(c.k > 0, And(picked(c, y, c.arg(7), f), c.v('ref_max_faces', 'int') > 0, is_cand(n0, c.v('outer_argmax_faces', 'unsigned long')))))


BEST_IT = Contract(
    'Agglomerator_Iterative::compute_best_fc_to_add', props=('C02', 'C12'), allocates=True,
    requires=BEST_REQ, ensures=BEST_ENS, modifies=[6, 7, 8] + NB_HEAP, axioms=FIRST_AX, lemmas=[SHARES],
    loops={0: Loop([('best so far', _best_it), ('older neighbourhoods stay', lambda c: older(c, NB_HEAP))], at_body=_shares)})

CLASSES = {'Agglomerator': 1, 'Agglomerator_Isotropic': 1, 'Agglomerator_Biconnected': 1, 'Agglomerator_Iterative': 1, 'ARComputer': 1, 'NeighbourhoodCreator': 1, 'NeighbourhoodExtendedCreator': 1, 'NeighbourhoodPureFrontCreator': 1}
PROPERTY_LEMMAS = {'C02': [NONNEG, CNT_POS]}
CONTRACTS = [UPDATE, EXT_H, PF_H, CREATE, CLONE] + CREATORS + [BEST, BEST_IT]
