"""Contracts of the constructors of the seeds pool and of the isotropic agglomerator."""
import z3
from z3 import And, Or, Not, Implies, ForAll, If, Int, Ints
from vf.contract import Contract
from vf.exec import Obj
from .util import ln, at
from .grow import AGG, ISO
from .seeds import P, has, pool_empty, LEVELS, initialiser

SP = 'Seeds_Pool'


def exists(c, r):
    return And(r > 0, r < c.st.ghost['_limit'])


POOL_CTOR = Contract(
    'Seeds_Pool::Seeds_Pool', props=('C07', 'C01'), allocates=True, accepts=lambda ex, f: len(ex.params(f)) == 3,
    ensures=[('one empty queue per number of boundary faces', lambda c: And(ln(P(c).L) == LEVELS, pool_empty(P(c), P(c).L))), ('no current queue', lambda c: Not(has(P(c).top))),
             ('boundary faces and weights as given', lambda c: And(P(c).bnd == c.a(0), P(c).wt == c.a(1))), ('initialiser', lambda c: exists(c, c.f('_initializator', cls=SP))), ('the initialiser asked for', initialiser)])

RATIOS = 10


def ar_of(c):
    return Obj(c.f('_ar_computer', cls=ISO), 'ARComputer')


ISO_CTOR = Contract(
    'Agglomerator_Isotropic::Agglomerator_Isotropic', exception='invalid_argument', props=('C08', 'C03'), allocates=True, accepts=lambda ex, f: len(ex.params(f)) == 7,
    requires=[('dimension', lambda c: Or(c.a(3) == 2, c.a(3) == 3)), ('graph given', lambda c: c.a(0) > 0)],
    throws=lambda c: Not(And(0 <= c.a(4), c.a(4) < RATIOS)),
    ensures=[('known aspect ratio', lambda c: And(0 <= c.a(4), c.a(4) < RATIOS)),
             ('parts', lambda c: And(c.f('_fc_graph', cls=AGG) == c.a(0), c.f('_cc_graph', cls=AGG) == c.a(1), c.f('_seeds_pool', cls=AGG) == c.a(2))),
             ('dimension and least number of neighbourhoods', lambda c: And(c.f('_dimension', cls=AGG) == c.a(3), c.f('_min_neighbourhood', cls=AGG) == c.a(3))),
             ('number of choice iterations', lambda c: c.f('_fc_iter', cls=ISO) == c.a(6)),
             ('number of fine cells', lambda c: (lambda L: And(ln(L) == 1, at(L, 0) == c.f('_number_of_cells', obj=Obj(c.a(0), 'Dual_Graph'), cls='Graph')))(c.f('_l_nb_of_cells', cls=AGG))),
             ('creator of neighbourhoods', lambda c: exists(c, c.f('_neigh_crtor', cls=ISO))),
             ('computer of aspect ratios on this graph', lambda c: And(exists(c, ar_of(c).ref), c.f('_graph', obj=ar_of(c), cls='ARComputer') == c.a(0)))])
CLASSES = {}
CONTRACTS = [POOL_CTOR, ISO_CTOR]
