"""Start of the seeds pool, for any class of pool and of initialiser."""
import z3
from z3 import And, Or, Not, Implies, ForAll, Exists, If, Int, Ints, MultiPattern
from vf.contract import Contract
from vf.proofs import Lemma
from .util import ln, at
from .neigh import lo, hi, size
from . import seeds
from .seeds import P, STATE, FLAGS, POOLF, ANY, has, val, pool_empty, top_level, seed_cells, finite_pool, level
from .iso import POOL, POOL_SORTS, POOL_TAG, POOLS, FLAGSORT, pool_ok, fl_, PINV_B, PINV_N
from .level import _f, _P

u = Int('u')
# what holds of the queues alone, whatever the current queue is to become
PART = z3.Function('pool_part', *POOL_SORTS, FLAGSORT, z3.BoolSort())
PART_B, PART_N = PINV_B[:2], PINV_N


def pool_part(c, fl, old=False, obj=None):
    o = obj if obj is not None else c.this
    f = c.of if old else c.f
    return PART(POOL_TAG(o.ref), *[f(n, obj=o, cls='Seeds_Pool') for n in POOLS], fl)


def blank(p):
    return pool_empty(p, p.L)


_blank = _P(ANY)
BLANK = Lemma('an empty pool is in order (both classes)',
    ForAll(_f + [fl_], Implies(And(blank(_blank), top_level(_blank)), And(PART(*_f, fl_), Implies(Not(has(_f[2])), POOL(*_f, fl_)))), patterns=[PART(*_f, fl_), POOL(*_f, fl_)]),
    [('part: %s %s' % (t, n), [], [blank(_blank), top_level(_blank)], f(_blank, _f[1], _f[2])) for t, inv in (('by boundary', PART_B), ('by neighbourhood', PART_N)) for n, f in inv]
    + [('%s %s' % (t, n), [], [blank(_blank), Not(has(_f[2]))], f(_blank, _f[1], _f[2])) for t, inv in (('by boundary', PINV_B), ('by neighbourhood', PINV_N)) for n, f in inv])

TOP = ('top level', lambda c: top_level(P(c)))
SEEDS = ('seeds are cells', seed_cells)
HAS_TOP = ('a queue is current', lambda c: has(P(c).top))
FILLED = ('something is queued', lambda c: Implies(size(c.a(0)) > 0, Not(blank(P(c)))))


def kept_for_all(now):
    """for every state of the flags"""
    def f(c):
        new = now(c, fl_)
        return ForAll([fl_], Implies(now(c, fl_, True), new), patterns=[new])
    return f


UPDATE = Contract('Seeds_Pool::update', props=('C01', 'C07'), abstract=True,
                  requires=STATE + [SEEDS, TOP, HAS_TOP], ensures=STATE + [TOP, HAS_TOP, FILLED, ('abstract: part kept', kept_for_all(pool_part))], modifies=POOLF)
ONLY_TOP = ('a queue is current when something is queued, and only then', lambda c: has(P(c).top) == Not(blank(P(c))))
NO_TOP = ('nothing is queued without a current queue', lambda c: Implies(Not(has(P(c).top)), blank(P(c))))
SETTLED = ('a queue is current unless to be initialised', lambda c: Implies(Not(c.ret), has(P(c).top)))
REACHED = lambda c: Implies(has(P(c).top), Exists([u], And(P(c).cell(u), P(c).b(u) >= val(P(c).top)), patterns=[P(c).b(u)]))
REACHES = ('a cell reaches the current queue', lambda c: Implies(c.ret, REACHED(c)))
NEEDS = Contract('Seeds_Pool::need_initialization', props=('C01', 'C07'), abstract=True,
                 requires=STATE + FLAGS + [TOP, ONLY_TOP, ('abstract: part', lambda c: pool_part(c, c.a(0)))],
                 ensures=STATE + [TOP, NO_TOP, SETTLED, REACHES, ('abstract: invariant of the class', lambda c: pool_ok(c, c.a(0)))], modifies=POOLF[1:])
INIT_REQ = STATE + [TOP, ('some cell', lambda c: P(c).n > 0), ('initialiser', lambda c: c.f('_initializator', cls='Seeds_Pool') != 0), ('weights are finite numbers', finite_pool), ('a cell reaches the current queue', REACHED), NO_TOP]
INIT = Contract('Seeds_Pool::initialize', props=('C01', 'C07'), abstract=True, cases=('Seeds_Pool', 'SPInitializator'),
                requires=INIT_REQ, ensures=STATE + [TOP, HAS_TOP, ('abstract: kept', kept_for_all(pool_ok))], modifies=POOLF)


def impls(cls, upd, needs, part, inv):
    now = lambda f: lambda c: (lambda p: f(p, p.L, p.top))(P(c, c.a(0)))
    keeps = lambda f, all_: lambda c: (lambda p: Implies(And(*[g(p, p.L0, p.top0) for _, g in all_]), f(p, p.L, p.top)))(P(c, ANY))
    out = [Contract(upd.name, props=('C07',), implements=UPDATE, by=upd, requires=UPDATE.requires, ensures=UPDATE.ensures[:-1] + [('abstract: ' + n, keeps(f, part)) for n, f in part], modifies=POOLF),
           Contract(needs.name, props=('C07',), implements=NEEDS, by=needs, requires=NEEDS.requires[:-1] + [('abstract: ' + n, now(f)) for n, f in part],
                    ensures=NEEDS.ensures[:-1] + [('abstract: ' + n, now(f)) for n, f in inv], modifies=POOLF[1:])]
    for ini, by in (('SPFullInitializator', seeds.INIT_FULL), ('SPOnePointInitializator', seeds.INIT_ONE)):
        out.append(Contract('Seeds_Pool::initialize', props=('C07',), implements=INIT, by=by, case=(cls, ini), requires=INIT.requires, ensures=INIT.ensures[:-1] + [('abstract: ' + n, keeps(f, inv)) for n, f in inv], modifies=POOLF))
    return out


CONTRACTS = [UPDATE, NEEDS, INIT] + impls('Seeds_Pool_Boundary_Priority', seeds.UPDATE_B, seeds.NEEDS_B, PART_B, PINV_B) + impls('Seeds_Pool_Neighbourhood_Priority', seeds.UPDATE_N, seeds.NEEDS_N, PART_N, PINV_N)
CLASSES = {}
