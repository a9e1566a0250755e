"""Contracts of the two call forms (Args.h and the overloads in CoMMA.h).

The long form is opaque here: whatever it does, the grouped form must make
exactly one call of it with the corresponding arguments and leave its outputs
and errors as they are."""
import z3
from z3 import And
from vf.contract import Contract
from vf.exec import LV
from vf import types as T

LONG = ('agglomerate_one_level', 28)
# parameters of the long form, in order
NAMES = ['rows', 'cols', 'areas', 'vols', 'centers', 'prio', 'compliant', 'bnd', 'build', 'aniso', 'odd', 'thr', 'pool', 'f2c', 'li', 'l',
         'corr', 'dim', 'goal', 'mn', 'mx', 'ar', 'sing', 'maxl', 'coup', 'dir', 'iter', 'nt']
# documented default values of the optional ones
DEFAULTS = dict(ar=lambda: z3.IntVal(0), sing=lambda: z3.IntVal(1), coup=lambda: z3.IntVal(0), dir=lambda: z3.BoolVal(True), iter=lambda: z3.IntVal(1), nt=lambda: z3.IntVal(0),
                build=lambda: z3.BoolVal(True), odd=lambda: z3.BoolVal(True), thr=lambda: z3.RealVal(4),
                maxl=lambda: None)
OUTS = ('f2c', 'li', 'l')


def one_call(value, place):
    """value(c, name): expected argument; place(c, name): expected output lvalue"""
    def check(c):
        calls = c.st.ghost.get('calls', ())
        if len(calls) != 1:
            return z3.BoolVal(False)
        vals, outs, after = calls[0]
        out = []
        for i, nm in enumerate(NAMES):
            if nm in OUTS:
                lv = place(c, nm)
                if i not in outs or not outs[i].same(lv):
                    return z3.BoolVal(False)
                # what the call left there is what the caller sees
                out.append(c.ex.rv(c.st, lv) == after[i])
                out.append(vals[i] == c.ex.rv(c.pre, lv))
                continue
            v = value(c, nm)
            if v is None:
                out.append(z3.Not(T.get(vals[i], 'has')))
            elif z3.is_expr(vals[i]) and vals[i].sort().name().startswith('Opt_'):
                out.append(And(T.get(vals[i], 'has') == T.get(v, 'has'), z3.Implies(T.get(v, 'has'), T.get(vals[i], 'val') == T.get(v, 'val'))))
            else:
                out.append(vals[i] == v)
        return And(out)
    return check


def same_error(c):
    return z3.BoolVal(c.st.exc == 'opaque')


def client(fname, given):
    def idx(nm):
        return given.index(nm)

    def value(c, nm):
        return c.ex.rv(c.pre, c.args[idx(nm)]) if nm in given else DEFAULTS[nm]()

    def place(c, nm):
        return c.args[idx(nm)]
    post = one_call(value, place)
    return Contract(fname, props=('C17',), opaque=[LONG], inline=['agglomerate_one_level'], modifies=[idx(n) for n in OUTS], ensures=[('one call of the long form with the same values', post)],
                    throws=lambda c: And(same_error(c), post(c)))


BASE = ['rows', 'cols', 'areas', 'vols', 'centers', 'prio', 'compliant', 'bnd', 'aniso', 'pool', 'f2c', 'li', 'l', 'corr', 'dim', 'goal', 'mn', 'mx']
MID = BASE + ['build', 'odd', 'thr']
FULL = MID + ['ar', 'sing', 'maxl', 'coup', 'dir', 'iter', 'nt']

FIELD = dict(rows=(0, 'connectivity_indices'), cols=(0, 'connectivity'), areas=(0, 'connectivity_weights'), vols=(0, 'volumes'), centers=(0, 'centers'),
             prio=(0, 'priority_weights'), bnd=(0, 'n_bnd_faces'), dim=(0, 'dimension'), goal=(1, 'goal_card'), mn=(1, 'min_card'), mx=(1, 'max_card'),
             corr=(1, 'correction'), pool=(1, 'seed_ordering_type'), ar=(1, 'aspect_ratio'), sing=(1, 'singular_card_thresh'), iter=(1, 'fc_choice_iter'),
             nt=(1, 'neighbourhood_type'), aniso=(2, 'is_anisotropic'), compliant=(2, 'anisotropicCompliantCells'), build=(2, 'build_lines'),
             odd=(2, 'odd_line_length'), thr=(2, 'threshold_anisotropy'), maxl=(2, 'max_cells_in_line'), coup=(2, 'cell_coupling'), dir=(2, 'line_direction'))


def _field(c, nm):
    k, f = FIELD[nm]
    return c.ex.read(c.pre, c.ex.field(c.pre, c.args[k], f))


def _out(c, nm):
    return c.args[3 + OUTS.index(nm)]


_grouped = one_call(_field, _out)
GROUPED = Contract('agglomerate_one_level', props=('C17',), opaque=[LONG], modifies=[3, 4, 5], accepts=lambda ex, f: len(ex.params(f)) == 6,
                   ensures=[('one call of the long form with the stored values', _grouped)], throws=lambda c: And(same_error(c), _grouped(c)))


def stores(cls, names):
    return Contract('%s::%s' % (cls, cls), props=('C17',), frame=False, accepts=lambda ex, f: len(ex.params(f)) == len(names),
                    ensures=[('%s is stored' % FIELD[n][1], lambda c, n=n, i=i: c.f(FIELD[n][1]) == c.a(i)) for i, n in enumerate(names)])


CLASSES = {'GraphArgs': 1, 'AgglomerationArgs': 1, 'AnisotropicArgs': 1}
CONTRACTS = [stores('GraphArgs', ['rows', 'cols', 'areas', 'vols', 'centers', 'prio', 'bnd', 'dim']),
             stores('AgglomerationArgs', ['goal', 'mn', 'mx', 'corr', 'pool', 'ar', 'sing', 'iter', 'nt']),
             stores('AnisotropicArgs', ['aniso', 'compliant', 'build', 'odd', 'thr', 'maxl', 'coup', 'dir']), GROUPED,
             client('vf_plain_defaults', MID), client('vf_grouped_defaults', MID), client('vf_grouped_min', BASE), client('vf_grouped_all', FULL)]
