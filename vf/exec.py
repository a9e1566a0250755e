"""Symbolic execution of the resolved syntax tree: generates the obligations.

Every function under contract is executed once from an arbitrary state that
satisfies its precondition; loops are cut by their invariants; calls to
functions under contract use the contract, all other calls are inlined.  The
executor does not rewrite the program: it walks clang's tree of the current
headers."""
import itertools
import re
import z3
from . import types as T
from .types import Ty, parse, sort_of, get, upd, mk, sel, Unsupported

IntV = z3.IntVal
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
_fresh = itertools.count()


def fresh(name, sort):
    return z3.Const('%s!%d' % (name, next(_fresh)), sort)


def fresh_fn(name, *sorts):
    return z3.Function('%s!%d' % (name, next(_fresh)), *sorts)


class Void:
    pass


VOID = Void()


class LV:
    """An lvalue: a root (variable or heap field of an object) and a path."""
    __slots__ = ('root', 'path', 'ty')

    def __init__(self, root, path=(), ty=None):
        self.root, self.path, self.ty = root, tuple(path), ty

    def sub(self, *p, ty=None):
        return LV(self.root, self.path + p, ty)

    def same(self, o):
        if not isinstance(o, LV) or len(self.path) != len(o.path):
            return False
        if self.root[0] != o.root[0]:
            return False
        for a, b in zip(list(self.root[1:]) + [x for p in self.path for x in p],
                        list(o.root[1:]) + [x for p in o.path for x in p]):
            if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
                if not a.eq(b):
                    return False
            elif a is not b and a != b:
                return False
        return True


class Obj:
    """An object with identity (class type with reference semantics)."""
    __slots__ = ('ref', 'cls')

    def __init__(self, ref, cls):
        self.ref, self.cls = ref, cls


class Iter:
    __slots__ = ('cont', 'kind', 'pos', 'enum', 'key', 'end', 'rev', 'ty', 'ismap')

    def __init__(self, cont, kind, pos=None, enum=None, key=None, end=None, rev=False, ty=None, ismap=False):
        self.cont, self.kind, self.pos, self.enum = cont, kind, pos, enum
        self.key, self.end, self.rev, self.ty, self.ismap = key, end, rev, ty, ismap

    def at(self, pos):
        r = Iter(self.cont, self.kind, pos, self.enum, None, None, self.rev, self.ty, self.ismap)
        return r


class Enum:
    """An enumeration of an associative container: a bijection [0,n) <-> elements."""
    __slots__ = ('at', 'pos', 'n', 'src')

    def __init__(self, at, pos, n, src):
        self.at, self.pos, self.n, self.src = at, pos, n, src


class Closure:
    __slots__ = ('node', 'env', 'this', 'name')

    def __init__(self, node, env, this, name=''):
        self.node, self.env, self.this, self.name = node, env, this, name


class Inserter:
    __slots__ = ('cont', 'it')

    def __init__(self, cont, it=None):
        self.cont, self.it = cont, it


class InitList:
    __slots__ = ('vals',)

    def __init__(self, vals):
        self.vals = vals


class MapElem:
    """*it for a map iterator: a pair whose second component is an lvalue."""
    __slots__ = ('key', 'val', 'keylv')

    def __init__(self, key, val):
        self.key, self.val = key, val


class TupleRefs:
    """std::tie / structured values holding python level parts."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = parts


class Handle:
    """node handle of an extracted map element"""
    __slots__ = ('key', 'val', 'empty')

    def __init__(self, key, val, empty):
        self.key, self.val, self.empty = key, val, empty


class PyFn:
    """A function value whose meaning is given by the specification."""
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


PY = (PyFn, Obj, Iter, Closure, Inserter, InitList, MapElem, TupleRefs, Void, Handle, str)


class Frame:
    __slots__ = ('env', 'this', 'decls', 'fn', 'ret', 'parent')

    def __init__(self, fn, this, parent=None):
        self.env, self.this, self.decls, self.fn, self.parent = {}, this, [], fn, parent

    def copy(self):
        f = Frame(self.fn, self.this, self.parent)
        f.env, f.decls = dict(self.env), list(self.decls)
        return f


class State:
    __slots__ = ('vars', 'heap', 'py', 'pc', 'frames', 'exc', 'log', 'dyn', 'nalloc', 'ghost', 'loops')

    def __init__(self):
        self.vars, self.heap, self.py, self.pc, self.frames = {}, {}, {}, [], []
        self.exc, self.log, self.dyn, self.nalloc, self.ghost = None, [], {}, IntV(0), {}

    def copy(self):
        s = State()
        s.vars, s.heap, s.py, s.pc = dict(self.vars), dict(self.heap), dict(self.py), list(self.pc)
        s.frames = [f.copy() for f in self.frames]
        s.exc, s.log, s.dyn, s.nalloc, s.ghost = self.exc, list(self.log), dict(self.dyn), self.nalloc, dict(self.ghost)
        return s

    def assume(self, e, branch=False):
        if z3.is_true(e):
            return
        self.pc.append((e, branch))

    @property
    def frame(self):
        return self.frames[-1]


class Obligation:
    __slots__ = ('name', 'kind', 'fn', 'loc', 'hyps', 'goal', 'status', 'time', 'backend', 'model', 'tags', 'keep')

    def __init__(self, name, kind, fn, loc, hyps, goal, tags=()):
        self.name, self.kind, self.fn, self.loc, self.hyps, self.goal = name, kind, fn, loc, hyps, goal
        self.status, self.time, self.backend, self.model, self.tags = None, 0., None, None, tags


def ctype(node):
    t = node.get('type', {})
    return parse(t.get('desugaredQualType') or t.get('qualType', 'void'))


_sqrt = z3.Function('fsqrt', z3.RealSort(), z3.RealSort())
_mul = z3.Function('fmul', z3.RealSort(), z3.RealSort(), z3.RealSort())
_div = z3.Function('fdiv', z3.RealSort(), z3.RealSort(), z3.RealSort())


def is_num(e):
    return z3.is_int_value(e) or z3.is_rational_value(e)


def rmul(a, b):
    if is_num(a) or is_num(b):
        return a * b
    if a.get_id() == b.get_id():
        return _mul(a, b)
    x, y = sorted((a, b), key=lambda e: e.sexpr())
    return _mul(x, y)


def rdiv(a, b):
    if is_num(b):
        return a / b
    return _div(a, b)


def real(x):
    if z3.is_int(x):
        if z3.is_int_value(x):
            return z3.RealVal(x.as_long())
        return z3.ToReal(x)
    return x


class Executor:
    MAXPATHS = 4000

    def __init__(self, prog, contracts, classes):
        self.P = prog
        self.contracts = contracts
        self.classes = classes          # class knowledge: see specs
        self.obls = []
        self.name_cache = {}
        self.axioms = []
        self.quiet = 0
        self.pure = 0      # inside a function value applied to a bound variable
        self.cur = None                 # contract being verified
        self.loopno = {}
        self.names = {}
        self.inlined = set()
        self.used_contracts = set()
        self.npaths = 0
        self.prune_ms = 300
        self._prunecache = {}
        self.depth = 0
        self.loopstack = []
        self.exits, self.bodies = [], []
        amb = {}
        for n in prog.byid.values():
            if n.get('kind') in ('TypeAliasDecl', 'TypedefDecl') and n.get('name') and not n.get('_tpl'):
                q = n['type'].get('desugaredQualType') or n['type']['qualType']
                if re.fullmatch(r'std::\w+<[\w :,<>]+>', q) and 'type-parameter' not in q and 'iterator' not in q:
                    amb.setdefault(n['name'], set()).add(q)
        for k, q in amb.items():
            if len(q) == 1 and not re.search(r'CoMMA\w+Type\b', min(q)):
                T.ALIAS[k] = parse(min(q))
        for n in prog.byid.values():
            if n.get('kind') == 'EnumDecl' and n.get('name'):
                T.ENUMS.add(n['name'])
        for cls in T.VALUE_CLASSES:
            if cls not in T.RECORD_FIELDS and cls in self.known_records():
                rec = self.record(cls)
                T.RECORD_FIELDS[cls] = [(c['name'], ctype(c).bare()) for c in rec.get('inner', []) if c.get('kind') == 'FieldDecl']
                T.RECORD_ARGS[cls] = [parse(a['type']['qualType']) for a in rec.get('inner', []) if a.get('kind') == 'TemplateArgument' and 'type' in a]

    # ---------------------------------------------------------------- misc
    def loc(self, node):
        while node is not None and '_line' not in node:
            node = (node.get('inner') or [None])[0]
        if node is None:
            return '?'
        f = (node.get('_file') or '?').split('/')[-1]
        return '%s:%s' % (f, node.get('_line'))

    def unsupported(self, node, why=''):
        raise Unsupported('%s at %s %s' % (node.get('kind') if node else '', self.loc(node) if node else '', why))

    def oblige(self, st, goal, kind, node, detail, tags=()):
        if self.quiet:
            st.assume(goal)
            return
        if z3.is_true(goal):
            goal_s = goal
        fn = self.cur.name if self.cur else '?'
        base = '%s / %s: %s' % (fn, kind, detail)
        k = self.names.get(base, 0)
        self.names[base] = k + 1
        name = base if k == 0 else '%s [%d]' % (base, k + 1)
        self.obls.append(Obligation(name, kind, fn, self.loc(node) if node else '', [e for e, _ in st.pc], goal, tags))
        self.obls[-1].keep = self.current_names(st)
        st.assume(goal)

    def current_names(self, st):
        """Names of the symbols the present values of variables and fields are made of."""
        out = set()

        def add(v):
            if z3.is_expr(v):
                k = v.get_id()
                if k not in self.name_cache:
                    self.name_cache[k] = (v, frozenset(c.decl().name() for c in consts_of(v)))
                out.update(self.name_cache[k][1])
            elif isinstance(v, z3.FuncDeclRef):
                out.add(v.name())
            elif isinstance(v, (list, tuple)):
                for y in v:
                    add(y)
            elif isinstance(v, (Iter, Enum, Handle, Obj)):
                for n in type(v).__slots__:
                    if n not in ('cont', 'src', 'ty'):
                        add(getattr(v, n, None))
        for m in (st.vars, st.heap, st.ghost):
            for v in m.values():
                add(v)
        return frozenset(n for n in out if '!' in n)

    def fork(self, st, cond):
        """[(state, bool)] for the feasible outcomes of a condition."""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        for e, _ in st.pc:
            if e.eq(cond):
                return [(st, True)]
            if z3.is_not(e) and e.arg(0).eq(cond):
                return [(st, False)]
            if z3.is_not(cond) and cond.arg(0).eq(e):
                return [(st, False)]
        res = []
        a, b = st, st.copy()
        a.assume(cond, True)
        b.assume(z3.Not(cond), True)
        if self.feasible(a):
            res.append((a, True))
        if self.feasible(b):
            res.append((b, False))
        return res

    def feasible(self, st):
        s = z3.Solver()
        s.set('timeout', self.prune_ms)
        for e, _ in st.pc:
            if not has_quant(e):
                s.add(e)
        return s.check() != z3.unsat

    # ---------------------------------------------------------- variables
    def new_root(self, st, val):
        n = next(_fresh)
        st.vars[n] = val
        return ('v', n)

    def temp(self, st, val, ty=None):
        return LV(self.new_root(st, val), (), ty)

    def heap_sort(self, key, ty):
        return z3.ArraySort(z3.IntSort(), sort_of(ty))

    def heap_arr(self, st, key, ty):
        if key not in st.heap:
            st.heap[key] = z3.Const('H_' + T.san(key), self.heap_sort(key, ty))
        return st.heap[key]

    def named_heap(self, st, key, ty):
        """the field array under a name, so that its entries can be part of patterns"""
        a = self.heap_arr(st, key, ty)
        if not z3.is_const(a):
            c = fresh('H_' + T.san(key), a.sort())
            st.assume(c == a)
            st.heap[key] = c
        return st.heap[key]

    def read_root(self, st, root, ty=None):
        if root[0] == 'v':
            return st.vars[root[1]]
        key, ref = root[1], root[2]
        pk = (key, ref.sexpr())
        if pk in st.py:
            return st.py[pk]
        return sel(self.heap_arr(st, key, root[3]), ref)

    def write_root(self, st, root, v):
        st.log.append(root)
        if root[0] == 'v':
            st.vars[root[1]] = v
            return
        key, ref = root[1], root[2]
        if isinstance(v, PY):
            st.py[(key, ref.sexpr())] = v
            return
        st.py.pop((key, ref.sexpr()), None)
        st.heap[key] = z3.Store(self.heap_arr(st, key, root[3]), ref, v)

    def read(self, st, lv):
        if not isinstance(lv, LV):
            return lv
        v = self.read_root(st, lv.root)
        for p in lv.path:
            v = self.step(v, p)
        if lv.ty is not None and lv.ty.name in T.UNSIGNED and not lv.ty.ptr and z3.is_expr(v) and z3.is_int(v) \
                and not is_num(v):
            st.assume(v >= 0)
        return v

    def step(self, v, p):
        if p[0] == 'fld':
            if isinstance(v, MapElem):
                return v.key if p[1] == 'first' else v.val
            if isinstance(v, TupleRefs):
                return v.parts[p[1]]
            return get(v, p[1])
        if p[0] == 'idx':
            return sel(get(v, 'arr'), p[1])
        if p[0] == 'val':
            return sel(get(v, 'val'), p[1])
        if p[0] == 'opt':
            return get(v, 'val')
        raise Unsupported('path ' + str(p))

    def write(self, st, lv, v):
        if type(lv).__name__ == 'HandleKey':
            h = self.rv(st, lv.lv)
            lv, v = lv.lv, Handle(v, h.val, h.empty)
        if not isinstance(lv, LV):
            raise Unsupported('write to a non-lvalue')
        if isinstance(v, LV):
            v = self.read(st, v)
        self.write_root(st, lv.root, self._put(st, self.read_root(st, lv.root) if lv.path else None, lv.path, v))

    def _put(self, st, base, path, v):
        if not path:
            return v
        p, rest = path[0], path[1:]
        if p[0] == 'fld':
            if isinstance(base, TupleRefs):
                parts = list(base.parts)
                parts[p[1]] = self._put(st, parts[p[1]], rest, v)
                return TupleRefs(parts)
            return upd(base, **{p[1]: self._put(st, get(base, p[1]), rest, v)})
        if p[0] == 'idx':
            a = get(base, 'arr')
            return upd(base, arr=self.stored(st, a, p[1], self._put(st, sel(a, p[1]), rest, v)))
        if p[0] == 'val':
            a = get(base, 'val')
            return upd(base, val=self.stored(st, a, p[1], self._put(st, sel(a, p[1]), rest, v)))
        if p[0] == 'opt':
            return upd(base, val=self._put(st, get(base, 'val'), rest, v))
        raise Unsupported('path ' + str(p))

    def stored(self, st, a, i, v):
        """a with v at i; arrays of containers get a name, so that their elements can be part of patterns"""
        r = z3.Store(a, i, v)
        if self.pure or not (z3.is_expr(v) and T.is_dt(v)) or is_num(i):
            return r
        c = fresh('st', r.sort())
        st.assume(c == r)
        return c

    def rv(self, st, v):
        """Value of an evaluated expression."""
        if isinstance(v, LV):
            v = self.read(st, v)
            while isinstance(v, LV):
                v = self.read(st, v)
        return v

    # ------------------------------------------------------- typing facts
    def wf(self, v, ty, depth=0):
        """Facts every value of a type satisfies."""
        out = []
        if not z3.is_expr(v):
            return out
        s = v.sort()
        if s == z3.IntSort():
            if ty is not None and ((ty.name in T.UNSIGNED and not ty.ptr) or T.is_ref_type(ty)):
                out.append(v >= 0)
            return out
        if not T.is_dt(v):
            return out
        n = s.name()
        if n.startswith('Vec_'):
            out.append(get(v, 'len') >= 0)
        elif n.startswith('Deq_'):
            out.append(get(v, 'lo') <= get(v, 'hi'))
        elif n.startswith('Set_') or n.startswith('Map_'):
            m, c = get(v, 'mem'), get(v, 'card')
            ks = m.sort().domain()
            x = z3.Const('x', ks)
            out.append(c >= 0)
            out.append(z3.Implies(c == 0, z3.ForAll([x], z3.Not(sel(m, x)), patterns=[z3.Select(m, x)])))
            out.append(z3.Implies(c > 0, z3.Select(m, z3.Function('wit_' + n, s, ks)(v))))
            w = z3.Function('wit_' + n, s, ks)(v)
            # a set of one element has no other; two different elements make at least two
            out.append(z3.ForAll([x], z3.Implies(z3.And(c == 1, z3.Select(m, x)), x == w), patterns=[z3.Select(m, x)]))
        elif n.startswith('Pair_') or n.startswith('Tup_') or n.startswith('Opt_'):
            fs = T.fields_of(s)
            args = ty.args if ty is not None else [None] * len(fs)
            if n.startswith('Opt_'):
                fs = ['val']
            for f, a in zip(fs, args):
                out += self.wf(get(v, f), a, depth + 1)
        elif n.startswith('Rec_') and ty is not None:
            for f, ft in T.RECORD_FIELDS[ty.name]:
                out += self.wf(get(v, f), ft, depth + 1)
        return out

    def havoc_val(self, st, v, name, ty=None):
        if isinstance(v, Iter):
            if v.kind == 'seq' or v.enum is not None:
                p = fresh(name, z3.IntSort())
                st.assume(p >= 0)
                if v.enum is not None:
                    st.assume(p <= v.enum.n)
                return v.at(p)
            # by key
            k = fresh(name, v.key.sort())
            e = fresh(name + '_end', z3.BoolSort())
            r = Iter(v.cont, v.kind, None, None, k, e, v.rev, v.ty, v.ismap)
            c = self.read(st, v.cont)
            st.assume(z3.Or(e, sel(get(c, 'mem'), k)))
            return r
        if isinstance(v, TupleRefs):
            return TupleRefs([self.havoc_val(st, x, name) for x in v.parts])
        if isinstance(v, Obj):
            return Obj(fresh(name, z3.IntSort()), v.cls)
        if isinstance(v, Handle):
            return Handle(fresh(name, v.key.sort()), fresh(name, v.val.sort()), fresh(name, z3.BoolSort()))
        if isinstance(v, PY):
            raise Unsupported('havoc of ' + type(v).__name__ + ' ' + name)
        x = fresh(name, v.sort())
        for f in self.wf(x, ty):
            st.assume(f)
        return x

    def default(self, ty):
        """Value-initialised object of a type."""
        s = sort_of(ty)
        return self.default_of(s)

    def default_of(self, s):
        if s == z3.IntSort():
            return IntV(0)
        if s == z3.BoolSort():
            return FALSE
        if s == z3.RealSort():
            return z3.RealVal(0)
        n = s.name()
        if n.startswith('Vec_'):
            a = T._dts[n][0].accessor(0, 1).range()
            return mk(s, IntV(0), z3.K(z3.IntSort(), self.default_of(a.range())))
        if n.startswith('Deq_'):
            a = T._dts[n][0].accessor(0, 2).range()
            return mk(s, IntV(0), IntV(0), z3.K(z3.IntSort(), self.default_of(a.range())))
        if n.startswith('Set_'):
            a = T._dts[n][0].accessor(0, 0).range()
            return mk(s, z3.K(a.domain(), FALSE), IntV(0))
        if n.startswith('Map_'):
            a = T._dts[n][0].accessor(0, 2).range()
            return mk(s, z3.K(a.domain(), FALSE), IntV(0), z3.K(a.domain(), self.default_of(a.range())))
        if n.startswith('Opt_'):
            return mk(s, FALSE, self.default_of(T._dts[n][0].accessor(0, 1).range()))
        d = T._dts[n][0]
        return mk(s, *[self.default_of(d.accessor(0, i).range()) for i in range(len(T._dts[n][1]))])

    # --------------------------------------------------------- statements
    # outcome: (state, kind, value) with kind in normal/break/continue/return/throw
    def block(self, stmts, st):
        states = [st]
        out = []
        for s in stmts:
            nxt = []
            for x in states:
                for (y, k, v) in self.stmt(s, x):
                    if k == 'normal':
                        nxt.append(y)
                    else:
                        out.append((y, k, v))
            states = nxt
            if len(states) + len(out) > self.MAXPATHS:
                raise Unsupported('too many paths')
        return out + [(s, 'normal', None) for s in states]

    def stmt(self, n, st):
        if not n or 'kind' not in n:
            return [(st, 'normal', None)]
        m = getattr(self, 's_' + n['kind'], None)
        if m is not None:
            return m(n, st)
        # expression statement
        out = []
        for s, v in self.ev(n, st):
            out.append((s, 'throw', s.exc) if s.exc else (s, 'normal', None))
        return out

    def s_NullStmt(self, n, st):
        return [(st, 'normal', None)]

    def s_CompoundStmt(self, n, st):
        return self.block(n.get('inner', []), st)

    def s_AttributedStmt(self, n, st):
        return self.stmt(n['inner'][-1], st)

    def s_BreakStmt(self, n, st):
        return [(st, 'break', None)]

    def s_ContinueStmt(self, n, st):
        return [(st, 'continue', None)]

    def s_ReturnStmt(self, n, st):
        if not n.get('inner'):
            return [(st, 'return', VOID)]
        out = []
        e = n['inner'][0]
        for s, v in self.ev(e, st):
            if s.exc:
                out.append((s, 'throw', s.exc))
                continue
            if not (e.get('valueCategory') in ('lvalue',) and self.returns_ref(s)):
                v = self.rv(s, v)
            out.append((s, 'return', v))
        return out

    def returns_ref(self, st):
        fn = st.frame.fn
        if fn is None:
            return False
        q = fn['type']['qualType']
        i = q.find('(')
        return q[:i].strip().endswith('&')

    def s_DeclStmt(self, n, st):
        states = [st]
        out = []
        for d in n.get('inner', []):
            nxt = []
            for s in states:
                for s2 in self.decl(d, s):
                    if s2.exc:
                        out.append((s2, 'throw', s2.exc))
                    else:
                        nxt.append(s2)
            states = nxt
        return out + [(s, 'normal', None) for s in states]

    def bind(self, st, d, lv):
        f = st.frame
        f.env[d['id']] = lv
        f.decls.append((d.get('name'), ctype(d), d['id']))

    def decl(self, d, st):
        k = d['kind']
        if k in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'StaticAssertDecl', 'EmptyDecl', 'UsingDirectiveDecl',
                 'CXXRecordDecl'):
            return [st]
        if k == 'DecompositionDecl':
            return self.decl_decomp(d, st)
        if k != 'VarDecl':
            self.unsupported(d)
        ty = ctype(d)
        init = [c for c in d.get('inner', []) if c.get('kind', '').endswith(('Expr', 'Operator', 'Literal', 'Cleanups'))]
        q = (d['type'].get('qualType') or '').strip()
        isref = q.endswith('&') or ty.ref
        if not init:
            if ty.name in T.VALUE_CLASSES or self.is_std_value(ty):
                v = self.default(ty) if not self.is_scalar(ty) else fresh(d.get('name', 'x'), sort_of(ty))
            elif self.is_scalar(ty):
                v = fresh(d.get('name', 'x'), sort_of(ty))
            else:
                self.unsupported(d, 'uninitialised ' + ty.key())
            lv = self.temp(st, v, ty.bare())
            self.bind(st, d, lv)
            return [st]
        out = []
        for s, v in self.ev(init[0], st):
            if s.exc:
                out.append(s)
                continue
            if isref:
                if isinstance(v, (LV, Obj, MapElem)):
                    lv = v
                else:
                    lv = self.temp(s, v, ty.bare())
                self.bind(s, d, lv)
            else:
                v = self.rv(s, v)
                self.bind(s, d, self.temp(s, self.coerce(s, v, ty), ty.bare()))
            out.append(s)
        return out

    def decl_decomp(self, d, st):
        inner = d.get('inner', [])
        binds = [c for c in inner if c['kind'] == 'BindingDecl']
        init = [c for c in inner if c['kind'] != 'BindingDecl']
        q = d['type'].get('qualType', '')
        isref = '&' in q
        out = []
        for s, v in self.ev(init[0], st):
            if s.exc:
                out.append(s)
                continue
            base = v
            val = self.rv(s, v)
            if isinstance(val, MapElem):
                parts = [val.key if isinstance(val.key, LV) else self.temp(s, val.key),
                         val.val if isref else self.temp(s, self.rv(s, val.val))]
            elif isinstance(val, TupleRefs):
                parts = [p if isinstance(p, LV) else self.temp(s, p) for p in val.parts]
            else:
                if not (isref and isinstance(base, LV)):
                    base = self.temp(s, val)
                fs = T.fields_of(val.sort())
                tys = ctype(init[0]).args if ctype(init[0]).args else [None] * len(fs)
                parts = [base.sub(('fld', f), ty=t) for f, t in zip(fs, tys)]
            for b, p in zip(binds, parts):
                s.frame.env[b['id']] = p
                s.frame.decls.append((b.get('name'), p.ty if p.ty is not None else Ty('auto'), b['id']))
            out.append(s)
        return out

    def is_scalar(self, ty):
        return ty.ptr > 0 or ty.name in T.INTS or ty.name in ('double', 'bool', 'float') or ty.name in T.ENUMS

    def is_std_value(self, ty):
        return ty.ptr == 0 and ty.name in ('vector', 'deque', 'queue', 'set', 'unordered_set', 'map', 'unordered_map',
                                           'optional', 'pair', 'tuple', 'shared_ptr', 'unique_ptr')

    def coerce(self, st, v, ty):
        if isinstance(v, InitList):
            return self.from_init(st, v, ty)
        if isinstance(v, MapElem):
            return mk(sort_of(Ty('pair', [Ty('auto'), Ty('auto')])), v.key, v.val) if False else v
        if z3.is_expr(v) and ty.name in ('double',) and z3.is_int(v) and not ty.ptr:
            return real(v)
        return v

    def cond(self, e, st):
        """[(state, bool)] of a condition expression."""
        out = []
        for s, v in self.ev(e, st):
            if s.exc:
                out.append((s, None))
                continue
            v = self.rv(s, v)
            out += self.fork(s, self.as_bool(v))
        return out

    def as_bool(self, v):
        if z3.is_bool(v):
            return v
        if z3.is_int(v):
            return v != 0
        if z3.is_real(v):
            return v != 0
        raise Unsupported('condition of sort %s' % (v.sort() if z3.is_expr(v) else type(v)))

    def s_IfStmt(self, n, st):
        inner = [c for c in n['inner'] if c]
        i = 0
        states = [st]
        out = []
        if n.get('hasInit'):
            nxt = []
            for (y, k, v) in self.stmt(inner[0], st):
                (nxt.append(y) if k == 'normal' else out.append((y, k, v)))
            states = nxt
            i = 1
        if n.get('hasVar'):
            nxt = []
            for s in states:
                for (y, k, v) in self.stmt(inner[i], s):
                    (nxt.append(y) if k == 'normal' else out.append((y, k, v)))
            states = nxt
            i += 1
        c, then = inner[i], inner[i + 1]
        els = inner[i + 2] if len(inner) > i + 2 else None
        for s in states:
            base = s.copy() if self.cur is not None and self.cur.merge else None
            res = []
            for s2, b in self.cond(c, s):
                if b is None:
                    res.append((s2, 'throw', s2.exc))
                elif b:
                    res += self.stmt(then, s2)
                elif els is not None:
                    res += self.stmt(els, s2)
                else:
                    res.append((s2, 'normal', None))
            out += res if base is None else self.join(base, res)
        return out

    def join(self, base, results):
        """Paths through a conditional that changed nothing go on as one."""
        if self.cur.merge == 'join':
            return self.join_all(base, results)
        same = [y for y, k, v in results if k == 'normal' and self.unchanged(base, y)]
        if len(same) < 2:
            return results
        n0 = len(base.pc)
        alts = []
        for y in same:
            br, facts = [], set(e.get_id() for e, _ in base.pc)
            for f, b in y.pc[n0:]:
                if b:
                    br.append(f)
                elif f.get_id() not in facts:
                    facts.add(f.get_id())
                    base.assume(z3.Implies(z3.And(*br), f) if br else f)
            alts.append(z3.And(*br) if br else TRUE)
            self.adopt(base, y)
            base.log += y.log[len(base.log):]
        base.assume(z3.Or(*alts))
        return [r for r in results if not any(r[0] is y for y in same)] + [(base, 'normal', None)]

    def join_all(self, base, results):
        """All paths through a conditional go on as one: a name for each path
        taken, what holds on a path guarded by its name, and a new value equal
        to the one of the path taken for whatever differs."""
        norm = [y for y, k, v in results if k == 'normal']
        if len(norm) < 2:
            return results
        self.joins = getattr(self, 'joins', 0) + 1
        n0 = len(base.pc)
        new = base.copy()
        names, conds, facts = [], [], []
        for i, y in enumerate(norm):
            names.append(fresh('path%d_' % i, z3.BoolSort()))
            ext = y.pc[n0:]
            conds.append(z3.And(*[f for f, b in ext if b]))
            facts.append([f for f, b in ext if not b])
        common = set.intersection(*[set(f.get_id() for f in fs) for fs in facts])

        def value(vals, name):
            if all(v is vals[0] for v in vals):
                return vals[0]
            if not all(z3.is_expr(v) for v in vals):
                raise Unsupported('joining paths that differ in %s' % name)
            if all(v.eq(vals[0]) for v in vals):
                return vals[0]
            w = fresh('join_' + T.san(str(name)), vals[0].sort())
            for b, v in zip(names, vals):
                new.assume(z3.Implies(b, w == v))
            return w
        for b, c in zip(names, conds):
            new.assume(b == c)
        new.assume(z3.Or(*names))
        seen = set()
        for b, fs in zip(names, facts):
            for f in fs:
                if f.get_id() in common:
                    if f.get_id() not in seen:
                        new.assume(f)
                    seen.add(f.get_id())
                else:
                    new.assume(z3.Implies(b, f))
        for y in norm:
            for k, v in y.vars.items():
                if k not in base.vars:
                    new.vars.setdefault(k, v)
        for k in base.vars:
            new.vars[k] = value([y.vars[k] for y in norm], k)
        for k in sorted(set(k for y in norm for k in y.heap), key=str):
            some = next(y.heap[k] for y in norm if k in y.heap)
            init = base.heap.get(k)
            if init is None:
                init = z3.Const('H_' + T.san(k), some.sort())
            new.heap[k] = value([y.heap.get(k, init) for y in norm], k)
        for k in sorted(set(k for y in norm for k in y.ghost), key=str):
            vals = [y.ghost.get(k) for y in norm]
            if any(isinstance(w, frozenset) for w in vals):      # facts already said
                new.ghost[k] = frozenset.intersection(*[w or frozenset() for w in vals])
            elif k in base.ghost or not k.startswith('_'):
                new.ghost[k] = value(vals, k)
        py = {}
        for y in norm:
            for k, v in y.py.items():
                if k in base.py and base.py[k] is not v:
                    raise Unsupported('joining paths that differ in %s' % (k,))
                py.setdefault(k, v)
        new.py = py
        dyn, bad = {}, set()
        for y in norm:
            for k, v in y.dyn.items():
                if dyn.setdefault(k, v) != v:
                    bad.add(k)
        new.dyn = {k: v for k, v in dyn.items() if k not in bad}
        for y in norm:
            new.log += y.log[len(base.log):]
        return [r for r in results if r[1] != 'normal'] + [(new, 'normal', None)]

    def s_SwitchStmt(self, n, st):
        inner = [c for c in n['inner'] if c]
        c, body = inner[-2], inner[-1]
        stmts = body.get('inner', [])
        out = []
        # flatten: list of (labels, statements)
        flat = []   # entries ('case', expr) / ('default',) / ('stmt', node)

        def add(x):
            if x['kind'] == 'CaseStmt':
                ex = [y for y in x['inner']]
                flat.append(('case', ex[0]))
                add(ex[-1])
            elif x['kind'] == 'DefaultStmt':
                flat.append(('default', None))
                add(x['inner'][-1])
            else:
                flat.append(('stmt', x))
        for x in stmts:
            add(x)
        for s, v in self.ev(c, st):
            if s.exc:
                out.append((s, 'throw', s.exc))
                continue
            v = self.rv(s, v)
            base = s.copy() if self.cur is not None and self.cur.merge == 'join' else None
            res = []
            pend = [s]
            entries = []
            for i, (k, e) in enumerate(flat):
                if k != 'case':
                    continue
                nxt = []
                for p in pend:
                    (_, cv), = self.ev(e, p)
                    cv = self.rv(p, cv)
                    for q, b in self.fork(p, v == cv):
                        (entries.append((q, i)) if b else nxt.append(q))
                pend = nxt
            dpos = [i for i, (k, e) in enumerate(flat) if k == 'default']
            for p in pend:
                if dpos:
                    entries.append((p, dpos[0]))
                else:
                    res.append((p, 'normal', None))
            for q, i in entries:
                for (y, k, w) in self.block([e for kk, e in flat[i:] if kk == 'stmt'], q):
                    res.append((y, 'normal', None) if k == 'break' else (y, k, w))
            out += res if base is None else self.join_all(base, res)
        return out

    # ------------------------------------------------------------- loops
    def s_ForStmt(self, n, st):
        init, var, c, inc, body = (n['inner'] + [None] * 5)[:5]
        out = []
        starts = [st]
        if init and init.get('kind'):
            starts = []
            for (y, k, v) in self.stmt(init, st):
                (starts.append(y) if k == 'normal' else out.append((y, k, v)))
        for s in starts:
            out += self.loop(n, s, c if c and c.get('kind') else None, inc if inc and inc.get('kind') else None, [body])
        return out

    def s_WhileStmt(self, n, st):
        inner = [c for c in n['inner'] if c and c.get('kind')]
        return self.loop(n, st, inner[-2], None, [inner[-1]])

    def s_DoStmt(self, n, st):
        body, c = n['inner'][0], n['inner'][1]
        out = []
        # first pass of the body, then an ordinary loop
        for (y, k, v) in self.stmt(body, st):
            if k in ('normal', 'continue'):
                out += self.loop(n, y, c, None, [body])
            elif k == 'break':
                out.append((y, 'normal', None))
            else:
                out.append((y, k, v))
        return out

    def s_CXXForRangeStmt(self, n, st):
        inner = [c for c in n['inner'] if c and c.get('kind')]
        body, var, inc, c = inner[-1], inner[-2], inner[-3], inner[-4]
        pre = inner[:-4]
        out = []
        states = [st]
        for p in pre:
            nxt = []
            for s in states:
                for (y, k, v) in self.stmt(p, s):
                    (nxt.append(y) if k == 'normal' else out.append((y, k, v)))
            states = nxt
        for s in states:
            out += self.loop(n, s, c, inc, [var, body])
        return out

    def number_loops(self, fn):
        """Numbers the loops a function runs in source order, following calls of
        functions that have no contract of their own."""
        self.loopno = {}
        seen = set()

        def walk(n):
            if not isinstance(n, dict):
                return
            k = n.get('kind')
            if k in ('LambdaExpr', 'CXXRecordDecl'):
                return
            if k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
                self.loopno.setdefault((n['id'],), len(self.loopno))
            for c in n.get('inner', []) or []:
                walk(c)
            d = None
            if k == 'MemberExpr':
                d = self.P.byid.get(n.get('referencedMemberDecl'))
            elif k == 'DeclRefExpr':
                d = self.P.byid.get(n.get('referencedDecl', {}).get('id'))
            if d is not None and d.get('kind') in ('FunctionDecl', 'CXXMethodDecl') and d['id'] not in seen:
                seen.add(d['id'])
                d = self.resolve(d, None)
                if self.contract_of(d) is None and self.body(d) is not None:
                    walk(self.body(d))
        walk(self.body(fn))

    def loop(self, node, st, cnd, inc, body):
        """Cuts a loop by its invariants."""
        key = (node['id'],)
        if key not in self.loopno:
            self.loopno[key] = len(self.loopno)
        no = self.loopno[key]
        spec = self.cur.loop_spec(no, node, self) if self.cur else None
        return self.run_loop(node, st, spec, no,
                             lambda s: self.cond(cnd, s) if cnd is not None else [(s, True)],
                             lambda s: self.block(body, s),
                             (lambda s: self.stmt(inc, s)) if inc is not None else None, inc, cnd)

    def run_loop(self, node, st, spec, no, fcond, fbody, finc, inc_node=None, fcond_node=None):
        self.loopstack.append((node, inc_node, len(st.frames)))
        try:
            return self._run_loop(node, st, spec, no, fcond, fbody, finc, inc_node, fcond_node)
        finally:
            self.loopstack.pop()

    def _run_loop(self, node, st, spec, no, fcond, fbody, finc, inc_node, fcond_node):
        entry = st.copy()
        entry.ghost['_mark'] = next(_fresh)
        mod_vars, mod_heap = set(), {}
        lens, restart = {}, set()
        # find what the loop modifies: repeat dry runs until nothing new shows up
        for rnd in range(12):
            s0 = st.copy()
            hv = self.havoc_loop(s0, mod_vars, mod_heap, {}, entry, restart)
            s0h = s0.copy()
            s0.log = []
            nv, nh = set(), {}
            self.quiet += 1
            save = dict(self.loopno)
            body_roots = set()
            try:
                if spec is not None:
                    for nm, f in spec.invariants:
                        pass
                ends = []
                for s1, b in fcond(s0):
                    if b is None:
                        continue
                    if b:
                        for (y, k, v) in fbody(s1):
                            body_roots.update(r for r in y.log if r[0] == 'v')
                            if k in ('normal', 'continue') and finc is not None:
                                for (z, k2, v2) in finc(y):
                                    ends.append(z)
                            else:
                                ends.append(y)
                    else:
                        ends.append(s1)
            finally:
                self.quiet -= 1
            for e in ends:
                for r in e.log:
                    if r[0] == 'v':
                        if r[1] in st.vars:
                            nv.add(r[1])
                    else:
                        nh.setdefault(r[1], {})['*' if r[2] is None else '*new' if self.is_new(r[2], entry) else '*' if self.depends_on_fresh(r[2], entry) else r[2].sexpr()] = r
            new = not (nv <= mod_vars) or any(set(nh[k]) - set(mod_heap.get(k, {})) for k in nh)
            mod_vars |= nv
            for k in nh:
                mod_heap.setdefault(k, {}).update(nh[k])
            self.loopno = save
            if not new:
                # lengths that no path changes
                lens = self.stable_parts(hv, ends, entry)
                moved = self.moved_iterators(mod_vars, entry, s0h, ends) - restart
                if moved:
                    restart |= moved
                    continue
                break
        else:
            raise Unsupported('loop analysis does not settle at ' + self.loc(node))
        label = 'loop%d' % no
        auto = self.counter_bounds(entry, hv, s0h, ends, inc_node, fcond_node, body_roots)
        ctx0 = LoopCtx(self, st, entry, entry, node, inc_node)
        if spec is not None:
            for nm, f in spec.invariants:
                self.oblige(st, f(ctx0), 'invariant on entry', node, '%s %s' % (label, nm))
        outer_log = list(st.log)
        s0 = st
        s0.log = []
        for n in restart:
            self.current_enum(st, st.vars[n])
        self.havoc_loop(s0, mod_vars, mod_heap, lens, entry, restart)
        ctx = LoopCtx(self, s0, entry, entry, node, inc_node)
        if spec is not None:
            for nm, f in spec.invariants:
                s0.assume(f(ctx))
            for f in spec.assumes:
                s0.assume(f(ctx))
        for f in auto(s0):
            s0.assume(f)
        head = s0.copy()
        variant0 = spec.variant(ctx) if spec is not None and spec.variant is not None else None
        out = []
        modlog = [('v', n) for n in mod_vars] + [r for k in mod_heap for r in mod_heap[k].values()]

        def done(y):
            y.log = outer_log + modlog + y.log
            return y
        for s1, b in fcond(s0):
            if b is None:
                out.append((done(s1), 'throw', s1.exc))
                continue
            if not b:
                if spec is not None and spec.at_exit is not None:
                    spec.at_exit(LoopCtx(self, s1, entry, head, node, inc_node))
                out.append((done(s1), 'normal', None))
                continue
            if not self.quiet:
                self.bodies.append([e for e, _ in s1.pc])
            if spec is not None and spec.at_body is not None:
                spec.at_body(LoopCtx(self, s1, entry, head, node, inc_node))
            for (y, k, v) in fbody(s1):
                if k in ('normal', 'continue'):
                    ys = [(y, 'normal', None)] if finc is None else finc(y)
                    for (z, k2, v2) in ys:
                        if k2 != 'normal':
                            out.append((done(z), k2, v2))
                            continue
                        for n in restart:
                            self.current_enum(z, z.vars[n])
                        if spec is not None:
                            c2 = LoopCtx(self, z, entry, head, node, inc_node)
                            if spec.at_step is not None:
                                spec.at_step(c2)
                            for nm, f in spec.invariants:
                                self.oblige(z, f(c2), 'invariant kept', node, '%s %s' % (label, nm))
                            if variant0 is not None:
                                v1 = spec.variant(c2)
                                self.oblige(z, self.decreases(v1, variant0), 'termination', node, label)
                elif k == 'break':
                    if spec is not None and spec.at_break is not None:
                        spec.at_break(LoopCtx(self, y, entry, head, node, inc_node))
                    out.append((done(y), 'normal', None))
                else:
                    out.append((done(y), k, v))
        return out

    def counter_bounds(self, entry, hv, s0, ends, inc, cnd, body_roots):
        """Facts about a counter that only the loop's own ++ changes: it never
        goes below its initial value nor beyond a bound the loop does not change."""
        none = lambda s: []
        if inc is None or cnd is None:
            return none
        n = inc
        while n.get('kind') in ('ExprWithCleanups', 'ParenExpr'):
            n = n['inner'][0]
        ops = n.get('opcode')
        if n['kind'] == 'CXXOperatorCallExpr':
            f = n['inner'][0]
            while f['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
                f = f['inner'][0]
            ops = f.get('referencedDecl', {}).get('name', '')[8:]
            tgt = n['inner'][1]
        elif n['kind'] == 'UnaryOperator':
            tgt = n['inner'][0]
        else:
            return none
        if ops != '++':
            return none
        while tgt['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            tgt = tgt['inner'][0]
        if tgt['kind'] != 'DeclRefExpr':
            return none
        did = tgt['referencedDecl']['id']
        lv = entry.frame.env.get(did)
        if not isinstance(lv, LV) or lv.path or lv.root[0] != 'v' or lv.root in body_roots:
            return none
        cnt = lambda s: (lambda v: v.pos if isinstance(v, Iter) else v)(s.vars[lv.root[1]])
        v0 = cnt(entry)
        if v0 is None:
            return none
        rhs = None
        c = cnd
        while c.get('kind') in ('ExprWithCleanups', 'ParenExpr', 'ImplicitCastExpr'):
            c = c['inner'][0]
        kids = None
        if c['kind'] == 'BinaryOperator' and c['opcode'] in ('<', '!='):
            kids = c['inner']
        elif c['kind'] == 'CXXOperatorCallExpr':
            f = c['inner'][0]
            while f['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
                f = f['inner'][0]
            if f.get('referencedDecl', {}).get('name') in ('operator<', 'operator!='):
                kids = c['inner'][1:]
        bound = None
        if kids is not None:
            l = kids[0]
            while l['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'MaterializeTemporaryExpr'):
                l = l['inner'][0]
            if l['kind'] == 'DeclRefExpr' and l['referencedDecl']['id'] == did:
                self.quiet += 1
                try:
                    def ev1(st):
                        r = self.ev(kids[1], st.copy())
                        if len(r) != 1 or r[0][0].exc:
                            return None
                        w = self.rv(r[0][0], r[0][1])
                        if isinstance(w, Iter):
                            if w.kind != 'seq':
                                return None
                            return w.pos
                        return w
                    a, b = ev1(entry), ev1(s0)
                    if a is not None and b is not None and a.eq(b):
                        bound = a
                finally:
                    self.quiet -= 1

        def facts(s):
            k = cnt(s)
            out = [k >= v0]
            if bound is not None:
                out.append(z3.Or(k <= bound, k == v0))
            return out
        return facts

    def decreases(self, a, b):
        if not isinstance(a, tuple):
            a, b = (a,), (b,)
        r = FALSE
        eq = TRUE
        for x, y in zip(a, b):
            r = z3.Or(r, z3.And(eq, x < y, y >= 0))
            eq = z3.And(eq, x == y)
        return r

    def moved_iterators(self, mod_vars, entry, head, ends):
        """Iterators that some path leaves in another enumeration than it found them in."""
        out = set()
        for n in mod_vars:
            a = head.vars[n]
            if not isinstance(a, Iter):
                continue
            for e in ends:
                b = e.vars.get(n)
                if b is None:
                    continue
                if not isinstance(b, Iter) or (a.enum is None) != (b.enum is None) or a.kind != b.kind or not (a.cont is b.cont or isinstance(a.cont, LV) and a.cont.same(b.cont)):
                    raise Unsupported('iterator set to another kind of position in a loop')
                if a.enum is not b.enum:
                    out.add(n)
        return out

    def current_enum(self, st, it):
        """The iterator belongs to an enumeration of what its container holds now."""
        m = get(self.rv(st, it.cont), 'mem')
        if not any(E is it.enum and m.eq(mem) for (E, fs, mem, n) in self._enums.values()):
            raise Unsupported('iterator of an earlier state of its container')

    def havoc_loop(self, st, mod_vars, mod_heap, lens, entry, restart=()):
        hv = {}
        for n in sorted(mod_vars):
            old = st.vars[n]
            st.vars[n] = self.havoc_val(st, old, 'v', self.root_ty(st, n))
            hv[('v', n)] = st.vars[n]
        for key in sorted(mod_heap):
            refs = mod_heap[key]
            ty = next(iter(refs.values()))[3]
            if key == '_alloc':
                lim = fresh('alloc', z3.IntSort())
                st.assume(lim >= st.ghost['_limit'])
                st.ghost['_limit'] = lim
            if ty is None:
                continue
            arr = self.heap_arr(st, key, ty)
            pre = entry.vars
            stable = all(k == '*new' or r[2] is not None and not self.depends_on_fresh(r[2], entry) for k, r in refs.items())
            if stable:
                if '*new' in refs:
                    # fields of objects made in the loop: those of older objects stay
                    was, arr = arr, fresh('H_' + T.san(key), arr.sort())
                    q = z3.Int('q')
                    st.assume(z3.ForAll([q], z3.Implies(q < entry.ghost['_limit'], z3.Select(arr, q) == z3.Select(was, q)), patterns=[z3.Select(arr, q)]))
                    lim = fresh('alloc', z3.IntSort())
                    st.assume(lim >= st.ghost['_limit'])
                    st.ghost['_limit'] = lim
                for r in (r for k, r in refs.items() if k != '*new'):
                    x = fresh(T.san(key), sort_of(ty))
                    for f in self.wf(x, ty):
                        st.assume(f)
                    arr = z3.Store(arr, r[2], x)
                    hv[('h', key, r[2].sexpr())] = x
                st.heap[key] = arr
            else:
                st.heap[key] = fresh('H_' + T.san(key), arr.sort())
        for n in sorted(restart):
            it = st.vars[n]
            en = self.enum_of(st, it.cont, it.ty)
            p = fresh('v', z3.IntSort())
            st.assume(z3.And(0 <= p, p <= en.n))
            st.vars[n] = Iter(it.cont, it.kind, p, en, None, None, it.rev, it.ty, it.ismap)
        if lens:
            for k, parts in lens.items():
                cur = hv.get(k)
                if cur is None:
                    continue
                for fname, oldv in parts:
                    st.assume(get(cur, fname) == oldv)
        return hv

    def depends_on_fresh(self, ref, entry):
        """Does a reference expression depend on something created after loop entry?"""
        for c in consts_of(ref):
            nm = c.decl().name()
            if '!' in nm:
                k = int(nm.rsplit('!', 1)[1])
                if k >= entry.ghost['_mark']:
                    return True
        return False

    def is_new(self, ref, entry):
        """an object allocated after loop entry"""
        return z3.is_const(ref) and ref.decl().name().startswith('new!') and self.depends_on_fresh(ref, entry)

    def root_ty(self, st, n):
        for f in st.frames:
            for nm, ty, did in f.decls:
                lv = f.env.get(did)
                if isinstance(lv, LV) and lv.root == ('v', n) and not lv.path:
                    return ty
        return None

    def stable_parts(self, hv, ends, entry):
        """Container lengths that are syntactically unchanged on every path through the loop."""
        res = {}
        for k, v in hv.items():
            if not (z3.is_expr(v) and T.is_dt(v)):
                continue
            n = v.sort().name()
            fs = {'Vec_': ['len'], 'Deq_': ['lo', 'hi'], 'Set_': [], 'Map_': []}.get(n[:4], [])
            keep = []
            for f in fs:
                ok = True
                for e in ends:
                    if k[0] == 'v':
                        if k[1] not in e.vars:
                            continue
                        w = e.vars[k[1]]
                    else:
                        a = e.heap[k[1]]
                        w = None
                        ref = self._refs_by_sexpr.get(k[2]) if hasattr(self, '_refs_by_sexpr') else None
                        w = self.sel_by_sexpr(a, k[2])
                        if w is None:
                            ok = False
                            break
                    if not z3.is_expr(w) or not T.is_dt(w):
                        ok = False
                        break
                    x = z3.simplify(get(w, f))
                    y = z3.simplify(get(v, f))
                    if not x.eq(y):
                        ok = False
                        break
                if ok:
                    if k[0] == 'v':
                        keep.append((f, get(entry.vars[k[1]], f)))
                    else:
                        w = self.sel_by_sexpr(entry.heap[k[1]], k[2]) if k[1] in entry.heap else None
                        if w is not None:
                            keep.append((f, get(w, f)))
            if keep:
                res[k] = keep
        return res

    def sel_by_sexpr(self, a, s):
        base = a
        while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
            if a.arg(1).sexpr() == s:
                return a.arg(2)
            if not z3.is_int_value(a.arg(1)):
                pass
            a = a.arg(0)
        # unchanged: read with a constant of that name when it is a plain constant
        if not any(ch in s for ch in '( )'):
            return sel(base, z3.Int(s) if not s.lstrip('-').isdigit() else IntV(int(s)))
        return None

    # -------------------------------------------------------- expressions
    def ev(self, e, st):
        """[(state, value-or-lvalue)]"""
        if st.exc:
            return [(st, None)]
        m = getattr(self, 'e_' + e['kind'], None)
        if m is None:
            self.unsupported(e)
        return m(e, st)

    def evs(self, es, st):
        """Evaluates a list of expressions in order: [(state, [values])]."""
        res = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in res:
                if s.exc:
                    nxt.append((s, vs))
                    continue
                for s2, v in self.ev(e, s):
                    nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def _one(self, e, st):
        return self.ev(e['inner'][0], st)

    e_ParenExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_ConstantExpr = e_FullExpr = _one

    def e_SubstNonTypeTemplateParmExpr(self, e, st):
        return self.ev(e['inner'][-1], st)

    def e_MaterializeTemporaryExpr(self, e, st):
        out = []
        for s, v in self._one(e, st):
            if s.exc or isinstance(v, (LV, Obj)) or (isinstance(v, InitList) and e['type'].get('qualType', '').endswith(']')):
                out.append((s, v))
            else:
                out.append((s, self.temp(s, self.coerce(s, v, ctype(e)), ctype(e).bare())))
        return out

    def e_IntegerLiteral(self, e, st):
        return [(st, IntV(int(e['value'])))]

    def e_FloatingLiteral(self, e, st):
        from fractions import Fraction
        return [(st, z3.Q(*Fraction(repr(float(e['value']))).as_integer_ratio()))]

    def e_CXXBoolLiteralExpr(self, e, st):
        return [(st, z3.BoolVal(bool(e['value'])))]

    def e_CharacterLiteral(self, e, st):
        return [(st, IntV(int(e['value'])))]

    def e_StringLiteral(self, e, st):
        return [(st, 'str')]

    e_PredefinedExpr = e_StringLiteral

    def e_CXXNullPtrLiteralExpr(self, e, st):
        return [(st, IntV(0))]

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_CXXScalarValueInitExpr(self, e, st):
        if ctype(e).name == 'void':
            return [(st, VOID)]
        return [(st, self.default(ctype(e)))]

    e_ImplicitValueInitExpr = e_CXXScalarValueInitExpr

    def e_CXXThisExpr(self, e, st):
        this = st.frame.this
        if this is None:
            self.unsupported(e, 'no this')
        if isinstance(this, Obj):
            return [(st, this)]
        return [(st, this)]

    def e_DeclRefExpr(self, e, st):
        r = e['referencedDecl']
        for f in reversed(st.frames):
            if r['id'] in f.env:
                return [(st, f.env[r['id']])]
            break
        f = st.frame
        if r['kind'] == 'EnumConstantDecl':
            return [(st, IntV(self.enum_value(r)))]
        if r['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return [(st, Closure(r, {}, None, r.get('name')))]
        if r.get('name') == 'nullopt':
            return [(st, 'nullopt')]
        g = self.P.byid.get(r['id'])
        if g is not None and g.get('kind') == 'VarDecl':
            init = [c for c in g.get('inner', []) if 'valueCategory' in c]
            if init:
                return self.ev(init[0], st)
        if r.get('name') in ('cout', 'cerr', 'clog'):
            return [(st, 'stream')]
        if r.get('name') in ('ignore',):
            return [(st, VOID)]
        self.unsupported(e, 'reference to %s %s' % (r['kind'], r.get('name')))

    def enum_value(self, r):
        d = self.P.byid.get(r['id'])
        if d is None:
            raise Unsupported('enum constant ' + str(r.get('name')))
        if '_enumval' not in d:
            self._number_enums()
        if '_enumval' not in d:
            raise Unsupported('enum constant ' + str(r.get('name')))
        return d['_enumval']

    def _number_enums(self):
        for n in list(self.P.byid.values()):
            if n.get('kind') != 'EnumDecl':
                continue
            nxt = 0
            for c in n.get('inner', []):
                if c.get('kind') != 'EnumConstantDecl':
                    continue
                val = const_int(c)
                if val is not None:
                    nxt = val
                c['_enumval'] = nxt
                nxt += 1

    def e_UnaryOperator(self, e, st):
        op = e['opcode']
        out = []
        for s, v in self._one(e, st):
            if s.exc:
                out.append((s, None))
            elif op in ('++', '--'):
                old = self.rv(s, v)
                if z3.is_real(old):
                    new = old + (1 if op == '++' else -1)
                else:
                    new = old + (1 if op == '++' else -1)
                    if op == '--' and ctype(e).name in T.UNSIGNED:
                        self.oblige(s, old >= 1, 'no wrap', e, 'unsigned decrement')
                self.write(s, v, z3.simplify(new) if is_num(old) else new)
                out.append((s, old if e.get('isPostfix') else v))
            elif op == '!':
                out.append((s, z3.Not(self.as_bool(self.rv(s, v)))))
            elif op == '-':
                v = self.rv(s, v)
                out.append((s, z3.simplify(-v) if is_num(v) else -v))
            elif op == '+':
                out.append((s, self.rv(s, v)))
            elif op == '*':
                out.append((s, self.deref(s, v, e)))
            elif op == '&':
                out.append((s, v.ref if isinstance(v, Obj) else v))
            elif op == '__extension__':
                out.append((s, v))
            else:
                self.unsupported(e, op)
        return out

    def deref(self, st, v, e):
        if isinstance(v, Obj):
            return v
        p = self.rv(st, v)
        if isinstance(p, Obj):
            return p
        if isinstance(p, Iter):
            return self.iter_deref(st, p, e)
        ty = ctype(e)
        return self.pointee(st, p, ty, e)

    def pointee(self, st, p, ty, e):
        """Object or container a pointer value refers to."""
        self.oblige(st, p != 0, 'deref', e, 'pointer not null')
        if ty.name in self.classes and ty.name not in T.VALUE_CLASSES:
            return Obj(p, st.dyn.get(p.sexpr(), ty.name))
        return LV(('h', '*' + ty.bare().key(), p, ty.bare()), (), ty.bare())

    ARITH = {'+', '-', '*', '/', '%'}

    def e_BinaryOperator(self, e, st):
        op = e['opcode']
        l, r = e['inner']
        if op in ('&&', '||'):
            return self.shortcut(e, op, l, r, st)
        if op == '=':
            out = []
            # right operand first (C++17)
            for s, vs in self.evs([r, l], st):
                if s.exc:
                    out.append((s, None))
                    continue
                val = self.rv(s, vs[0])
                self.assign(s, vs[1], val, ctype(l))
                out.append((s, vs[1]))
            return out
        if op == ',':
            out = []
            for s, vs in self.evs([l, r], st):
                out.append((s, vs[1] if not s.exc else None))
            return out
        out = []
        for s, vs in self.evs([l, r], st):
            if s.exc:
                out.append((s, None))
                continue
            a, b = self.rv(s, vs[0]), self.rv(s, vs[1])
            out.append((s, self.binop(s, op, a, b, ctype(e), e)))
        return out

    def assign(self, st, lv, val, ty):
        self.write(st, lv, self.coerce(st, val, ty))

    def binop(self, st, op, a, b, ty, e):
        if isinstance(a, Obj):
            a = a.ref
        if isinstance(b, Obj):
            b = b.ref
        if not (z3.is_expr(a) and z3.is_expr(b)):
            self.unsupported(e, 'operator %s on %s, %s' % (op, type(a).__name__, type(b).__name__))
        if z3.is_bool(a) and not z3.is_bool(b):
            a = z3.If(a, IntV(1), IntV(0))
        if z3.is_bool(b) and not z3.is_bool(a):
            b = z3.If(b, IntV(1), IntV(0))
        if z3.is_real(a) != z3.is_real(b):
            a, b = real(a), real(b)
        if op in ('<', '>', '<=', '>=', '==', '!='):
            if z3.is_bool(a) and op in ('<', '>', '<=', '>='):
                a, b = z3.If(a, IntV(1), IntV(0)), z3.If(b, IntV(1), IntV(0))
            return {'<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b,
                    '==': lambda: a == b, '!=': lambda: a != b}[op]()
        if z3.is_bool(a) and op in ('+', '-', '*'):
            a, b = z3.If(a, IntV(1), IntV(0)), z3.If(b, IntV(1), IntV(0))
        if op == '+':
            r = a + b
        elif op == '-':
            r = a - b
            if ty.name in T.UNSIGNED and not ty.ptr:
                if self.cur is not None and self.cur.wraps:
                    r = z3.If(a >= b, a - b, a - b + z3.IntVal(2 ** 64))
                else:
                    self.oblige(st, a >= b, 'no wrap', e, 'unsigned subtraction')
        elif op == '*':
            r = rmul(a, b) if z3.is_real(a) else a * b
        elif op == '/':
            if z3.is_real(a):
                r = rdiv(a, b)
            else:
                self.oblige(st, b != 0, 'division', e, 'divisor not zero')
                if ty.name not in T.UNSIGNED:
                    self.oblige(st, z3.And(a >= 0, b > 0), 'division', e, 'operands not negative')
                r = a / b
        elif op == '%':
            self.oblige(st, z3.And(a >= 0, b > 0), 'division', e, 'remainder operands')
            r = a % b
        elif op in ('|', '&') and z3.is_bool(a):
            r = z3.Or(a, b) if op == '|' else z3.And(a, b)
        elif op == '^' and z3.is_bool(a):
            r = z3.Xor(a, b)
        elif op == '<<' and is_num(b):
            r = a * (2 ** b.as_long())
        else:
            self.unsupported(e, op)
        if is_num(a) and is_num(b):
            r = z3.simplify(r)
        return r

    def shortcut(self, e, op, l, r, st):
        out = []
        for s, v in self.ev(l, st):
            if s.exc:
                out.append((s, None))
                continue
            a = self.as_bool(self.rv(s, v))
            go = a if op == '&&' else z3.Not(a)
            sa = z3.simplify(go)
            if z3.is_false(sa):
                out.append((s, FALSE if op == '&&' else TRUE))
                continue
            base = s.copy()
            s2 = s.copy()
            s2.assume(go, True)
            n0 = len(base.pc)
            rs = self.ev(r, s2)
            if all(not x.exc and self.unchanged(base, x) for x, _ in rs):
                # pure: no fork needed
                val = None
                pcs = []
                alts = []
                for x, w in rs:
                    w = self.as_bool(self.rv(x, w))
                    br = [c for c, b in x.pc[n0 + (0 if z3.is_true(sa) else 1):] if b]
                    fa = [c for c, b in x.pc[n0 + (0 if z3.is_true(sa) else 1):] if not b]
                    alts.append((br, fa, w))
                    self.adopt(base, x)
                for br, fa, w in alts:
                    g = z3.And(*([go] + br))
                    for f in fa:
                        base.assume(z3.Implies(g, f))
                w = alts[-1][2]
                for br, fa, x in reversed(alts[:-1]):
                    w = z3.If(z3.And(*br) if br else TRUE, x, w)
                out.append((base, z3.And(a, w) if op == '&&' else z3.Or(a, w)))
            else:
                for x, w in rs:
                    if x.exc:
                        out.append((x, None))
                    else:
                        out.append((x, self.as_bool(self.rv(x, w))))
                base.assume(z3.Not(go), True)
                if self.feasible(base):
                    out.append((base, FALSE if op == '&&' else TRUE))
        return out

    def unchanged(self, a, b):
        """No variable visible in a, and no heap field, differs in b."""
        for k, v in a.vars.items():
            if b.vars.get(k) is not v:
                return False
        for k, v in b.heap.items():
            if k in a.heap and a.heap[k] is not v and not a.heap[k].eq(v):
                return False
            if k not in a.heap and v.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                return False
        return a.py.keys() == b.py.keys() and all(a.py[k] is b.py[k] for k in a.py)

    def adopt(self, a, b):
        for k, v in b.heap.items():
            a.heap.setdefault(k, v)
        for k, v in b.vars.items():
            a.vars.setdefault(k, v)

    def merge_pure(self, base, results):
        """Joins the results of a side-effect-free evaluation into one."""
        if len(results) <= 1:
            return results
        if any(s.exc for s, _ in results):
            return results
        vals = []
        for s, v in results:
            w = self.rv(s, v)
            vals.append(w)
            if not self.unchanged(base, s):
                return results
        if not all(z3.is_expr(w) for w in vals):
            if all(isinstance(w, Void) for w in vals):
                pass
            else:
                return results
        n0 = len(base.pc)
        alts = []
        for (s, _), w in zip(results, vals):
            ext = s.pc[n0:]
            br = [c for c, b in ext if b]
            # guard each fact by the branches before it
            seen = []
            for c, b in ext:
                if b:
                    seen.append(c)
                else:
                    base.assume(z3.Implies(z3.And(*seen), c) if seen else c)
            alts.append((br, w))
            self.adopt(base, s)
        if isinstance(vals[0], Void):
            return [(base, VOID)]
        w = alts[-1][1]
        for br, x in reversed(alts[:-1]):
            w = z3.If(z3.And(*br) if br else TRUE, x, w)
        base.assume(z3.Or(*[z3.And(*br) if br else TRUE for br, _ in alts]))
        return [(base, w)]

    def e_CompoundAssignOperator(self, e, st):
        op = e['opcode'][:-1]
        l, r = e['inner']
        out = []
        for s, vs in self.evs([r, l], st):
            if s.exc:
                out.append((s, None))
                continue
            a, b = self.rv(s, vs[1]), self.rv(s, vs[0])
            v = self.binop(s, op, a, b, ctype(l), e)
            if z3.is_int(a) and z3.is_real(v):
                v = z3.ToInt(v)
            self.write(s, vs[1], v)
            out.append((s, vs[1]))
        return out

    def e_ConditionalOperator(self, e, st):
        c, a, b = e['inner']
        out = []
        for s, v in self.ev(c, st):
            if s.exc:
                out.append((s, None))
                continue
            base = s.copy()
            rs = []
            for s2, t in self.fork(s, self.as_bool(self.rv(s, v))):
                rs += self.ev(a if t else b, s2)
            if ctype(e).name == 'void':
                rs = [(x, VOID) for x, _ in rs if not (z3.is_false(x.pc[-1][0]) if x.pc else False)]
                out += rs if len(rs) <= 1 else self.merge_pure(base, rs)
                continue
            if e.get('valueCategory') == 'lvalue' and not self.is_scalar(ctype(e)):
                out += rs
            else:
                out += self.merge_pure(base, rs)
        return out

    # ------------------------------------------------------------- casts
    def cast(self, e, st):
        k = e.get('castKind')
        out = []
        for s, v in self._one(e, st):
            if s.exc:
                out.append((s, None))
            else:
                out.append((s, self.do_cast(s, e, k, v)))
        return out

    e_ImplicitCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CStyleCastExpr = e_CXXConstCastExpr = cast

    def do_cast(self, s, e, k, v):
        if k in ('LValueToRValue',):
            return self.rv(s, v)
        if k in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'FunctionToPointerDecay', 'ConstructorConversion',
                 'ArrayToPointerDecay', 'BaseToDerived', 'Dependent', 'BitCast'):
            return v
        if k == 'UserDefinedConversion':
            return v
        if k == 'IntegralCast':
            v = self.rv(s, v)
            t, src = ctype(e), ctype(e['inner'][0])
            if z3.is_bool(v):
                return z3.If(v, IntV(1), IntV(0))
            if t.name in T.UNSIGNED and src.name not in T.UNSIGNED and not is_num(v) and src.name in T.INTS:
                self.oblige(s, v >= 0, 'no wrap', e, 'conversion to unsigned of a negative value')
            if t.name in T.UNSIGNED and is_num(v) and v.as_long() < 0:
                bits = 64 if 'long' in t.name or t.name == 'size_t' else 32
                return IntV(v.as_long() % 2 ** bits)
            return v
        if k == 'IntegralToFloating':
            return real(self.rv(s, v)) if not z3.is_bool(self.rv(s, v)) else z3.If(self.rv(s, v), z3.RealVal(1), z3.RealVal(0))
        if k == 'FloatingCast':
            return self.rv(s, v)
        if k == 'FloatingToIntegral':
            x = self.rv(s, v)
            return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
        if k in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            x = self.rv(s, v)
            if isinstance(x, Obj):
                x = x.ref
            return self.as_bool(x)
        if k == 'NullToPointer':
            return IntV(0)
        if k == 'ToVoid':
            return VOID
        self.unsupported(e, 'cast ' + str(k))

    def e_CXXThrowExpr(self, e, st):
        ty = 'exception'
        if e.get('inner'):
            ty = ctype(e['inner'][0]).name
        st.exc = ty
        return [(st, None)]

    def e_LambdaExpr(self, e, st):
        return [(st, Closure(e, dict(st.frame.env), st.frame.this, 'lambda'))]

    def e_CXXDefaultInitExpr(self, e, st):
        if e.get('inner'):
            return self._one(e, st)
        return [(st, None)]

    def e_CXXStdInitializerListExpr(self, e, st):
        return self._one(e, st)

    def e_InitListExpr(self, e, st):
        ty = ctype(e)
        el = e.get('inner', [])
        if self.is_scalar(ty) and len(el) <= 1 and not e['type'].get('qualType', '').endswith(']'):
            if not el:
                return [(st, self.default(ty))]
            return [(s, self.rv(s, v) if not s.exc else None) for s, v in self.ev(el[0], st)]
        out = []
        for s, vs in self.evs(el, st):
            if s.exc:
                out.append((s, None))
                continue
            out.append((s, InitList([self.rv(s, v) for v in vs])))
        return out

    def from_init(self, st, il, ty):
        if not il.vals and ty.name in self.known_records() and ty.name not in T.VALUE_CLASSES and not self.is_std_value(ty):
            return Obj(self.alloc(st), ty.name)
        s = sort_of(ty)
        n = s.name()
        if n.startswith('Pair_') or n.startswith('Tup_') or n.startswith('Rec_'):
            vals = list(il.vals)
            d = T._dts[n][0]
            k = len(T._dts[n][1])
            sub = ty.args if ty.args and n[:3] != 'Rec' else [t for _, t in T.RECORD_FIELDS.get(ty.name, [])]
            out = []
            for i in range(k):
                srt = d.accessor(0, i).range()
                v = vals[i] if i < len(vals) else self.default_of(srt)
                if isinstance(v, InitList):
                    v = self.from_init(st, v, sub[i])
                out.append(real(v) if srt == z3.RealSort() else v)
            return mk(s, *out)
        if n.startswith('Vec_') or n.startswith('Deq_'):
            v = self.default_of(s)
            a = get(v, 'arr')
            for i, x in enumerate(il.vals):
                a = z3.Store(a, IntV(i), self.coerce(st, x, ty.args[0]))
            return mk(s, IntV(len(il.vals)), a) if n.startswith('Vec_') else mk(s, IntV(0), IntV(len(il.vals)), a)
        if n.startswith('Set_'):
            v = self.default_of(s)
            for x in il.vals:
                v = self.set_insert(v, self.coerce(st, x, ty.args[0]))
            return v
        if n.startswith('Map_'):
            v = self.default_of(s)
            pt = Ty('pair', [a.bare() for a in ty.args[:2]])
            for x in il.vals:
                x = self.coerce(st, self.rv(st, x), pt)
                key = get(x, 'first')
                has = z3.simplify(sel(get(v, 'mem'), key))
                if z3.is_false(has):
                    v = upd(v, mem=z3.Store(get(v, 'mem'), key, TRUE), card=get(v, 'card') + 1, val=z3.Store(get(v, 'val'), key, get(x, 'second')))
                    continue
                v = upd(v, mem=z3.Store(get(v, 'mem'), key, TRUE), card=z3.If(has, get(v, 'card'), get(v, 'card') + 1),
                        val=z3.Store(get(v, 'val'), key, z3.If(has, sel(get(v, 'val'), key), get(x, 'second'))))
            return v
        if n.startswith('Opt_'):
            if not il.vals:
                return self.default_of(s)
            return mk(s, TRUE, il.vals[0])
        raise Unsupported('initializer list for ' + ty.key())

    def set_insert(self, v, x):
        m, c = get(v, 'mem'), get(v, 'card')
        return upd(v, mem=z3.Store(m, x, TRUE), card=z3.If(sel(m, x), c, c + 1))

    # ----------------------------------------------------------- members
    def e_MemberExpr(self, e, st):
        out = []
        for s, v in self._one(e, st):
            if s.exc:
                out.append((s, None))
                continue
            out.append((s, self.member(s, e, v)))
        return out

    def member(self, s, e, v):
        name = e.get('name', '')
        d = self.P.byid.get(e.get('referencedMemberDecl'))
        base = e['inner'][0]
        if e.get('isArrow') and not isinstance(v, (Obj,)):
            bt = ctype(base)
            v = self.rv(s, v)
            if isinstance(v, (MapElem, LV, Obj)):
                pass
            elif z3.is_expr(v):
                t = Ty(bt.name, bt.args, False, max(bt.ptr - 1, 0))
                if bt.name in ('shared_ptr', 'unique_ptr'):
                    t = bt.args[0]
                v = self.pointee(s, v, t, e)
        if isinstance(v, Obj):
            fd = d if d is not None and d.get('kind') == 'FieldDecl' else None
            if fd is None:
                self.unsupported(e, 'member ' + name)
            return self.field_lv(s, v, fd)
        if isinstance(v, MapElem):
            return v.key if name == 'first' else v.val
        val = v
        if isinstance(v, LV):
            cur = self.rv(s, v)
            if isinstance(cur, MapElem):
                return cur.key if name == 'first' else cur.val
            if isinstance(cur, Obj):
                return self.field_lv(s, cur, d)
            ft = ctype(e)
            return v.sub(('fld', name), ty=ft.bare())
        if z3.is_expr(val):
            return get(val, name)
        self.unsupported(e, 'member of ' + type(v).__name__)

    def field_key(self, fd):
        rec = self.owner(fd)
        return '%s::%s' % (rec, fd['name'])

    def owner(self, fd):
        if '_owner' not in fd:
            for rn, rec in self.P.records.items():
                for c in rec.get('inner', []):
                    if c.get('kind') == 'FieldDecl':
                        c['_owner'] = rec.get('_name') or '(anon)'
        return fd['_owner']

    def field_lv(self, st, obj, fd):
        key = self.field_key(fd)
        ty = ctype(fd)
        return LV(('h', key, obj.ref, ty.bare()), (), ty.bare())

    def field(self, st, obj, name, cls=None):
        """lvalue of a field by name, searched in the class and its bases."""
        fd = self.find_field(cls or obj.cls, name)
        return self.field_lv(st, obj, fd)

    def record(self, cls):
        for rn, rec in self.P.records.items():
            if rec.get('_name') == cls:
                return rec
        raise Unsupported('class ' + cls + ' is not in the tree')

    def bases(self, cls):
        rec = self.record(cls)
        return [parse(b['type'].get('desugaredQualType') or b['type']['qualType']).name for b in rec.get('bases', [])]

    def derives(self, cls, base):
        return cls in self.known_records() and any(b == base or self.derives(b, base) for b in self.bases(cls))

    def find_field(self, cls, name):
        rec = self.record(cls)
        for c in rec.get('inner', []):
            if c.get('kind') == 'FieldDecl' and c.get('name') == name:
                return c
        for b in self.bases(cls):
            try:
                return self.find_field(b, name)
            except Unsupported:
                continue
        raise Unsupported('field %s::%s' % (cls, name))

    # ------------------------------------------------------------- calls
    def params(self, fn):
        return [c for c in fn.get('inner', []) if c.get('kind') == 'ParmVarDecl']

    def body(self, fn):
        for c in fn.get('inner', []):
            if c.get('kind') == 'CompoundStmt':
                return c
        return None

    def arg_exprs(self, es, fn):
        """Argument expressions, defaults taken from the declaration."""
        ps = self.params(fn) if fn is not None else []
        out = []
        for i, e in enumerate(es):
            if e['kind'] == 'CXXDefaultArgExpr':
                init = [c for c in ps[i].get('inner', []) if 'valueCategory' in c] if i < len(ps) else []
                if e.get('inner'):
                    out.append(e['inner'][0])
                elif init:
                    out.append(init[0])
                else:
                    out.append({'kind': 'VfDefault', 'p': ps[i] if i < len(ps) else None, 'type': e.get('type'), '_line': 0})
            else:
                out.append(e)
        return out

    def e_CXXDefaultArgExpr(self, e, st):
        if e.get('inner'):
            return self._one(e, st)
        return [(st, 'default')]

    def e_VfDefault(self, e, st):
        d = self.classes.get('_defaults', {}).get((e['p'] or {}).get('name'))
        if d is None:
            raise Unsupported('default argument of ' + str((e['p'] or {}).get('name')))
        return [(st, d(self))]

    def call(self, st, fn, this, args, node):
        """Calls a library function with evaluated arguments (values or lvalues)."""
        if self.cur is not None and (fn.get('_qual', '').replace('comma::', ''), self.nparam(fn)) in self.cur.opaque:
            return self.opaque_call(st, fn, args, node)
        c = self.contract_of(fn)
        if c is not None and self.cur is not None and c.name in self.cur.inline:
            c = None
        if c is not None:
            self.used_contracts.add(c.name)
            return c.apply(self, st, fn, this, args, node)
        return self.inline(st, fn, this, args, node)

    def opaque_call(self, st, fn, args, node):
        """A call about which only its arguments are recorded: it may throw and
        leave anything in its non-constant reference arguments."""
        vals, outs = [], {}
        bad = st.copy()
        for i, (p, a) in enumerate(zip(self.params(fn), args)):
            q = p['type'].get('qualType', '')
            v = self.coerce(st, self.convert(st, self.rv(st, a), ctype(p)), ctype(p))
            vals.append(v)
            if q.rstrip().endswith('&') and not q.startswith('const '):
                self.write(st, a, self.havoc_val(st, v, 'out', ctype(p)))
                self.write(bad, a, self.havoc_val(bad, v, 'out', ctype(p)))
                outs[i] = a
        for s in (st, bad):
            s.ghost['calls'] = s.ghost.get('calls', ()) + ((vals, outs, {i: self.rv(s, a) for i, a in outs.items()}),)
        bad.exc = 'opaque'
        return [(st, VOID), (bad, None)]

    def contract_of(self, fn):
        q = fn.get('_qual', '').replace('comma::', '')
        c = self.contracts.get(q)
        if c is None:
            return None
        if isinstance(c, list):
            return next((d for d in c if d.accepts is None or d.accepts(self, fn)), None)
        if c.accepts is not None and not c.accepts(self, fn):
            return None
        return c

    def inline(self, st, fn, this, args, node, closure=None):
        b = self.body(fn)
        if b is None:
            self.unsupported(node, 'no body of ' + str(fn.get('_qual', fn.get('name'))))
        if self.depth > 25:
            raise Unsupported('inlining too deep (recursion?) in ' + str(fn.get('name')))
        self.inlined.add(fn.get('_qual', fn.get('name', '?')))
        base = st.copy()
        f = Frame(fn, this)
        if closure is not None:
            f.env.update(closure.env)
        st.frames.append(f)
        for p, a in zip(self.params(fn), args):
            self.bind_param(st, p, a)
        self.depth += 1
        try:
            if fn['kind'] == 'CXXConstructorDecl':
                outs = []
                for s in self.run_inits(st, fn, this):
                    outs += [(s, 'throw', s.exc)] if s.exc else self.stmt(b, s)
            else:
                outs = self.stmt(b, st)
        finally:
            self.depth -= 1
        res = []
        for s, k, v in outs:
            s.frames.pop()
            if k == 'throw':
                res.append((s, None))
            elif k == 'return':
                res.append((s, v))
            else:
                res.append((s, VOID))
        if len(res) > 1:
            res = self.merge_pure(base, res)
        return res

    def bind_param(self, st, p, a):
        ty = ctype(p)
        q = p['type'].get('qualType', '')
        isref = ty.ref or q.rstrip().endswith('&')
        if isref:
            if not isinstance(a, (LV, Obj, MapElem)):
                a = self.temp(st, self.coerce(st, a, ty), ty.bare())
            elif isinstance(a, LV) and a.ty is None:
                a = LV(a.root, a.path, ty.bare())
            self.bind(st, p, a)
        else:
            v = self.rv(st, a)
            if isinstance(v, Obj) and ty.name not in self.classes:
                pass
            self.bind(st, p, self.temp(st, self.coerce(st, v, ty), ty.bare()))

    def run_inits(self, st, fn, this):
        states = [st]
        for c in fn.get('inner', []):
            if c.get('kind') != 'CXXCtorInitializer':
                continue
            nxt = []
            for s in states:
                if s.exc:
                    nxt.append(s)
                    continue
                e = c['inner'][0] if c.get('inner') else None
                if 'anyInit' in c:
                    fd = self.P.byid.get(c['anyInit']['id'])
                    lv = self.field_lv(s, this, fd)
                    if e is not None and e['kind'] == 'CXXDefaultInitExpr' and not e.get('inner'):
                        init = [x for x in fd.get('inner', []) if 'valueCategory' in x]
                        e = init[0] if init else None
                    if e is None:
                        nxt.append(s)
                        continue
                    if e['kind'] == 'CXXConstructExpr' and not e.get('inner') and self.is_std_value(ctype(fd)):
                        s.log.append(lv.root)
                        self.write(s, lv, self.default(ctype(fd)))
                        nxt.append(s)
                        continue
                    for s2, v in self.ev(e, s):
                        if not s2.exc:
                            self.write(s2, lv, self.coerce(s2, self.rv(s2, v), ctype(fd)))
                        nxt.append(s2)
                elif 'baseInit' in c:
                    s.ghost['_basethis'] = this
                    for s2, v in self.construct(e, s, into=this):
                        nxt.append(s2)
                else:
                    self.unsupported(c)
            states = nxt
        return states

    def e_CXXMemberCallExpr(self, e, st):
        m = e['inner'][0]
        while m['kind'] == 'ParenExpr':
            m = m['inner'][0]
        if m['kind'] != 'MemberExpr':
            self.unsupported(e, 'callee ' + m['kind'])
        d = self.P.byid.get(m.get('referencedMemberDecl'))
        out = []
        for s, o in self.ev(m['inner'][0], st):
            if s.exc:
                out.append((s, None))
                continue
            if d is not None and d.get('kind') in ('CXXMethodDecl', 'CXXConversionDecl', 'CXXDestructorDecl'):
                if d['kind'] == 'CXXConversionDecl' and isinstance(self.rv(s, o), Closure):
                    out.append((s, self.rv(s, o)))   # lambda turned into a function pointer
                    continue
                out += self.lib_member_call(s, e, m, d, o)
            else:
                out += self.std_member_call(s, e, m, o)
        return out

    def lib_member_call(self, s, e, m, d, o):
        bt = ctype(m['inner'][0])
        if not isinstance(o, (Obj,)):
            if m.get('isArrow') or not isinstance(o, LV):
                v = self.rv(s, o)
                if z3.is_expr(v) and v.sort() == z3.IntSort():
                    o = self.pointee(s, v, Ty(bt.name, bt.args, False, max(0, bt.ptr - 1)), e)
                elif isinstance(v, Obj):
                    o = v
                elif z3.is_expr(v):
                    o = self.temp(s, v, bt.bare())
            else:
                v = self.rv(s, o)
                if isinstance(v, Obj):
                    o = v
        fn = self.resolve(d, o, m)
        out = []
        for s2, vs in self.evs(self.arg_exprs(e['inner'][1:], fn), s):
            if s2.exc:
                out.append((s2, None))
                continue
            out += self.call(s2, fn, o, vs, e)
        return out

    def resolve(self, d, o, m=None):
        """Definition a call runs: the override of the object's class when virtual."""
        fn = d
        if isinstance(o, Obj):
            cls = o.cls
            own = d.get('_rec')
            if own is not None and own.get('_name') == cls and self.body(d) is not None:
                return d
            while cls:
                rec = self.record(cls) if cls in self.known_records() else None
                if rec is None:
                    break
                for c in rec.get('inner', []):
                    if c.get('kind') == d['kind'] and c.get('name') == d.get('name') and self.nparam(c) == self.nparam(d):
                        if self.body(c) is not None or c.get('pure') or self.contract_of(c) is not None:
                            if self.compatible(c, d):
                                return c
                bs = self.bases(cls)
                cls = bs[0] if bs else None
        if self.body(fn) is None:
            for q in self.P.fn.get(fn.get('_qual', ''), []):
                if self.nparam(q) == self.nparam(fn) and q.get('type', {}).get('qualType') == fn.get('type', {}).get('qualType'):
                    return q
        return fn

    def known_records(self):
        if not hasattr(self, '_kr'):
            self._kr = {r.get('_name') for r in self.P.records.values()}
        return self._kr

    def nparam(self, fn):
        return len(self.params(fn))

    def compatible(self, a, b):
        return [ctype(p).key() for p in self.params(a)] == [ctype(p).key() for p in self.params(b)]

    def e_CallExpr(self, e, st):
        f = e['inner'][0]
        while f['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            f = f['inner'][0]
        if f['kind'] == 'DeclRefExpr' and f['referencedDecl']['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            r = f['referencedDecl']
            d = self.P.byid.get(r['id'])
            if d is not None:
                d = self.resolve(d, None)
                out = []
                this = st.frame.this if d['kind'] == 'CXXMethodDecl' and d.get('storageClass') != 'static' else None
                for s, vs in self.evs(self.arg_exprs(e['inner'][1:], d), st):
                    out += [(s, None)] if s.exc else self.call(s, d, this, vs, e)
                return out
            return self.std_call(st, e, f, r)
        # call through a value (lambda, function object)
        out = []
        for s, vs in self.evs([e['inner'][0]] + e['inner'][1:], st):
            if s.exc:
                out.append((s, None))
                continue
            out += self.apply_value(s, self.rv(s, vs[0]), vs[1:], e)
        return out

    def apply_value(self, st, f, args, node):
        """Calls a closure, function object or function."""
        if isinstance(f, PyFn):
            return [(st, f.fn(self, st, [self.rv(st, a) for a in args]))]
        if isinstance(f, Closure):
            n = f.node
            if n['kind'] == 'LambdaExpr':
                rec = n['inner'][0]
                cands = []
                for c in rec.get('inner', []):
                    if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()':
                        cands.append(c)
                    if c.get('kind') == 'FunctionTemplateDecl' and c.get('name') == 'operator()':
                        cands += [x for x in c['inner'] if x.get('kind') == 'CXXMethodDecl' and
                                  any(y.get('kind') == 'TemplateArgument' for y in x.get('inner', []))]
                if len(cands) > 1:
                    cands = self.pick_by_args(st, cands, args)
                return self.inline(st, cands[0], f.this, args, node, closure=f)
            d = self.P.byid.get(n['id'])
            if d is not None:
                return self.call(st, self.resolve(d, None), None, args, node)
        if isinstance(f, Obj):
            for c in self.record(f.cls).get('inner', []):
                if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()':
                    return self.call(st, c, f, args, node)
        self.unsupported(node, 'call of a value ' + str(type(f)))

    def pick_by_args(self, st, cands, args):
        def score(c):
            n = 0
            for p, a in zip(self.params(c), args):
                t = ctype(p)
                v = self.rv(st, a)
                if isinstance(v, Iter):
                    n += ('reverse_iterator' in p['type'].get('qualType', '') or 'reverse_iterator' in p['type'].get('desugaredQualType', '')) == v.rev
                elif z3.is_expr(v):
                    try:
                        n += sort_of(t) == v.sort()
                    except Unsupported:
                        pass
            return n
        return sorted(cands, key=score, reverse=True)

    def e_CXXOperatorCallExpr(self, e, st):
        f = e['inner'][0]
        while f['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            f = f['inner'][0]
        r = f.get('referencedDecl', {})
        op = r.get('name', '')
        d = self.P.byid.get(r.get('id'))
        args = e['inner'][1:]
        if op == 'operator=' and not (d is not None and self.body(d) is not None and not d.get('isImplicit') and d.get('explicitlyDefaulted') is None):
            out = []
            for s, vs in self.evs([args[1], args[0]], st):
                out += [(s, None)] if s.exc else self.std_assign(s, e, vs[1], vs[0], args)
            return out
        if d is not None and r.get('kind') == 'CXXMethodDecl':
            out = []
            isl = ctype(args[0]).name.startswith('(lambda')
            for s, vs in self.evs(args, st):
                if s.exc:
                    out.append((s, None))
                    continue
                o = vs[0]
                if isinstance(o, LV):
                    ov = self.rv(s, o)
                    if isinstance(ov, (Obj, Closure)):
                        o = ov
                if isinstance(o, Closure):
                    out += self.inline(s, d, o.this, vs[1:], e, closure=o)
                    continue
                fn = self.resolve(d, o)
                out += self.call(s, fn, o, vs[1:], e)
            return out
        if d is not None:
            out = []
            for s, vs in self.evs(args, st):
                out += [(s, None)] if s.exc else self.call(s, d, None, vs, e)
            return out
        out = []
        for s, vs in self.evs(args, st):
            out += [(s, None)] if s.exc else self.std_operator(s, e, op, vs, args)
        return out

    # ------------------------------------------------------- construction
    def e_CXXConstructExpr(self, e, st):
        return self.construct(e, st)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXInheritedCtorInitExpr(self, e, st):
        self.unsupported(e)

    def construct(self, e, st, into=None):
        ty = ctype(e)
        if e['kind'] not in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            while e['kind'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr'):
                e = e['inner'][0]
            ty = ctype(e)
        args = e.get('inner', [])
        if ty.name.startswith('(lambda') or ty.name == 'function':
            if not args:
                return [(st, VOID)]
            return [(s, self.rv(s, v) if not s.exc else None) for s, v in self.ev(args[0], st)]
        if ty.name in self.known_records():
            return self.construct_lib(e, st, ty, args, into)
        out = []
        for s, vs in self.evs([a for a in args if a['kind'] != 'CXXDefaultArgExpr'], st):
            out += [(s, None)] if s.exc else self.std_construct(s, e, ty, vs, [a for a in args if a['kind'] != 'CXXDefaultArgExpr'])
        return out

    def find_ctor(self, cls, ctype_s, nargs):
        rec = self.record(cls)
        cands = []
        for c in rec.get('inner', []):
            if c.get('kind') == 'CXXConstructorDecl':
                cands.append(c)
            if c.get('kind') == 'FunctionTemplateDecl':
                cands += [x for x in c['inner'] if x.get('kind') == 'CXXConstructorDecl']
        if ctype_s is not None:
            for c in cands:
                if c['type']['qualType'] == ctype_s:
                    return c
        c2 = [c for c in cands if self.nparam(c) == nargs and self.body(c) is not None]
        if c2:
            return c2[0]
        c2 = [c for c in cands if self.body(c) is not None and self.nparam(c) >= nargs]
        return c2[0] if c2 else None

    def construct_lib(self, e, st, ty, args, into):
        cls = ty.name
        ct = self.find_ctor(cls, (e.get('ctorType') or {}).get('qualType'), len(args))
        isval = cls in T.VALUE_CLASSES
        if len(args) == 1 and ctype(args[0]).name == cls and (ct is None or self.body(ct) is None or ct.get('isImplicit') or ct.get('explicitlyDefaulted')):
            # copy or move
            out = []
            for s, v in self.ev(args[0], st):
                if s.exc:
                    out.append((s, None))
                elif isval or cls not in self.classes:
                    out.append((s, self.rv(s, v)))
                else:
                    out.append((s, self.copy_object(s, v, cls)))
            return out
        out = []
        for s, vs in self.evs(self.arg_exprs(args, ct), st):
            if s.exc:
                out.append((s, None))
                continue
            out += self.construct_args(s, cls, ct, vs, e, into)
        return out

    def construct_args(self, s, cls, ct, vs, node, into=None):
        """Creates an object of a library class from evaluated constructor arguments."""
        if cls in T.VALUE_CLASSES:
            return self.construct_value(s, cls, ct, vs, node)
        if into is None and ct is not None and len(vs) == 1 and ct.get('explicitlyDefaulted') and isinstance(vs[0], Obj):
            return [(s, self.copy_object(s, vs[0], cls))]
        if into is None:
            ref = self.alloc(s)
            s.dyn[ref.sexpr()] = cls
            obj = Obj(ref, cls)
        else:
            obj = into
        if ct is None or (self.body(ct) is None):
            if vs:
                self.unsupported(node, 'constructor of ' + cls)
            return [(s, obj)]
        c = self.contract_of(ct)
        if c is not None:
            self.used_contracts.add(c.name)
            return [(x, obj if not x.exc else None) for x, _ in c.apply(self, s, ct, obj, vs, node)]
        return [(x, obj if not x.exc else None) for x, _ in self.inline(s, ct, obj, vs, node)]

    def construct_value(self, s, cls, ct, vs, node):
        """Value class: run the constructor on a scratch object, then pack its fields."""
        if ct is None or self.body(ct) is None:
            return [(s, self.default(Ty(cls, self.record_args(cls))))]
        ref = self.alloc(s)
        obj = Obj(ref, cls)
        out = []
        c = self.contract_of(ct)
        if c is not None:
            self.used_contracts.add(c.name)
        for x, _ in self.inline(s, ct, obj, vs, node) if c is None else c.apply(self, s, ct, obj, vs, node):
            if x.exc:
                out.append((x, None))
                continue
            srt = sort_of(Ty(cls, self.record_args(cls)))
            vals = [self.read(x, self.field(x, obj, f)) for f, _ in T.RECORD_FIELDS[cls]]
            out.append((x, mk(srt, *vals)))
        return out

    def record_args(self, cls):
        return T.RECORD_ARGS.get(cls, [])

    def alloc(self, st):
        r = fresh('new', z3.IntSort())
        # a new object differs from every reference that existed before
        st.assume(r >= st.ghost['_limit'])
        st.ghost['_limit'] = r + 1
        return r

    def copy_object(self, s, v, cls):
        self_obj = v if isinstance(v, Obj) else self.rv(s, v)
        ref = self.alloc(s)
        s.dyn[ref.sexpr()] = cls
        o = Obj(ref, cls)
        for c in self.all_fields(cls):
            src = self.field_lv(s, self_obj, c)
            self.write(s, self.field_lv(s, o, c), self.read(s, src))
        return o

    def all_fields(self, cls):
        out = []
        for b in self.bases(cls):
            if b in self.known_records():
                out += self.all_fields(b)
        out += [c for c in self.record(cls).get('inner', []) if c.get('kind') == 'FieldDecl']
        return out


# ------------------------------------------------------------ tree helpers
_hq = {}


def has_quant(e):
    k = e.get_id()
    r = _hq.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    if z3.is_quantifier(e):
        v = True
    else:
        v = any(has_quant(c) for c in e.children())
    _hq[k] = (e, v)
    return v


def consts_of(e):
    out, todo, seen = [], [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and '!' in x.decl().name():
            out.append(x)
        todo += x.children()
    return out


def const_int(n):
    if n.get('kind') == 'IntegerLiteral':
        return int(n['value'])
    if n.get('kind') == 'ConstantExpr' and 'value' in n:
        return int(n['value'])
    for c in n.get('inner', []) or []:
        v = const_int(c)
        if v is not None:
            return v
    return None


class LoopCtx:
    """What an invariant may talk about."""

    def __init__(self, ex, st, entry, head, node, inc):
        self.ex, self.st, self.at_entry, self.head, self.node, self.inc = ex, st, entry, head, node, inc

    # locals ---------------------------------------------------------------
    def lv(self, name, ty=None, nth=0, st=None):
        st = st or self.st
        for f in reversed(st.frames):
            for nm, t, did in reversed(f.decls):
                if nm == name:
                    return f.env[did]
        if ty is not None:
            ms = []
            for f in st.frames:
                for nm, t, did in f.decls:
                    if t.key() == parse(ty).key() and not (nm or '').startswith('__'):
                        ms.append(f.env[did])
            if nth < len(ms):
                return ms[nth]
        raise Unsupported('the contract names a local %s that is not there' % name)

    def v(self, name, ty=None, nth=0):
        return self.ex.rv(self.st, self.lv(name, ty, nth))

    def e(self, name, ty=None, nth=0):
        """value at loop entry"""
        return self.ex.rv(self.at_entry, self.lv(name, ty, nth, self.at_entry))

    def h(self, name, ty=None, nth=0):
        """value at the start of this iteration"""
        return self.ex.rv(self.head, self.lv(name, ty, nth, self.head))

    def pos(self, name):
        """position of a local iterator"""
        return self.v(name).pos

    def arg(self, i, st=None):
        return self.ex.cur.arg_value(self.ex, st or self.st, i)

    def old(self, i):
        return self.ex.cur.arg_value(self.ex, self.ex.cur.pre, i)

    a, o = arg, old
    caller = False

    @property
    def pre(self):
        return self.ex.cur.pre

    @property
    def this(self):
        return self.ex.cur.this

    def obj(self, ref, cls):
        return Obj(ref, cls)

    def in_state(self, st, name, obj=None, cls=None):
        return self.ex.read(st, self.ex.field(st, obj if obj is not None else self.this, name, cls))

    def f(self, name, obj=None, cls=None):
        return self.in_state(self.st, name, obj, cls)

    def ef(self, name, obj=None, cls=None):
        return self.in_state(self.at_entry, name, obj, cls)

    def of(self, name, obj=None, cls=None):
        return self.in_state(self.pre, name, obj, cls)

    def heap(self, key, ty):
        return self.ex.heap_arr(self.st, key, parse(ty))

    def outer(self, n=0, st=None):
        """iterator or counter of the n-th enclosing loop (0: the nearest)"""
        stack = self.ex.loopstack
        node, inc, depth = stack[-2 - n] if stack and stack[-1][0] is self.node else stack[-1 - n]
        d = LoopCtx(self.ex, st or self.st, self.at_entry, self.head, node, inc)
        return d.counter_value()

    @property
    def k(self):
        """position of the loop counter: iterator position or integer variable"""
        return self._counter(self.st)

    @property
    def k0(self):
        return self._counter(self.at_entry)

    @property
    def kh(self):
        return self._counter(self.head)

    def _counter_decl(self):
        n = self.inc
        todo = [n] if n else []
        if not todo and self.node['kind'] == 'WhileStmt':
            return None
        while todo:
            x = todo.pop(0)
            if x.get('kind') == 'DeclRefExpr' and x['referencedDecl']['kind'] in ('VarDecl',):
                return x['referencedDecl']['id']
            todo = x.get('inner', []) + todo
        return None

    def counter_value(self, st=None):
        st = st or self.st
        d = self._counter_decl()
        for f in reversed(st.frames):
            if d in f.env:
                return self.ex.rv(st, f.env[d])
        raise Unsupported('loop without a counter')

    def _counter(self, st):
        v = self.counter_value(st)
        return v.pos if isinstance(v, Iter) else v
