"""Logical models of the part of the standard library that CoMMA uses.

These are the trusted contracts of the tool: containers, iterators and
algorithms get their documented meaning (ISO C++17), with bounds, emptiness
and presence preconditions turned into obligations."""
import sys
import z3
from . import types as T
from .types import Ty, parse, sort_of, get, upd, mk, sel, Unsupported
from .exec import (Executor, LV, Obj, Iter, Enum, Closure, Inserter, InitList, MapElem, TupleRefs, Void, VOID, Handle,
                   PY, IntV, TRUE, FALSE, fresh, fresh_fn, ctype, real, is_num, _sqrt, rmul, consts_of, _fresh)

LOWEST = -z3.RealVal(int(sys.float_info.max))
_cnt = {}
_sum = {}


def fam(v):
    if z3.is_expr(v) and T.is_dt(v):
        return v.sort().name().split('_')[0]
    return None


def has_ite(x, seen=None):
    seen = set() if seen is None else seen
    if x.get_id() in seen or not z3.is_app(x):
        return False
    seen.add(x.get_id())
    return x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_NOT, z3.Z3_OP_OR, z3.Z3_OP_AND) or any(has_ite(c, seen) for c in x.children())


def cnt_fn(ks):
    """cnt(P, a, lo, hi): number of i in [lo,hi) with P[a[i]]"""
    k = ks.name()
    if k not in _cnt:
        _cnt[k] = z3.Function('cnt_' + k, z3.ArraySort(ks, z3.BoolSort()), z3.ArraySort(z3.IntSort(), ks),
                              z3.IntSort(), z3.IntSort(), z3.IntSort())
    return _cnt[k]


def union_fn(s):
    return z3.Function('union_' + T.san(s.sexpr()), s, s, s)


def union_card(s):
    return z3.Function('union_card_' + T.san(s.sexpr()), s, z3.IntSort(), s, z3.IntSort(), z3.IntSort())


def sum_fn(s):
    k = s.name()
    if k not in _sum:
        _sum[k] = z3.Function('sum_' + k, z3.ArraySort(z3.IntSort(), s), z3.IntSort(), z3.IntSort(), s)
    return _sum[k]


def cnt_axioms(ks):
    f = cnt_fn(ks)
    P = z3.Const('P', z3.ArraySort(ks, z3.BoolSort()))
    a = z3.Const('a', z3.ArraySort(z3.IntSort(), ks))
    lo, hi, i = z3.Ints('lo hi i')
    return [z3.ForAll([P, a, lo, hi], z3.Implies(hi <= lo, f(P, a, lo, hi) == 0), patterns=[f(P, a, lo, hi)]),
            z3.ForAll([P, a, lo, hi],
                      z3.Implies(lo < hi, f(P, a, lo, hi) == f(P, a, lo, hi - 1) + z3.If(z3.Select(P, z3.Select(a, hi - 1)), 1, 0)),
                      patterns=[f(P, a, lo, hi)])]


class Std(Executor):
    # ----------------------------------------------------------- helpers
    def length(self, v):
        f = fam(v)
        if f == 'Vec':
            return get(v, 'len')
        if f == 'Deq':
            h, l = get(v, 'hi'), get(v, 'lo')
            if is_num(l) and l.as_long() == 0:
                return h
            return h - l
        if f in ('Set', 'Map'):
            return get(v, 'card')
        raise Unsupported('length of ' + str(v.sort()))

    def index(self, v, pos):
        """array index of the element at a position"""
        if fam(v) == 'Deq':
            l = get(v, 'lo')
            if is_num(l) and l.as_long() == 0:
                return pos
            return l + pos
        return pos

    def elem_ty(self, ty):
        return ty.args[0] if ty is not None and ty.args else None

    def base_obj(self, s, m, o):
        """The object a member call runs on (resolving -> through pointers)."""
        b = m['inner'][0]
        x = b
        while x['kind'] in ('ParenExpr', 'ImplicitCastExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups'):
            x = x['inner'][0]
        if m.get('isArrow'):
            if x['kind'] == 'CXXOperatorCallExpr':
                f = x['inner'][0]
                while f['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
                    f = f['inner'][0]
                if f.get('referencedDecl', {}).get('name') == 'operator->':
                    return o
            if isinstance(o, Obj):
                return o
            v = self.rv(s, o)
            if z3.is_expr(v) and v.sort() == z3.IntSort():
                bt = ctype(b)
                return self.pointee(s, v, Ty(bt.name, bt.args, False, max(0, bt.ptr - 1)), m)
            return v if not isinstance(o, LV) or isinstance(v, PY) else o
        return o

    def obj_ty(self, m):
        b = m['inner'][0]
        t = ctype(b)
        if m.get('isArrow') and t.ptr:
            t = Ty(t.name, t.args, False, t.ptr - 1)
        return t

    def member(self, s, e, v):
        v = self.base_obj(s, e, v)
        e2 = e
        if e.get('isArrow'):
            e2 = dict(e)
            e2['isArrow'] = False
        return super().member(s, e2, v)

    def lib_member_call(self, s, e, m, d, o):
        o = self.base_obj(s, m, o)
        if m.get('isArrow'):
            m = dict(m)
            m['isArrow'] = False
        return super().lib_member_call(s, e, m, d, o)

    def wf_once(self, st, v, ty=None):
        if not z3.is_expr(v) or not T.is_dt(v):
            return
        done = st.ghost.get('_wf', frozenset())
        k = v.sexpr() if v.num_args() == 0 else str(v.get_id())
        if k in done:
            return
        st.ghost['_wf'] = done | {k}
        self._keep = getattr(self, '_keep', [])
        self._keep.append(v)
        for f in self.wf(v, ty):
            st.assume(f)

    def read(self, st, lv):
        v = super().read(st, lv)
        if z3.is_expr(v) and T.is_dt(v) and not (z3.is_app(v) and v.num_args() and v.decl().name().startswith('mk_')):
            self.wf_once(st, v, lv.ty if isinstance(lv, LV) else None)
        return v

    # --------------------------------------------------------- iterators
    def enum_of(self, st, cont, ty):
        """Enumeration of an associative container's current value."""
        c = self.rv(st, cont)
        mem, n = get(c, 'mem'), get(c, 'card')
        self._enums = getattr(self, '_enums', {})
        ordered = ty is not None and ty.name in ('set', 'map')
        cmpname = ty.args[1 if ty.name == 'set' else 2].key() if ordered and len(ty.args) > (1 if ty.name == 'set' else 2) else None
        key = (mem.get_id(), n.get_id(), ordered, cmpname)
        if key not in self._enums:
            ks = mem.sort().domain()
            E = fresh_fn('E', z3.IntSort(), ks)
            P = fresh_fn('P', ks, z3.IntSort())
            M = fresh('M', mem.sort())
            i, j = z3.Ints('i j')
            x = z3.Const('x', ks)
            fs = [M == mem, n >= 0,
                  z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(z3.Select(M, E(i)), P(E(i)) == i)), patterns=[E(i)]),
                  z3.ForAll([x], z3.Implies(z3.Select(M, x), z3.And(0 <= P(x), P(x) < n, E(P(x)) == x)), patterns=[z3.Select(M, x)]),
                  z3.ForAll([x], z3.Implies(z3.Select(M, x), z3.And(0 <= P(x), P(x) < n, E(P(x)) == x)), patterns=[P(x)])]
            if ordered:
                lt = self.key_less(st, ty, E(i), E(j))
                if lt is not None:
                    fs.append(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), lt), patterns=[z3.MultiPattern(E(i), E(j))]))
            self._enums[key] = (Enum(E, P, n, M), fs, mem, n)
        en, fs, _, _ = self._enums[key]
        done = st.ghost.get('_en', frozenset())
        if key not in done:
            st.ghost['_en'] = done | {key}
            for f in fs:
                st.assume(f)
        return en

    def key_less(self, st, ty, a, b):
        na = 1 if ty.name == 'set' else 2
        if len(ty.args) > na:
            cmp = ty.args[na]
            if cmp.name in ('less', 'greater'):
                return self.lt(a, b) if cmp.name == 'less' else self.lt(b, a)
            if cmp.name in self.known_records():
                for c in self.record(cmp.name).get('inner', []):
                    if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()':
                        s2 = st.copy()
                        self.quiet += 1
                        try:
                            r = self.inline(s2, c, Obj(IntV(0), cmp.name), [self.temp(s2, a), self.temp(s2, b)], c)
                        finally:
                            self.quiet -= 1
                        if len(r) == 1:
                            return self.as_bool(self.rv(r[0][0], r[0][1]))
            return None
        if a.sort() == z3.IntSort() or a.sort() == z3.RealSort():
            return a < b
        if fam(a) == 'Pair':
            return self.lt(a, b)
        return None

    def lt(self, a, b):
        if fam(a) in ('Pair', 'Tup'):
            r = None
            fs = T.fields_of(a.sort())
            r = self.lt(get(a, fs[-1]), get(b, fs[-1]))
            for f in reversed(fs[:-1]):
                x, y = get(a, f), get(b, f)
                r = z3.Or(self.lt(x, y), z3.And(x == y, r))
            return r
        if z3.is_bool(a):
            return z3.And(z3.Not(a), b)
        return a < b

    def begin(self, st, cont, ty, rev=False):
        c = self.rv(st, cont)
        if fam(c) in ('Vec', 'Deq'):
            return Iter(cont, 'seq', IntV(0), rev=rev, ty=ty)
        if self.keyed(ty) and not rev:
            return self.next_key(st, cont, c, None, ty)
        en = self.enum_of(st, cont, ty)
        return Iter(cont, 'assoc', IntV(0), en, rev=rev, ty=ty, ismap=fam(c) == 'Map')

    def keyed(self, ty):
        """iterators of ordered containers as keys: for loops that change the container"""
        return self.cur is not None and ty is not None and ty.name in self.cur.keyed and (len(ty.args) < 3 or ty.args[2].name == 'less') and ty.name == 'map'

    def next_key(self, st, cont, c, k, ty):
        """iterator to the smallest key above k (the smallest of all for None)"""
        m = get(c, 'mem')
        nk, e = fresh('key', m.sort().domain()), fresh('end', z3.BoolSort())
        y = z3.Int('y')
        above = (lambda z: z > k) if k is not None else (lambda z: TRUE)
        st.assume(z3.Implies(z3.Not(e), z3.And(sel(m, nk), above(nk))))
        M = fresh('M', m.sort())
        st.assume(M == m)
        st.assume(z3.ForAll([y], z3.Implies(z3.And(z3.Select(M, y), above(y)), z3.And(z3.Not(e), nk <= y)), patterns=[z3.Select(M, y)]))
        return Iter(cont, 'assoc', None, None, nk, e, False, ty, True)

    def end(self, st, cont, ty, rev=False):
        c = self.rv(st, cont)
        if fam(c) in ('Vec', 'Deq'):
            return Iter(cont, 'seq', self.length(c), rev=rev, ty=ty)
        return Iter(cont, 'assoc', None, None, None, TRUE, rev=rev, ty=ty, ismap=fam(c) == 'Map')

    def iter_key(self, st, it, node):
        """key of a dereferenceable associative iterator"""
        c = self.rv(st, it.cont)
        if it.enum is not None:
            self.oblige(st, z3.And(0 <= it.pos, it.pos < it.enum.n), 'deref', node, 'iterator before end')
            p = it.enum.n - 1 - it.pos if it.rev else it.pos
            k = it.enum.at(p)
        else:
            if it.key is None:
                self.oblige(st, FALSE, 'deref', node, 'end iterator')
                raise Unsupported('dereference of end()')
            self.oblige(st, z3.Not(it.end) if it.end is not None else TRUE, 'deref', node, 'iterator before end')
            k = it.key
        m = get(c, 'mem')
        if not (it.enum is not None and m.eq(it.enum.src)):
            self.oblige(st, sel(m, k), 'deref', node, 'iterator to an element that is still there')
        t = it.ty.args[0] if it.ty is not None and it.ty.args else None
        for f in self.wf(k, t):
            st.assume(f)
        return k

    def iter_deref(self, st, it, node):
        c = self.rv(st, it.cont)
        if it.kind == 'seq':
            n = self.length(c)
            self.oblige(st, z3.And(0 <= it.pos, it.pos < n), 'deref', node, 'iterator in range')
            p = n - 1 - it.pos if it.rev else it.pos
            if not isinstance(it.cont, LV):
                it.cont = self.temp(st, c)
            return it.cont.sub(('idx', self.index(c, p)), ty=self.elem_ty(it.ty))
        k = self.iter_key(st, it, node)
        if it.ismap:
            return MapElem(k, it.cont.sub(('val', k), ty=it.ty.args[1] if it.ty is not None else None))
        return k

    def iter_eq(self, st, a, b, node):
        if a.kind == 'seq':
            return a.pos == b.pos
        if a.enum is None and b.enum is not None:
            a, b = b, a
        if a.enum is not None:
            if b.enum is not None:
                if a.enum is b.enum:
                    return a.pos == b.pos
                raise Unsupported('comparison of iterators of different enumerations')
            if b.key is None:
                # against end(): the container must not have grown since begin()
                self.enum_stable(st, a, node)
                return a.pos == a.enum.n
            e = b.end if b.end is not None else FALSE
            return z3.If(e, a.pos == a.enum.n, z3.And(a.pos < a.enum.n, a.enum.at(a.pos) == b.key))
        ea = a.end if a.end is not None else FALSE
        eb = b.end if b.end is not None else FALSE
        if a.key is None or b.key is None:
            return z3.simplify(z3.And(ea, eb)) if a.key is None and b.key is None else (ea if b.key is None else eb)
        return z3.Or(z3.And(ea, eb), z3.And(z3.Not(ea), z3.Not(eb), a.key == b.key))

    def enum_stable(self, st, it, node):
        m = get(self.rv(st, it.cont), 'mem')
        en = self._enums
        for (E, fs, mem, n) in en.values():
            if E is it.enum:
                if m.eq(mem):
                    return
        x = z3.Const('x', m.sort().domain())
        self.oblige(st, z3.ForAll([x], z3.Implies(z3.Select(m, x), z3.Select(it.enum.src, x))), 'iterator', node,
                    'container does not grow while it is iterated')

    def iter_add(self, st, it, n, node):
        if it.kind == 'seq':
            return it.at(z3.simplify(it.pos + n) if is_num(it.pos) and is_num(n) else it.pos + n)
        if it.enum is None:
            raise Unsupported('advance of a key iterator')
        return it.at(z3.simplify(it.pos + n) if is_num(it.pos) and is_num(n) else it.pos + n)

    # ---------------------------------------------------------- operators
    def std_operator(self, s, e, op, vs, args):
        o = op[8:]
        a = vs[0]
        av = self.rv(s, a)
        if o == '<<' and (isinstance(av, str)):
            return [(s, 'stream')]
        if o == '[]':
            return self.subscript(s, e, a, av, self.rv(s, vs[1]), ctype(args[0]))
        if o == '()':
            return self.apply_value(s, av, vs[1:], e)
        if o in ('*', '->') and len(vs) == 1:
            if isinstance(av, Iter):
                return [(s, self.iter_deref(s, av, e))]
            if fam(av) == 'Opt':
                self.oblige(s, get(av, 'has'), 'deref', e, 'optional has a value')
                if isinstance(a, LV):
                    return [(s, a.sub(('opt',), ty=self.elem_ty(ctype(args[0]))))]
                return [(s, get(av, 'val'))]
            if isinstance(av, Obj):
                return [(s, av)]
            if z3.is_expr(av) and av.sort() == z3.IntSort():
                t = ctype(args[0])
                return [(s, self.pointee(s, av, t.args[0] if t.args else ctype(e), e))]
            self.unsupported(e, 'operator%s on %s' % (o, type(av)))
        if o in ('++', '--') and isinstance(av, Iter):
            d = 1 if o == '++' else -1
            c = self.rv(s, av.cont)
            if av.kind == 'seq':
                if d == 1:
                    self.oblige(s, av.pos < self.length(c), 'iterator', e, 'increment stays in range')
                else:
                    self.oblige(s, av.pos > 0, 'iterator', e, 'decrement stays in range')
                nv = self.iter_add(s, av, IntV(d), e)
            elif av.enum is not None:
                if d == 1:
                    self.oblige(s, av.pos < av.enum.n, 'iterator', e, 'increment stays in range')
                else:
                    self.oblige(s, av.pos > 0, 'iterator', e, 'decrement stays in range')
                nv = self.iter_add(s, av, IntV(d), e)
            else:
                # positioned by key: continue in the enumeration of the current value
                self.oblige(s, z3.And(z3.Not(av.end) if av.end is not None else TRUE, sel(get(c, 'mem'), av.key)), 'iterator', e, 'increment stays in range')
                if d == 1 and self.keyed(av.ty) and not av.rev:
                    self.write(s, a, self.next_key(s, av.cont, c, av.key, av.ty))
                    return [(s, av if len(vs) > 1 else a)]
                en = self.enum_of(s, av.cont, av.ty)
                nv = Iter(av.cont, 'assoc', en.pos(av.key) + d, en, None, None, av.rev, av.ty, av.ismap)
            self.write(s, a, nv)
            post = len(vs) > 1
            return [(s, av if post else a)]
        bv = self.rv(s, vs[1]) if len(vs) > 1 else None
        if isinstance(av, Iter) and isinstance(bv, Iter):
            if o in ('==', '!='):
                r = self.iter_eq(s, av, bv, e)
                return [(s, r if o == '==' else z3.Not(r))]
            if o in ('<', '>', '<=', '>=') and av.kind == 'seq':
                return [(s, {'<': av.pos < bv.pos, '>': av.pos > bv.pos, '<=': av.pos <= bv.pos, '>=': av.pos >= bv.pos}[o])]
            if o == '-' and av.kind == 'seq':
                return [(s, av.pos - bv.pos)]
        if isinstance(av, Iter) and o in ('+', '-', '+=', '-='):
            n = bv if o[0] == '+' else -bv
            r = self.iter_add(s, av, n, e)
            if av.kind == 'seq':
                c = self.rv(s, av.cont)
                self.oblige(s, z3.And(0 <= r.pos, r.pos <= self.length(c)), 'iterator', e, 'arithmetic stays in range')
            if o.endswith('='):
                self.write(s, a, r)
                return [(s, a)]
            return [(s, r)]
        if o in ('==', '!='):
            r = None
            if isinstance(av, Obj) or isinstance(bv, Obj):
                x = av.ref if isinstance(av, Obj) else av
                y = bv.ref if isinstance(bv, Obj) else bv
                r = x == y
            elif bv == 'nullopt' or av == 'nullopt':
                x = av if bv == 'nullopt' else bv
                r = z3.Not(get(x, 'has'))
            elif fam(av) == 'Opt' or fam(bv) == 'Opt':
                (h, x), (g, y) = self.opt_parts(av), self.opt_parts(bv)
                r = z3.And(h == g, z3.Implies(h, x == y))
            elif fam(av) in ('Pair', 'Tup', 'Rec'):
                r = av == bv
            elif fam(av) in ('Vec', 'Deq'):
                i = z3.Int('i')
                n = self.length(av)
                r = z3.And(n == self.length(bv),
                           z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), sel(get(av, 'arr'), self.index(av, i)) == sel(get(bv, 'arr'), self.index(bv, i)))))
            elif fam(av) == 'Set':
                r = get(av, 'mem') == get(bv, 'mem')
            elif z3.is_expr(av) and z3.is_expr(bv):
                r = av == bv
            else:
                self.unsupported(e, op)
            return [(s, r if o == '==' else z3.Not(r))]
        if o in ('<', '>', '<=', '>=') and (fam(av) == 'Opt' or fam(bv) == 'Opt'):
            # an empty optional is below every value
            lt = lambda x, y: z3.And(y[0], z3.Or(z3.Not(x[0]), x[1] < y[1]))
            x, y = self.opt_parts(av), self.opt_parts(bv)
            return [(s, {'<': lt(x, y), '>': lt(y, x), '<=': z3.Not(lt(y, x)), '>=': z3.Not(lt(x, y))}[o])]
        if o in ('<', '>', '<=', '>=') and fam(av) in ('Pair', 'Tup'):
            r = {'<': lambda: self.lt(av, bv), '>': lambda: self.lt(bv, av), '<=': lambda: z3.Not(self.lt(bv, av)),
                 '>=': lambda: z3.Not(self.lt(av, bv))}[o]()
            return [(s, r)]
        if o in ('|=', '&=') and z3.is_bool(av):
            self.write(s, a, z3.Or(av, bv) if o == '|=' else z3.And(av, bv))
            return [(s, a)]
        self.unsupported(e, '%s on %s' % (op, av.sort() if z3.is_expr(av) else type(av).__name__))

    def plain(self, s, x):
        """x without if-then-else inside (those cannot be part of patterns)"""
        if self.pure or not has_ite(x):
            return x
        c = fresh('ix', x.sort())
        s.assume(c == x)
        return c

    def subscript(self, s, e, a, av, i, ty):
        if z3.is_expr(i):
            i = self.plain(s, i)
        if isinstance(av, Iter):
            it = self.iter_add(s, av, i, e)
            return [(s, self.iter_deref(s, it, e))]
        f = fam(av)
        if f in ('Vec', 'Deq'):
            n = self.length(av)
            self.oblige(s, z3.And(0 <= i, i < n), 'bounds', e, 'subscript in range')
            if not isinstance(a, LV):
                a = self.temp(s, av)
            return [(s, a.sub(('idx', self.index(av, i)), ty=self.elem_ty(ty)))]
        if f == 'Map':
            m, c, vv = get(av, 'mem'), get(av, 'card'), get(av, 'val')
            has = sel(m, i)
            vs = vv.sort().range()
            nv = mk(av.sort(), z3.Store(m, i, TRUE), self.plain(s, z3.If(has, c, c + 1)),
                    z3.Store(vv, i, self.plain(s, z3.If(has, sel(vv, i), self.default_of(vs)))))
            self.write(s, a, nv)
            return [(s, a.sub(('val', i), ty=ty.args[1] if len(ty.args) > 1 else None))]
        self.unsupported(e, 'subscript of ' + str(f))

    def std_assign(self, s, e, lhs, rhs, args):
        ty = ctype(args[0])
        v = self.rv(s, rhs)
        if isinstance(lhs, Void):
            return [(s, lhs)]
        cur = self.rv(s, lhs)
        if isinstance(cur, TupleRefs):
            if isinstance(v, TupleRefs):
                vals = [self.rv(s, p) for p in v.parts]
            elif isinstance(v, MapElem):
                vals = [self.rv(s, v.key), self.rv(s, v.val)]
            else:
                vals = [get(v, f) for f in T.fields_of(v.sort())]
            for p, x in zip(cur.parts, vals):
                if isinstance(p, LV):
                    self.write(s, p, x)
            return [(s, lhs)]
        if isinstance(cur, Obj) and isinstance(lhs, LV) and isinstance(v, Obj):
            self.write(s, lhs, self.copy_object(s, v, v.cls))
            return [(s, lhs)]
        if isinstance(v, Obj) and isinstance(lhs, Obj):
            for c in self.all_fields(lhs.cls):
                self.write(s, self.field_lv(s, lhs, c), self.read(s, self.field_lv(s, v, c)))
            return [(s, lhs)]
        self.write(s, lhs, self.convert(s, v, ty))
        return [(s, lhs)]

    def convert(self, s, v, ty):
        """Implicit conversion of a value to a standard type."""
        if isinstance(v, InitList):
            return self.from_init(s, v, ty)
        if ty.name == 'optional' and ty.ptr == 0:
            if isinstance(v, str) and v == 'nullopt':
                return self.default(ty)
            if isinstance(v, Iter):
                return v
            if fam(v) != 'Opt' or v.sort() != sort_of(ty):
                inner = self.convert(s, v, ty.args[0])
                return mk(sort_of(ty), TRUE, inner)
            return v
        if isinstance(v, Obj) and T.is_ref_type(ty):
            return v.ref
        if isinstance(v, MapElem) and ty.name == 'pair':
            return mk(sort_of(ty), self.rv(s, v.key), self.rv(s, v.val))
        if ty.name == 'pair' and fam(v) == 'Pair' and v.sort() != sort_of(ty):
            return mk(sort_of(ty), get(v, 'first'), get(v, 'second'))
        if ty.name == 'double' and z3.is_expr(v) and z3.is_int(v):
            return real(v)
        return v

    def coerce(self, st, v, ty):
        if ty.ptr == 0 and (self.is_std_value(ty) or ty.name == 'double'):
            return self.convert(st, v, ty)
        if isinstance(v, Obj) and T.is_ref_type(ty):
            return v.ref
        return super().coerce(st, v, ty)

    # -------------------------------------------------------- construction
    def std_construct(self, s, e, ty, vs, args):
        vals = [self.rv(s, v) for v in vs]
        n = ty.name
        if n in ('__normal_iterator', '_Node_const_iterator', '_Node_iterator', '_Rb_tree_iterator', '_Rb_tree_const_iterator',
                 '_Deque_iterator', '_Local_iterator_base', 'reverse_iterator', 'insert_iterator', 'back_insert_iterator',
                 'iterator', 'const_iterator', '_Node_iterator_base', '_Bit_iterator', '_Bit_const_iterator', '_Node_handle',
                 'node_type', '_Bit_reference', 'reference_wrapper', 'initializer_list', 'basic_string', 'invalid_argument',
                 'runtime_error', 'logic_error', 'out_of_range', 'range_error', 'domain_error'):
            if not vals:
                return [(s, VOID)]
            v = vals[0]
            if n == 'reverse_iterator' and isinstance(v, Iter) and not v.rev:
                c = self.rv(s, v.cont)
                v = Iter(v.cont, v.kind, self.length(c) - v.pos, v.enum, None, None, True, v.ty, v.ismap)
            return [(s, v)]
        return [(s, self.make_std(s, e, ty, vals, args))]

    def make_std(self, s, e, ty, vals, args=None):
        n = ty.name
        if n == 'nullopt_t':
            return 'nullopt'
        if n in ('shared_ptr', 'unique_ptr'):
            if not vals:
                return IntV(0)
            v = vals[0]
            return v.ref if isinstance(v, Obj) else v
        srt = sort_of(ty)
        if not vals:
            return self.default(ty)
        if len(vals) == 1:
            v = vals[0]
            if isinstance(v, InitList) or isinstance(v, MapElem):
                return self.convert(s, v, ty)
            if z3.is_expr(v) and v.sort() == srt and not (n == 'vector' and srt == z3.IntSort()):
                return v
        if n == 'optional':
            return self.convert(s, vals[0], ty)
        if n in ('pair', 'tuple'):
            if len(vals) == 1:
                return self.convert(s, vals[0], ty)
            if len(vals) != len(ty.args):
                raise Unsupported('piecewise construction')
            if any(isinstance(v, (Iter, Closure)) for v in vals):
                return TupleRefs(list(vals))
            return mk(srt, *[self.convert(s, v, t) for v, t in zip(vals, ty.args)])
        if n in ('vector', 'deque'):
            if len(vals) == 2 and isinstance(vals[0], Iter):
                return self.range_to_seq(s, vals[0], vals[1], ty, e)
            if z3.is_expr(vals[0]) and vals[0].sort() == z3.IntSort():
                cnt = vals[0]
                x = self.convert(s, vals[1], ty.args[0]) if len(vals) > 1 else self.default(ty.args[0])
                a = z3.K(z3.IntSort(), x)
                return mk(srt, cnt, a) if n == 'vector' else mk(srt, IntV(0), cnt, a)
        if n == 'queue' and len(vals) == 1:
            return vals[0]
        if n in ('set', 'unordered_set'):
            if len(vals) >= 2 and isinstance(vals[0], Iter):
                return self.range_to_set(s, vals[0], vals[1], ty, e, self.default(ty))
            if z3.is_expr(vals[0]) and vals[0].sort() == z3.IntSort():
                return self.default(ty)
        if n in ('map', 'unordered_map') and z3.is_expr(vals[0]) and vals[0].sort() == z3.IntSort():
            return self.default(ty)
        raise Unsupported('construction of %s from %d values at %s' % (ty.key(), len(vals), self.loc(e)))

    def range_bounds(self, s, a, b):
        """(read function i -> element, count) of an iterator range"""
        c = self.rv(s, a.cont)
        if a.kind == 'seq':
            n = self.length(c)
            if a.rev:
                return (lambda i: sel(get(c, 'arr'), self.index(c, n - 1 - (a.pos + i)))), b.pos - a.pos
            z = is_num(a.pos) and a.pos.as_long() == 0
            return (lambda i: sel(get(c, 'arr'), self.index(c, i if z else a.pos + i))), (b.pos if z else b.pos - a.pos)
        if a.enum is None:
            en = self.enum_of(s, a.cont, a.ty)
            a = Iter(a.cont, 'assoc', en.pos(a.key) if a.key is not None else en.n, en, None, None, a.rev, a.ty, a.ismap)
        end = a.enum.n if b.enum is None else b.pos
        z = is_num(a.pos) and a.pos.as_long() == 0
        if a.ismap:
            def rd(i):
                k = a.enum.at(a.pos + i)
                return MapElem(k, sel(get(c, 'val'), k))
            return rd, end - a.pos
        return (lambda i: a.enum.at(i if z else a.pos + i)), (end if z else end - a.pos)

    def range_to_seq(self, s, a, b, ty, e):
        rd, n = self.range_bounds(s, a, b)
        if not (a.kind == 'seq'):
            pass
        self.oblige(s, n >= 0, 'iterator', e, 'range is ordered')
        srt = sort_of(ty)
        c = self.rv(s, a.cont)
        if a.kind == 'seq' and not a.rev and is_num(a.pos) and a.pos.as_long() == 0 and fam(c) == 'Vec' and srt == c.sort():
            return mk(srt, n, get(c, 'arr'))
        es = sort_of(ty.args[0])
        arr = fresh('rng', z3.ArraySort(z3.IntSort(), es))
        i = z3.Int('i')
        x = rd(i)
        if isinstance(x, MapElem):
            x = mk(es, x.key, x.val)
        s.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(arr, i) == x), patterns=[z3.Select(arr, i)]))
        return mk(srt, n, arr) if ty.name == 'vector' else mk(srt, IntV(0), n, arr)

    def mem_of_range(self, s, a, b):
        """lambda x: x occurs in the range"""
        c = self.rv(s, a.cont)
        if a.kind == 'assoc' and not a.ismap and b.enum is None and b.key is None and a.enum is not None and is_num(a.pos):
            m = get(c, 'mem')
            return lambda x: sel(m, x)
        if a.kind == 'assoc' and a.ismap and b.enum is None and b.key is None and is_num(a.pos):
            m = get(c, 'mem')
            return lambda x: z3.And(sel(m, get(x, 'first')), sel(get(c, 'val'), get(x, 'first')) == get(x, 'second'))
        rd, n = self.range_bounds(s, a, b)
        ks = rd(IntV(0)).sort()
        # position witness instead of an existential
        w = fresh_fn('at', ks, z3.IntSort())
        return lambda x: z3.And(0 <= w(x), w(x) < n, rd(w(x)) == x), (rd, n, w)

    def range_to_set(self, s, a, b, ty, e, base):
        r = fresh('set', base.sort())
        ks = get(base, 'mem').sort().domain()
        x = z3.Const('x', ks)
        i = z3.Int('i')
        m0, m = get(base, 'mem'), get(r, 'mem')
        inr = self.mem_of_range(s, a, b)
        empty = m0.decl().kind() == z3.Z3_OP_CONST_ARRAY
        if isinstance(inr, tuple):
            inr, (rd, n, w) = inr
            s.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(m, rd(i))), patterns=[rd(i)]))
            s.assume(z3.ForAll([x], z3.Implies(z3.Select(m, x), z3.Or(sel(m0, x), inr(x))), patterns=[z3.Select(m, x)]))
            if not empty:
                s.assume(z3.ForAll([x], z3.Implies(z3.Select(m0, x), z3.Select(m, x)), patterns=[z3.Select(m0, x)]))
            s.assume(get(r, 'card') <= get(base, 'card') + z3.If(n > 0, n, 0))
        else:
            if empty:
                s.assume(m == get(self.rv(s, a.cont), 'mem'))
                s.assume(get(r, 'card') == get(self.rv(s, a.cont), 'card'))
            else:
                o = self.rv(s, a.cont)
                m1 = get(o, 'mem')
                if not a.ismap:
                    # the union as a function of both sets
                    s.assume(m == union_fn(m0.sort())(m0, m1))
                    s.assume(get(r, 'card') == union_card(m0.sort())(m0, get(base, 'card'), m1, get(o, 'card')))
                    y = fresh('y', ks)
                    s.assume(z3.Or(get(r, 'card') == get(base, 'card') + get(o, 'card'), z3.And(sel(m0, y), sel(m1, y))))
                s.assume(z3.ForAll([x], z3.Select(m, x) == z3.Or(sel(m0, x), inr(x)), patterns=[z3.Select(m, x)]))
                s.assume(get(r, 'card') <= get(base, 'card') + get(o, 'card'))
        s.assume(get(r, 'card') >= get(base, 'card'))
        self.wf_once(s, r, ty)
        return r

    def mkelem(self, s, ty, vals, e):
        if ty is None:
            return vals[0]
        if self.is_scalar(ty):
            v = self.rv(s, vals[0]) if vals else self.default(ty)
            if isinstance(v, Obj):
                return v.ref
            if ty.name == 'double':
                return real(v)
            if ty.name == 'bool' and not z3.is_bool(v):
                return self.as_bool(v)
            return v
        if ty.name in T.VALUE_CLASSES:
            if len(vals) == 1 and z3.is_expr(vals[0]) and vals[0].sort() == sort_of(ty):
                return vals[0]
            ct = self.find_ctor(ty.name, None, len(vals))
            r = self.construct_value(s, ty.name, ct, vals, e)
            if len(r) != 1:
                raise Unsupported('forking constructor')
            return r[0][1]
        return self.make_std(s, e, ty, [self.rv(s, v) for v in vals])

    # -------------------------------------------------------- member calls
    def std_member_call(self, s, e, m, o):
        name = m.get('name', '')
        o = self.base_obj(s, m, o)
        ty = self.obj_ty(m)
        if isinstance(o, LV) and o.ty is not None and o.ty.args and not ty.args:
            ty = o.ty
        if ty.name in ('shared_ptr', 'unique_ptr', '__shared_ptr', '__weak_ptr') or (m.get('isArrow') and False):
            pass
        args = [a for a in e['inner'][1:] if a['kind'] != 'CXXDefaultArgExpr']
        out = []
        for s2, vs in self.evs(args, s):
            if s2.exc:
                out.append((s2, None))
                continue
            r = self.std_method(s2, e, name, o, ty, vs, args)
            out += r if isinstance(r, list) else [(s2, r)]
        return out

    def std_method(self, s, e, name, o, ty, vs, args):
        v = self.rv(s, o)
        if isinstance(v, Iter):
            if name == 'operator->' or name == 'operator*':
                return self.iter_deref(s, v, e)
            if name == 'base' and v.rev:
                c = self.rv(s, v.cont)
                return Iter(v.cont, v.kind, self.length(c) - v.pos, v.enum, None, None, False, v.ty, v.ismap)
        if isinstance(v, Handle):
            if name == 'empty':
                return v.empty
            if name == 'key':
                return HandleKey(o)
        if name == 'operator bool':
            if isinstance(v, Obj):
                return TRUE
            if fam(v) == 'Opt':
                return get(v, 'has')
            if z3.is_expr(v) and z3.is_int(v):
                return v != 0
            return self.as_bool(v)
        if isinstance(v, str):
            return 'str'
        if isinstance(v, (Obj,)):
            if name == 'get':
                return v.ref
            self.unsupported(e, 'method %s' % name)
        f = fam(v)
        if z3.is_expr(v) and v.sort() == z3.IntSort():      # smart pointer
            if name == 'get':
                return v
            if name == 'reset':
                self.write(s, o, IntV(0) if not vs else self.rv(s, vs[0]))
                return VOID
            if name == 'operator->':
                return self.pointee(s, v, ty.args[0], e)
        h = getattr(self, 'm_%s_%s' % (f, name), None)
        if h is None:
            h = getattr(self, 'm_any_%s' % name, None)
        if h is None:
            self.unsupported(e, 'method %s of %s' % (name, f or ty.key()))
        return h(s, e, o, v, ty, vs)

    # any container
    def m_any_size(self, s, e, o, v, ty, vs):
        return self.length(v)

    def m_any_empty(self, s, e, o, v, ty, vs):
        return self.length(v) == 0

    def m_any_clear(self, s, e, o, v, ty, vs):
        self.write(s, o, self.default_of(v.sort()))
        return VOID

    def m_any_reserve(self, s, e, o, v, ty, vs):
        return VOID

    m_any_shrink_to_fit = m_any_reserve

    def m_any_begin(self, s, e, o, v, ty, vs):
        o = o if isinstance(o, LV) else self.temp(s, v, ty)
        return self.begin(s, o, ty)

    m_any_cbegin = m_any_begin

    def m_any_end(self, s, e, o, v, ty, vs):
        o = o if isinstance(o, LV) else self.temp(s, v, ty)
        return self.end(s, o, ty)

    m_any_cend = m_any_end

    def m_any_rbegin(self, s, e, o, v, ty, vs):
        return self.begin(s, o, ty, True)

    m_any_crbegin = m_any_rbegin

    def m_any_rend(self, s, e, o, v, ty, vs):
        return self.end(s, o, ty, True)

    m_any_crend = m_any_rend

    def m_any_swap(self, s, e, o, v, ty, vs):
        w = self.rv(s, vs[0])
        self.write(s, o, w)
        self.write(s, vs[0], v)
        return VOID

    # sequences
    def seq_push(self, s, e, o, v, ty, vs):
        x = self.mkelem(s, self.elem_ty(ty), [self.rv(s, y) for y in vs], e)
        if isinstance(x, PY):
            raise Unsupported('container of ' + type(x).__name__)
        i = self.index(v, self.length(v)) if fam(v) == 'Vec' else get(v, 'hi')
        n1 = z3.simplify(i + 1) if is_num(i) else i + 1
        if fam(v) == 'Vec':
            self.write(s, o, mk(v.sort(), n1, self.stored(s, get(v, 'arr'), i, x)))
        else:
            self.write(s, o, mk(v.sort(), get(v, 'lo'), n1, self.stored(s, get(v, 'arr'), i, x)))
        return o.sub(('idx', i), ty=self.elem_ty(ty))

    m_Vec_push_back = m_Vec_emplace_back = m_Deq_push_back = m_Deq_emplace_back = m_Deq_push = m_Deq_emplace = seq_push

    def m_Deq_push_front(self, s, e, o, v, ty, vs):
        x = self.mkelem(s, self.elem_ty(ty), [self.rv(s, y) for y in vs], e)
        i = get(v, 'lo') - 1
        i = z3.simplify(i) if is_num(get(v, 'lo')) else i
        self.write(s, o, mk(v.sort(), i, get(v, 'hi'), self.stored(s, get(v, 'arr'), i, x)))
        return o.sub(('idx', i), ty=self.elem_ty(ty))

    m_Deq_emplace_front = m_Deq_push_front

    def m_Deq_pop_front(self, s, e, o, v, ty, vs):
        self.oblige(s, self.length(v) > 0, 'bounds', e, 'pop from a non-empty queue')
        lo = get(v, 'lo')
        self.write(s, o, upd(v, lo=z3.simplify(lo + 1) if is_num(lo) else lo + 1))
        return VOID

    m_Deq_pop = m_Deq_pop_front

    def m_Deq_pop_back(self, s, e, o, v, ty, vs):
        self.oblige(s, self.length(v) > 0, 'bounds', e, 'pop from a non-empty sequence')
        self.write(s, o, upd(v, hi=get(v, 'hi') - 1))
        return VOID

    def m_Vec_pop_back(self, s, e, o, v, ty, vs):
        self.oblige(s, self.length(v) > 0, 'bounds', e, 'pop from a non-empty sequence')
        self.write(s, o, upd(v, len=get(v, 'len') - 1))
        return VOID

    def m_any_front(self, s, e, o, v, ty, vs):
        self.oblige(s, self.length(v) > 0, 'bounds', e, 'front of a non-empty sequence')
        return o.sub(('idx', self.index(v, IntV(0))), ty=self.elem_ty(ty)) if isinstance(o, LV) else sel(get(v, 'arr'), self.index(v, IntV(0)))

    def m_any_back(self, s, e, o, v, ty, vs):
        self.oblige(s, self.length(v) > 0, 'bounds', e, 'back of a non-empty sequence')
        n = self.length(v)
        i = self.index(v, z3.simplify(n - 1) if is_num(n) else n - 1) if fam(v) == 'Vec' else get(v, 'hi') - 1
        return o.sub(('idx', i), ty=self.elem_ty(ty)) if isinstance(o, LV) else sel(get(v, 'arr'), i)

    def m_any_at(self, s, e, o, v, ty, vs):
        i = self.rv(s, vs[0])
        if fam(v) == 'Map':
            self.oblige(s, sel(get(v, 'mem'), i), 'bounds', e, 'key is in the map')
            return o.sub(('val', i), ty=ty.args[1] if len(ty.args) > 1 else None)
        self.oblige(s, z3.And(0 <= i, i < self.length(v)), 'bounds', e, 'at() in range')
        return o.sub(('idx', self.index(v, i)), ty=self.elem_ty(ty))

    def m_Vec_resize(self, s, e, o, v, ty, vs):
        n = self.rv(s, vs[0])
        es = get(v, 'arr').sort().range()
        x = self.convert(s, self.rv(s, vs[1]), ty.args[0]) if len(vs) > 1 else self.default_of(es)
        old = get(v, 'len')
        if is_num(old) and old.as_long() == 0:
            self.write(s, o, mk(v.sort(), n, z3.K(z3.IntSort(), x)))
            return VOID
        a = fresh('rsz', get(v, 'arr').sort())
        i = z3.Int('i')
        s.assume(z3.ForAll([i], z3.Select(a, i) == z3.If(z3.And(0 <= i, i < old), sel(get(v, 'arr'), i), x), patterns=[z3.Select(a, i)]))
        self.write(s, o, mk(v.sort(), n, a))
        return VOID

    def m_Vec_assign(self, s, e, o, v, ty, vs):
        a, b = self.rv(s, vs[0]), self.rv(s, vs[1])
        if isinstance(a, Iter):
            self.write(s, o, self.range_to_seq(s, a, b, ty, e))
        else:
            self.write(s, o, mk(v.sort(), a, z3.K(z3.IntSort(), self.convert(s, b, ty.args[0]))))
        return VOID

    def m_Deq_insert(self, s, e, o, v, ty, vs):
        """insert(pos, x) / insert(pos, first, last) into a sequence"""
        pos = self.rv(s, vs[0])
        n = self.length(v)
        es = get(v, 'arr').sort().range()
        i = z3.Int('i')
        if len(vs) == 2:
            x = self.mkelem(s, self.elem_ty(ty), [self.rv(s, vs[1])], e)
            rd, k = (lambda j: x), IntV(1)
        else:
            a, b = self.rv(s, vs[1]), self.rv(s, vs[2])
            rd0, k = self.range_bounds(s, a, b)

            def rd(j):
                y = rd0(j)
                return mk(es, y.key, y.val) if isinstance(y, MapElem) else y
            self.oblige(s, k >= 0, 'iterator', e, 'range is ordered')
        p = pos.pos
        self.oblige(s, z3.And(0 <= p, p <= n), 'iterator', e, 'insert position in range')
        arr = fresh('ins', get(v, 'arr').sort())
        base = get(v, 'lo') if fam(v) == 'Deq' else IntV(0)
        zb = is_num(base) and base.as_long() == 0
        off = (lambda j: j) if zb else (lambda j: base + j)
        if len(vs) == 2:
            mid = x
        else:
            mid = rd(i - (p if zb else base + p))
        lo, hi = (p, p + k) if zb else (base + p, base + p + k)
        s.assume(z3.ForAll([i], z3.Select(arr, i) == z3.If(i < lo, sel(get(v, 'arr'), i), z3.If(i < hi, mid, sel(get(v, 'arr'), i - k))),
                           patterns=[z3.Select(arr, i)]))
        if fam(v) == 'Deq':
            self.write(s, o, mk(v.sort(), base, get(v, 'hi') + k, arr))
        else:
            self.write(s, o, mk(v.sort(), n + k, arr))
        return pos.at(p)

    m_Vec_insert = m_Deq_insert

    def opt_parts(self, v):
        return (get(v, 'has'), get(v, 'val')) if fam(v) == 'Opt' else (TRUE, v)

    def m_Deq_erase(self, s, e, o, v, ty, vs):
        pos = self.rv(s, vs[0])
        n = self.length(v)
        p = pos.pos
        if len(vs) == 2:
            q = self.rv(s, vs[1]).pos
            self.oblige(s, z3.And(0 <= p, p <= q, q <= n), 'iterator', e, 'erase range')
            k = q - p
        else:
            self.oblige(s, z3.And(0 <= p, p < n), 'iterator', e, 'erase position in range')
            k = IntV(1)
        arr = fresh('ers', get(v, 'arr').sort())
        i = z3.Int('i')
        base = get(v, 'lo') if fam(v) == 'Deq' else IntV(0)
        a0 = get(v, 'arr')
        s.assume(z3.ForAll([i], z3.Implies(i < base + p, z3.Select(arr, i) == z3.Select(a0, i)), patterns=[z3.Select(arr, i)]))
        s.assume(z3.ForAll([i], z3.Implies(i >= base + p, z3.Select(arr, i) == z3.Select(a0, i + k)), patterns=[z3.Select(arr, i)]))
        # the same fact read from the old sequence
        s.assume(z3.ForAll([i], z3.Implies(i < base + p, z3.Select(arr, i) == z3.Select(a0, i)), patterns=[z3.Select(a0, i)]))
        s.assume(z3.ForAll([i], z3.Implies(i >= base + p + k, z3.Select(arr, i - k) == z3.Select(a0, i)), patterns=[z3.Select(a0, i)]))
        if fam(v) == 'Deq':
            self.write(s, o, mk(v.sort(), base, get(v, 'hi') - k, arr))
        else:
            self.write(s, o, mk(v.sort(), n - k, arr))
        return pos.at(p)

    m_Vec_erase = m_Deq_erase

    # sets
    def m_Set_find(self, s, e, o, v, ty, vs):
        x = self.rv(s, vs[0])
        o = o if isinstance(o, LV) else self.temp(s, v, ty)
        return Iter(o, 'assoc', None, None, x, z3.Not(sel(get(v, 'mem'), x)), False, ty, fam(v) == 'Map')

    m_Map_find = m_Set_find

    def m_Set_count(self, s, e, o, v, ty, vs):
        x = self.rv(s, vs[0])
        return z3.If(sel(get(v, 'mem'), x), IntV(1), IntV(0))

    m_Map_count = m_Set_count

    def m_Set_insert(self, s, e, o, v, ty, vs):
        vals = [self.rv(s, x) for x in vs]
        if len(vals) == 2 and isinstance(vals[0], Iter) and isinstance(vals[1], Iter):
            self.write(s, o, self.range_to_set(s, vals[0], vals[1], ty, e, v))
            return VOID
        if len(vals) == 1 and isinstance(vals[0], InitList):
            for x in vals[0].vals:
                v = self.set_insert(v, self.convert(s, x, ty.args[0]))
            self.write(s, o, v)
            return VOID
        if len(vals) == 2 and isinstance(vals[0], Iter):
            vals = vals[1:]
        x = self.mkelem(s, self.elem_ty(ty), vals, e)
        was = sel(get(v, 'mem'), x)
        nv = self.set_insert(v, x)
        self.write(s, o, upd(nv, card=self.plain(s, get(nv, 'card'))))
        return TupleRefs([Iter(o, 'assoc', None, None, x, FALSE, False, ty, False), z3.Not(was)])

    m_Set_emplace = m_Set_insert

    def m_Set_emplace_hint(self, s, e, o, v, ty, vs):
        return self.m_Set_insert(s, e, o, v, ty, vs[1:])

    def m_Set_erase(self, s, e, o, v, ty, vs):
        x = self.rv(s, vs[0])
        if len(vs) == 2:
            raise Unsupported('range erase on a set')
        if isinstance(x, Iter):
            k = self.iter_key(s, x, e)
            ret = None
            if x.enum is not None:
                ret = x.at(x.pos + 1)
            else:
                en = self.enum_of(s, o, ty)
                ret = Iter(x.cont, 'assoc', en.pos(k) + 1, en, None, None, False, ty, x.ismap)
            self.write(s, o, upd(v, mem=z3.Store(get(v, 'mem'), k, FALSE), card=get(v, 'card') - 1))
            return ret
        m, c = get(v, 'mem'), get(v, 'card')
        has = sel(m, x)
        self.write(s, o, upd(v, mem=z3.Store(m, x, FALSE), card=self.plain(s, z3.If(has, c - 1, c))))
        return z3.If(has, IntV(1), IntV(0))

    m_Map_erase = m_Set_erase

    # maps
    def map_put(self, s, o, v, k, x, overwrite, ty):
        m, c, vv = get(v, 'mem'), get(v, 'card'), get(v, 'val')
        has = sel(m, k)
        if overwrite or z3.is_false(z3.simplify(has)):
            nv = x
        else:
            nv = self.plain(s, z3.If(has, sel(vv, k), x))
        self.write(s, o, mk(v.sort(), z3.Store(m, k, TRUE), self.plain(s, z3.If(has, c, c + 1)), self.stored(s, vv, k, nv)))
        return TupleRefs([Iter(o, 'assoc', None, None, k, FALSE, False, ty, True), z3.Not(has)])

    def m_Map_emplace(self, s, e, o, v, ty, vs):
        vals = [self.rv(s, x) for x in vs]
        if len(vals) == 1 and isinstance(vals[0], Handle):
            return self.map_insert_node(s, o, v, vals[0], ty)
        if len(vals) == 2 and isinstance(vals[0], Iter) and isinstance(vals[1], Iter):
            raise Unsupported('range insert in a map')
        if len(vals) == 1:
            p = vals[0]
            if isinstance(p, InitList):
                k, x = p.vals
            elif isinstance(p, MapElem):
                k, x = p.key, self.rv(s, p.val)
            else:
                k, x = get(p, 'first'), get(p, 'second')
        else:
            k, x = vals[0], None
        if x is None:
            x = self.mkelem(s, ty.args[1], vals[1:], e)
        x = x.ref if isinstance(x, Obj) else x
        if isinstance(x, InitList):
            x = self.from_init(s, x, ty.args[1])
        return self.map_put(s, o, v, k, x, False, ty)

    m_Map_try_emplace = m_Map_insert = m_Map_emplace

    def m_Map_insert_or_assign(self, s, e, o, v, ty, vs):
        k = self.rv(s, vs[0])
        x = self.mkelem(s, ty.args[1], [self.rv(s, y) for y in vs[1:]], e)
        return self.map_put(s, o, v, k, x, True, ty)

    def m_Map_extract(self, s, e, o, v, ty, vs):
        k = self.rv(s, vs[0])
        if isinstance(k, Iter):
            k = self.iter_key(s, k, e)
        m, c = get(v, 'mem'), get(v, 'card')
        has = sel(m, k)
        h = Handle(k, sel(get(v, 'val'), k), z3.Not(has))
        self.write(s, o, upd(v, mem=z3.Store(m, k, FALSE), card=self.plain(s, z3.If(has, c - 1, c))))
        return h

    def map_insert_node(self, s, o, v, h, ty):
        res = []
        m, c, vv = get(v, 'mem'), get(v, 'card'), get(v, 'val')
        ins = z3.And(z3.Not(h.empty), z3.Not(sel(m, h.key)))
        self.write(s, o, mk(v.sort(), z3.Store(m, h.key, self.plain(s, z3.Or(sel(m, h.key), z3.Not(h.empty)))),
                            self.plain(s, z3.If(ins, c + 1, c)), z3.Store(vv, h.key, self.plain(s, z3.If(ins, h.val, sel(vv, h.key))))))
        return VOID

    # optional
    def m_Opt_has_value(self, s, e, o, v, ty, vs):
        return get(v, 'has')

    def m_Opt_value(self, s, e, o, v, ty, vs):
        self.oblige(s, get(v, 'has'), 'bounds', e, 'optional has a value')
        return o.sub(('opt',), ty=self.elem_ty(ty)) if isinstance(o, LV) else get(v, 'val')

    def m_Opt_value_or(self, s, e, o, v, ty, vs):
        return z3.If(get(v, 'has'), get(v, 'val'), self.convert(s, self.rv(s, vs[0]), ty.args[0]))

    def m_Opt_reset(self, s, e, o, v, ty, vs):
        self.write(s, o, upd(v, has=FALSE))
        return VOID

    def m_Opt_emplace(self, s, e, o, v, ty, vs):
        self.write(s, o, mk(v.sort(), TRUE, self.mkelem(s, ty.args[0], [self.rv(s, x) for x in vs], e)))
        return o.sub(('opt',), ty=ty.args[0])

    # ---------------------------------------------------------- free calls
    def std_call(self, st, e, f, r):
        name = r.get('name', '')
        args = [a for a in e['inner'][1:] if a['kind'] != 'CXXDefaultArgExpr']
        if name == '__assert_fail':
            self.oblige(st, FALSE, 'assert', e, 'assertion of the source')
            st.assume(FALSE, True)
            return [(st, VOID)]
        h = getattr(self, 'c_' + name, None)
        if h is None:
            self.unsupported(e, 'function std::' + name)
        out = []
        for s, vs in self.evs(args, st):
            if s.exc:
                out.append((s, None))
                continue
            r2 = h(s, e, vs, args)
            out += r2 if isinstance(r2, list) else [(s, r2)]
        return out

    def c_move(self, s, e, vs, args):
        return vs[0]

    c_forward = c_as_const = c_ref = c_cref = c_addressof = c_move

    def c_max(self, s, e, vs, args):
        a, b = self.rv(s, vs[0]), self.rv(s, vs[1])
        if len(vs) == 3:
            r = self.apply_value(s, self.rv(s, vs[2]), vs[:2], e)
            (s2, w), = r
            return [(s2, z3.If(self.as_bool(self.rv(s2, w)), b, a))]
        return z3.If(self.lt(a, b), b, a)

    def c_min(self, s, e, vs, args):
        a, b = self.rv(s, vs[0]), self.rv(s, vs[1])
        return z3.If(self.lt(b, a), b, a)

    def c_fabs(self, s, e, vs, args):
        a = real(self.rv(s, vs[0]))
        return z3.If(a < 0, -a, a)

    c_abs = c_fabs

    def c_sqrt(self, s, e, vs, args):
        a = real(self.rv(s, vs[0]))
        r = _sqrt(a)
        return r

    def c_cbrt(self, s, e, vs, args):
        return z3.Function('fcbrt', z3.RealSort(), z3.RealSort())(real(self.rv(s, vs[0])))

    def c_pow(self, s, e, vs, args):
        a, b = real(self.rv(s, vs[0])), real(self.rv(s, vs[1]))
        return z3.Function('fpow', z3.RealSort(), z3.RealSort(), z3.RealSort())(a, b)

    def limit(self, e, which):
        t = ctype(e)
        if t.name == 'double':
            return {'max': -LOWEST, 'lowest': LOWEST, 'min': z3.RealVal('1/%d' % 2 ** 1022)}[which]
        bits = 32 if t.name in ('int', 'unsigned int', 'unsigned') else 64
        if t.name in T.UNSIGNED:
            return {'max': IntV(2 ** bits - 1), 'lowest': IntV(0), 'min': IntV(0)}[which]
        return {'max': IntV(2 ** (bits - 1) - 1), 'lowest': IntV(-2 ** (bits - 1)), 'min': IntV(-2 ** (bits - 1))}[which]

    def c_lowest(self, s, e, vs, args):
        return self.limit(e, 'lowest')

    def c_make_pair(self, s, e, vs, args):
        ty = ctype(e)
        vals = [self.rv(s, v) for v in vs]
        if any(isinstance(v, (Iter, Closure)) for v in vals):
            return TupleRefs(vals)
        return mk(sort_of(ty), *[self.convert(s, v, t) for v, t in zip(vals, ty.args)])

    c_make_tuple = c_make_pair

    def c_tie(self, s, e, vs, args):
        return TupleRefs(list(vs))

    def c_make_optional(self, s, e, vs, args):
        return self.convert(s, self.rv(s, vs[0]), ctype(e))

    def c_get(self, s, e, vs, args):
        v = vs[0]
        ty = ctype(args[0])
        i = self.get_index(e)
        val = self.rv(s, v)
        if isinstance(val, TupleRefs):
            return v.sub(('fld', i)) if isinstance(v, LV) else val.parts[i]
        if isinstance(val, MapElem):
            return val.key if i == 0 else val.val
        fs = T.fields_of(val.sort())
        if isinstance(v, LV):
            return v.sub(('fld', fs[i]), ty=ty.args[i] if ty.args else None)
        return get(val, fs[i])

    def get_index(self, e):
        f = e['inner'][0]
        while f['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            f = f['inner'][0]
        fr = f.get('foundReferencedDecl') or {}
        rd = f.get('referencedDecl', {})
        # the index is recovered from the result type
        q = rd.get('type', {}).get('qualType', '')
        import re
        m = re.match(r'.*?__tuple_element_t<(\d+)', q) or re.search(r'tuple_element<(\d+)', q)
        if m:
            return int(m.group(1))
        t = ctype(e)
        at = ctype(e['inner'][1])
        hits = [i for i, a in enumerate(at.args) if a.key() == t.key()]
        if len(hits) == 1:
            return hits[0]
        src = self.source_text(e)
        m = re.search(r'get<\s*(\d+)', src or '')
        if m:
            return int(m.group(1))
        raise Unsupported('index of std::get')

    def source_text(self, e):
        b, en = e.get('range', {}).get('begin', {}), e.get('range', {}).get('end', {})
        f = e.get('_file')
        if not f or 'offset' not in b:
            return None
        self._src = getattr(self, '_src', {})
        if f not in self._src:
            self._src[f] = open(f, errors='replace').read()
        return self._src[f][b['offset']:en['offset'] + en.get('tokLen', 0)]

    def c_make_shared(self, s, e, vs, args):
        t = ctype(e).args[0]
        if t.name in self.known_records():
            ct = self.find_ctor(t.name, None, len(vs))
            vv = list(vs)
            if ct is not None and self.nparam(ct) > len(vs):
                for p in self.params(ct)[len(vs):]:
                    init = [c for c in p.get('inner', []) if 'valueCategory' in c]
                    if not init:
                        raise Unsupported('default constructor argument')
                    (s, v), = self.ev(init[0], s)
                    vv.append(v)
            out = []
            for x, o in self.construct_args(s, t.name, ct, vv, e):
                out.append((x, o.ref if not x.exc else None))
            return out
        v = self.make_std(s, e, t, [self.rv(s, x) for x in vs])
        ref = self.alloc(s)
        self.write(s, LV(('h', '*' + t.bare().key(), ref, t.bare()), (), t.bare()), v)
        return ref

    c_make_unique = c_make_shared

    def c_dynamic_pointer_cast(self, s, e, vs, args):
        p = self.rv(s, vs[0])
        t = ctype(e).args[0]
        p = p.ref if isinstance(p, Obj) else p
        d = s.dyn.get(p.sexpr())
        if d is None:
            raise Unsupported('dynamic cast of an unknown object')
        return p if self.derives(d, t.name) else IntV(0)

    c_static_pointer_cast = c_move

    def derives(self, a, b):
        if a == b:
            return True
        return any(self.derives(x, b) for x in self.bases(a) if x in self.known_records())

    # algorithms
    def c_distance(self, s, e, vs, args):
        a, b = self.rv(s, vs[0]), self.rv(s, vs[1])
        if a.kind == 'seq':
            return b.pos - a.pos
        rd, n = self.range_bounds(s, a, b)
        return n

    def c_next(self, s, e, vs, args):
        a = self.rv(s, vs[0])
        n = self.rv(s, vs[1]) if len(vs) > 1 else IntV(1)
        if a.kind == 'assoc' and a.enum is None:
            en = self.enum_of(s, a.cont, a.ty)
            return Iter(a.cont, 'assoc', en.pos(a.key) + n, en, None, None, a.rev, a.ty, a.ismap)
        r = self.iter_add(s, a, n, e)
        c = self.rv(s, a.cont)
        self.oblige(s, z3.And(0 <= r.pos, r.pos <= (self.length(c) if a.kind == 'seq' else a.enum.n)), 'iterator', e, 'next() stays in range')
        return r

    def c_prev(self, s, e, vs, args):
        a = self.rv(s, vs[0])
        n = self.rv(s, vs[1]) if len(vs) > 1 else IntV(1)
        if a.kind == 'assoc' and a.enum is None:
            en = self.enum_of(s, a.cont, a.ty)
            p = en.n if a.key is None else en.pos(a.key)
            return Iter(a.cont, 'assoc', p - n, en, None, None, a.rev, a.ty, a.ismap)
        r = self.iter_add(s, a, -n, e)
        self.oblige(s, r.pos >= 0, 'iterator', e, 'prev() stays in range')
        return r

    def c_back_inserter(self, s, e, vs, args):
        return Inserter(vs[0])

    def c_inserter(self, s, e, vs, args):
        return Inserter(vs[0], self.rv(s, vs[1]))

    def c_begin(self, s, e, vs, args):
        return self.begin(s, vs[0], ctype(args[0]))

    def c_end(self, s, e, vs, args):
        return self.end(s, vs[0], ctype(args[0]))

    c_cbegin, c_cend = c_begin, c_end

    def pure_apply(self, s, f, mkargs, bound, hyp, e):
        """Value of a side-effect-free function on a bound variable.

        The body's obligations are emitted for an arbitrary value that
        satisfies hyp."""
        s2 = s.copy()
        s2.assume(hyp)
        mark = next(_fresh)
        base = s2.copy()
        vals = mkargs(s2)
        self.pure += 1
        try:
            rs = self.apply_value(s2, f, vals, e)
        finally:
            self.pure -= 1
        if any(x.exc for x, _ in rs):
            raise Unsupported('throwing predicate')
        if len(rs) > 1:
            rs = self.merge_pure(base, rs)
        if len(rs) != 1:
            raise Unsupported('predicate with side effects')
        x, w = rs[0]
        w = self.rv(x, w)
        if not all(x.vars.get(k) is v for k, v in s.vars.items()):
            raise Unsupported('predicate with side effects')
        for k, v in s.heap.items():
            if not x.heap[k].eq(v):
                raise Unsupported('predicate with side effects')
        for k, v in x.heap.items():
            s.heap.setdefault(k, v)
        for c in consts_of(w):
            nm = c.decl().name()
            if '!' in nm and int(nm.rsplit('!', 1)[1]) > mark and not any(c.eq(b) for b in bound):
                raise Unsupported('predicate result depends on a loop')
        return w

    def c_copy_if(self, s, e, vs, args):
        a, b, out, f = [self.rv(s, v) for v in vs]
        c = self.rv(s, a.cont)
        if not isinstance(out, Inserter):
            raise Unsupported('copy_if into an iterator')
        tgt = self.rv(s, out.cont)
        if fam(tgt) == 'Set' and a.kind == 'assoc' and not a.ismap:
            ks = get(c, 'mem').sort().domain()
            x = fresh('cp', ks)
            w = self.as_bool(self.pure_apply(s, f, lambda s2: [self.temp(s2, x, a.ty.args[0] if a.ty else None)], [x], sel(get(c, 'mem'), x), e))
            r = fresh('set', tgt.sort())
            y = z3.Const('x', ks)
            w = z3.substitute(w, (x, y))
            m = get(r, 'mem')
            s.assume(z3.ForAll([y], z3.Select(m, y) == z3.Or(sel(get(tgt, 'mem'), y), z3.And(sel(get(c, 'mem'), y), w)), patterns=[z3.Select(m, y)]))
            self.wf_once(s, r)
            s.assume(get(r, 'card') <= get(c, 'card') + get(tgt, 'card'))
            self.write(s, out.cont, r)
            return out
        raise Unsupported('copy_if')

    def find_pos(self, s, a, b, test, e):
        """first position in the range with test(i), or the end"""
        rd, n = self.range_bounds(s, a, b)
        p = fresh('pos', z3.IntSort())
        i = z3.Int('i')
        s.assume(z3.And(0 <= p, p <= n))
        s.assume(n >= 0)
        s.assume(z3.Implies(p < n, test(rd(p))))
        el, base = rd(i), IntV(0)
        if z3.is_expr(el) and z3.is_select(el):
            # quantify over the index itself, so that every read of the sequence matches
            base = z3.simplify(el.arg(1) - i)
            el = sel(el.arg(0), i)
        s.assume(z3.ForAll([i], z3.Implies(z3.And(base <= i, i < base + p), z3.Not(test(el))), patterns=[el] if z3.is_expr(el) else []))
        z = is_num(a.pos) and a.pos.as_long() == 0
        return a.at(p if z else a.pos + p)

    def c_find(self, s, e, vs, args):
        a, b, x = [self.rv(s, v) for v in vs]
        rd, n = self.range_bounds(s, a, b)
        self.oblige(s, n >= 0, 'iterator', e, 'range is ordered')
        return self.find_pos(s, a, b, lambda y: y == x, e)

    def c_find_if(self, s, e, vs, args):
        a, b, f = [self.rv(s, v) for v in vs]
        rd, n = self.range_bounds(s, a, b)
        self.oblige(s, n >= 0, 'iterator', e, 'range is ordered')
        k = fresh('fi', z3.IntSort())
        el = rd(k)
        w = self.as_bool(self.pure_apply(s, f, lambda s2: [el if isinstance(el, MapElem) else self.temp(s2, el, self.elem_ty(a.ty))],
                                         [k], z3.And(0 <= k, k < n), e))
        p = fresh('pos', z3.IntSort())
        i = z3.Int('i')
        s.assume(z3.And(0 <= p, p <= n))
        s.assume(z3.Implies(p < n, z3.substitute(w, (k, p))))
        s.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < p), z3.Not(z3.substitute(w, (k, i)))),
                           patterns=[rd(i)] if z3.is_expr(rd(i)) and not z3.is_const(rd(i)) else []))
        z = is_num(a.pos) and a.pos.as_long() == 0
        return a.at(p if z else a.pos + p)

    def c_any_of(self, s, e, vs, args):
        it = self.c_find_if(s, e, vs, args)
        rd, n = self.range_bounds(s, self.rv(s, vs[0]), self.rv(s, vs[1]))
        a = self.rv(s, vs[0])
        return it.pos - a.pos < n

    def c_fill(self, s, e, vs, args):
        a, b, x = [self.rv(s, v) for v in vs]
        c = self.rv(s, a.cont)
        x = self.convert(s, x, a.ty.args[0]) if a.ty is not None and a.ty.args else x
        n = self.length(c)
        if is_num(a.pos) and a.pos.as_long() == 0 and b.pos.eq(n) and fam(c) == 'Vec':
            self.write(s, a.cont, upd(c, arr=z3.K(z3.IntSort(), x)))
            return VOID
        arr = fresh('fill', get(c, 'arr').sort())
        i = z3.Int('i')
        lo, hi = self.index(c, a.pos), self.index(c, b.pos)
        s.assume(z3.ForAll([i], z3.Select(arr, i) == z3.If(z3.And(lo <= i, i < hi), x, sel(get(c, 'arr'), i)), patterns=[z3.Select(arr, i)]))
        self.write(s, a.cont, upd(c, arr=arr))
        return VOID

    def extremum(self, s, e, vs, args, sign):
        a, b = self.rv(s, vs[0]), self.rv(s, vs[1])
        rd, n = self.range_bounds(s, a, b)
        self.oblige(s, n >= 0, 'iterator', e, 'range is ordered')
        p = fresh('ext', z3.IntSort())
        lo, hi = IntV(0), n
        absolute = a.kind == 'seq' and not a.rev and not is_num(a.pos)
        if absolute:   # positions of the container itself: they match the terms of the specification
            c = self.rv(s, a.cont)
            rd = lambda i: sel(get(c, 'arr'), self.index(c, i))
            lo, hi = a.pos, b.pos
        i = z3.Int('i')
        if len(vs) == 3:
            f = self.rv(s, vs[2])
            k1, k2 = fresh('k', z3.IntSort()), fresh('k', z3.IntSort())

            def wrap(s2, x):
                return x if isinstance(x, MapElem) else self.temp(s2, x, self.elem_ty(a.ty))
            w = self.as_bool(self.pure_apply(s, f, lambda s2: [wrap(s2, rd(k1)), wrap(s2, rd(k2))], [k1, k2],
                                             z3.And(lo <= k1, k1 < hi, lo <= k2, k2 < hi), e))
            less = lambda x, y: z3.substitute(w, (k1, x), (k2, y))
        else:
            less = lambda x, y: self.lt(rd(x), rd(y))
        pat = [rd(i)] if z3.is_expr(rd(i)) and not z3.is_const(rd(i)) else []
        if not z3.is_expr(rd(i)):
            pat = [rd(i).key]
        s.assume(z3.And(lo <= p, z3.Implies(n > 0, p < hi), z3.Implies(n <= 0, p == lo)))
        if sign > 0:   # max: first i with nothing greater
            s.assume(z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), z3.Not(less(p, i))), patterns=pat))
            s.assume(z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < p), less(i, p)), patterns=pat))
        else:
            s.assume(z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), z3.Not(less(i, p))), patterns=pat))
            s.assume(z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < p), less(p, i)), patterns=pat))
        if a.kind == 'assoc' and a.enum is None:
            raise Unsupported('extremum of a key range')
        z = is_num(a.pos) and a.pos.as_long() == 0
        return a.at(p if z or absolute else a.pos + p)

    def numeric_or(self, s, e, vs, args, which):
        if not vs:
            return self.limit(e, which)
        return None

    def c_max_element(self, s, e, vs, args):
        return self.extremum(s, e, vs, args, 1)

    def c_min_element(self, s, e, vs, args):
        return self.extremum(s, e, vs, args, -1)

    def c_count(self, s, e, vs, args):
        a, b, x = [self.rv(s, v) for v in vs]
        c = self.rv(s, a.cont)
        ks = get(c, 'arr').sort().range()
        P = z3.Store(z3.K(ks, FALSE), x, TRUE)
        return self.count_range(s, P, a, b, c, e)

    def count_range(self, s, P, a, b, c, e):
        if a.kind != 'seq' or a.rev:
            raise Unsupported('count over ' + a.kind)
        ks = get(c, 'arr').sort().range()
        lo, hi = self.index(c, a.pos), self.index(c, b.pos)
        self.oblige(s, lo <= hi, 'iterator', e, 'range is ordered')
        r = cnt_fn(ks)(P, get(c, 'arr'), lo, hi)
        s.assume(z3.And(0 <= r, r <= hi - lo))
        return r

    def c_count_if(self, s, e, vs, args):
        a, b, f = [self.rv(s, v) for v in vs]
        c = self.rv(s, a.cont)
        if a.kind == 'assoc':
            raise Unsupported('count_if over a set')
        ks = get(c, 'arr').sort().range()
        k = fresh('ci', z3.IntSort())
        rd, n = self.range_bounds(s, a, b)
        x = fresh('x', ks)
        hyp = z3.And(0 <= k, k < n, rd(k) == x)
        w = self.as_bool(self.pure_apply(s, f, lambda s2: [self.temp(s2, x, self.elem_ty(a.ty))], [x, k], hyp, e))
        if z3.is_app(w) and w.decl().kind() == z3.Z3_OP_SELECT and w.arg(1).eq(x):
            P = w.arg(0)
        else:
            ws = z3.simplify(w)
            if z3.is_app(ws) and ws.decl().kind() == z3.Z3_OP_SELECT and ws.arg(1).eq(x):
                P = ws.arg(0)
            else:
                P = fresh('P', z3.ArraySort(ks, z3.BoolSort()))
                y = z3.Const('y', ks)
                s.assume(z3.ForAll([y], z3.Select(P, y) == z3.substitute(w, (x, y)), patterns=[z3.Select(P, y)]))
        return self.count_range(s, P, a, b, c, e)

    def c_reduce(self, s, e, vs, args):
        a, b = self.rv(s, vs[0]), self.rv(s, vs[1])
        c = self.rv(s, a.cont)
        if len(vs) > 3 or a.kind != 'seq' or a.rev:
            raise Unsupported('reduce')
        init = self.rv(s, vs[2]) if len(vs) == 3 else None
        es = get(c, 'arr').sort().range()
        r = sum_fn(es)(get(c, 'arr'), self.index(c, a.pos), self.index(c, b.pos))
        if init is None:
            return r
        if z3.is_real(init) or z3.is_real(r):
            return real(init) + real(r)
        return init + r

    c_accumulate = c_reduce

    def c_sort(self, s, e, vs, args):
        a, b = self.rv(s, vs[0]), self.rv(s, vs[1])
        c = self.rv(s, a.cont)
        n = self.length(c)
        if not (is_num(a.pos) and a.pos.as_long() == 0 and b.pos.eq(n)) or a.rev:
            raise Unsupported('sort of a part')
        arr0 = get(c, 'arr')
        arr = fresh('srt', arr0.sort())
        perm, inv = fresh_fn('perm', z3.IntSort(), z3.IntSort()), fresh_fn('inv', z3.IntSort(), z3.IntSort())
        base = get(c, 'lo') if fam(c) == 'Deq' else IntV(0)
        hi = base + n
        i, j = z3.Ints('i j')
        rng = lambda x: z3.And(base <= x, x < hi)
        s.assume(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(perm(i)), inv(perm(i)) == i, z3.Select(arr, i) == z3.Select(arr0, perm(i)))),
                           patterns=[z3.Select(arr, i)]))
        s.assume(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(inv(i)), perm(inv(i)) == i, z3.Select(arr, inv(i)) == z3.Select(arr0, i))),
                           patterns=[z3.Select(arr0, i)]))
        if len(vs) == 3:
            f = self.rv(s, vs[2])
            es = arr.sort().range()
            k1, k2 = fresh('k', es), fresh('k', es)
            w = self.as_bool(self.pure_apply(s, f, lambda s2: [self.temp(s2, k1, self.elem_ty(a.ty)), self.temp(s2, k2, self.elem_ty(a.ty))], [k1, k2], TRUE, e))
            less = lambda x, y: z3.substitute(w, (k1, x), (k2, y))
        else:
            less = self.lt
        s.assume(z3.ForAll([i, j], z3.Implies(z3.And(base <= i, i < j, j < hi), z3.Not(less(z3.Select(arr, j), z3.Select(arr, i)))),
                           patterns=[z3.MultiPattern(z3.Select(arr, i), z3.Select(arr, j))]))
        self.write(s, a.cont, upd(c, arr=arr))
        return VOID

    c_stable_sort = c_sort

    def c_transform(self, s, e, vs, args):
        a, b, out, f = [self.rv(s, v) for v in vs[:4]]
        rd, n = self.range_bounds(s, a, b)
        self.oblige(s, n >= 0, 'iterator', e, 'range is ordered')
        k = fresh('ti', z3.IntSort())
        el = rd(k)
        w = self.pure_apply(s, f, lambda s2: [el if isinstance(el, MapElem) else self.temp(s2, el, self.elem_ty(a.ty))],
                            [k], z3.And(0 <= k, k < n), e)
        i = z3.Int('i')
        if isinstance(out, Inserter) and out.it is None:
            t = self.rv(s, out.cont)
            old = get(t, 'arr')
            l0 = get(t, 'len') if fam(t) == 'Vec' else get(t, 'hi')
            arr = fresh('tr', old.sort())
            es = old.sort().range()
            w = self.as_sort(w, es)
            s.assume(z3.ForAll([i], z3.Select(arr, i) == z3.If(z3.And(l0 <= i, i < l0 + n), z3.substitute(w, (k, i - l0)), sel(old, i)), patterns=[z3.Select(arr, i)]))
            # the same facts read from the old sequence and from the source
            s.assume(z3.ForAll([i], z3.Or(z3.And(l0 <= i, i < l0 + n), z3.Select(arr, i) == z3.Select(old, i)), patterns=[z3.Select(old, i)]))
            if z3.is_expr(el) and z3.is_app(el) and el.num_args() and any(k.eq(c) for c in el.children()):
                src = z3.substitute(el, (k, i))
                s.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.Select(arr, l0 + i) == z3.substitute(w, (k, i))), patterns=[src]))
            if fam(t) == 'Vec':
                self.write(s, out.cont, mk(t.sort(), l0 + n, arr))
            else:
                self.write(s, out.cont, mk(t.sort(), get(t, 'lo'), l0 + n, arr))
            return out
        if isinstance(out, Iter) and out.kind == 'seq' and not out.rev:
            t = self.rv(s, out.cont)
            old = get(t, 'arr')
            l0 = self.index(t, out.pos)
            self.oblige(s, out.pos + n <= self.length(t), 'iterator', e, 'output range is long enough')
            arr = fresh('tr', old.sort())
            w = self.as_sort(w, old.sort().range())
            s.assume(z3.ForAll([i], z3.Select(arr, i) == z3.If(z3.And(l0 <= i, i < l0 + n), z3.substitute(w, (k, i - l0)), sel(old, i)), patterns=[z3.Select(arr, i)]))
            self.write(s, out.cont, upd(t, arr=arr))
            return out.at(out.pos + n)
        raise Unsupported('transform')

    def as_sort(self, w, srt):
        if isinstance(w, Obj):
            return w.ref
        if srt == z3.RealSort():
            return real(w)
        return w

    def c_replace_copy_if(self, s, e, vs, args):
        a, b, out, f, new = [self.rv(s, v) for v in vs]
        rd, n = self.range_bounds(s, a, b)
        k = fresh('ri', z3.IntSort())
        el = rd(k)
        w = self.as_bool(self.pure_apply(s, f, lambda s2: [self.temp(s2, el, self.elem_ty(a.ty))], [k], z3.And(0 <= k, k < n), e))
        i = z3.Int('i')
        if isinstance(out, Inserter) and out.it is None:
            t = self.rv(s, out.cont)
            old = get(t, 'arr')
            l0 = get(t, 'len')
            arr = fresh('rc', old.sort())
            at = (lambda j: j) if is_num(l0) and l0.as_long() == 0 else (lambda j: j - l0)
            hi = n if is_num(l0) and l0.as_long() == 0 else l0 + n
            s.assume(z3.ForAll([i], z3.Implies(z3.And(l0 <= i, i < hi),
                     z3.Select(arr, i) == z3.If(z3.substitute(w, (k, at(i))), new, rd(at(i)))), patterns=[z3.Select(arr, i)]))
            if not (is_num(l0) and l0.as_long() == 0):
                s.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < l0), z3.Select(arr, i) == sel(old, i)), patterns=[z3.Select(arr, i)]))
            self.write(s, out.cont, mk(t.sort(), hi, arr))
            return out
        if isinstance(out, Iter) and out.kind == 'seq' and not out.rev and z3.is_expr(el):
            t = self.rv(s, out.cont)
            old = get(t, 'arr')
            l0 = self.index(t, out.pos)
            self.oblige(s, out.pos + n <= self.length(t), 'iterator', e, 'output range is long enough')
            arr = fresh('rc', old.sort())
            val = lambda j: z3.If(z3.substitute(w, (k, j)), new, rd(j))
            s.assume(z3.ForAll([i], z3.Select(arr, i) == z3.If(z3.And(l0 <= i, i < l0 + n), val(z3.simplify(i - l0)), sel(old, i)), patterns=[z3.Select(arr, i)]))
            self.write(s, out.cont, upd(t, arr=arr))
            return out.at(out.pos + n)
        raise Unsupported('replace_copy_if')

    def c_swap(self, s, e, vs, args):
        a, b = self.rv(s, vs[0]), self.rv(s, vs[1])
        self.write(s, vs[0], b)
        self.write(s, vs[1], a)
        return VOID

    def c_endl(self, s, e, vs, args):
        return 'stream'


class HandleKey:
    def __init__(self, lv):
        self.lv = lv


def _max(self, s, e, vs, args, _orig=Std.c_max):
    return self.limit(e, 'max') if not vs else _orig(self, s, e, vs, args)


def _min(self, s, e, vs, args, _orig=Std.c_min):
    return self.limit(e, 'min') if not vs else _orig(self, s, e, vs, args)


Std.c_max, Std.c_min = _max, _min
