"""Contracts: preconditions, postconditions, frames and loop invariants."""
import itertools
import z3
from . import types as T
from .types import Ty, parse, sort_of, get, Unsupported
from .exec import State, Frame, LV, Obj, Iter, LoopCtx, VOID, Void, PY, fresh, ctype, has_quant, Obligation


class Loop:
    """Invariants of one loop: (name, function of the loop context)."""

    def __init__(self, invariants=(), variant=None, assumes=(), at_step=None, at_body=None, at_exit=None, at_break=None):
        self.invariants, self.variant, self.assumes = list(invariants), variant, list(assumes)
        self.at_step, self.at_body, self.at_exit, self.at_break = at_step, at_body, at_exit, at_break


class Ctx:
    """What a precondition or postcondition may talk about."""

    def __init__(self, ex, st, pre, this, args, fn, ret=None, pre_args=None, caller=False):
        self.ex, self.st, self.pre, self.this, self.args, self.fn, self.ret = ex, st, pre, this, args, fn, ret
        self.caller = caller

    def a(self, i):
        return self.ex.rv(self.st, self.args[i])

    def o(self, i):
        return self.ex.rv(self.pre, self.args[i])

    def f(self, name, obj=None, cls=None):
        o = obj if obj is not None else self.this
        return self.ex.read(self.st, self.ex.field(self.st, o, name, cls))

    def of(self, name, obj=None, cls=None):
        o = obj if obj is not None else self.this
        return self.ex.read(self.pre, self.ex.field(self.pre, o, name, cls))

    def obj(self, ref, cls):
        return Obj(ref, cls)

    def heap(self, key, ty, old=False):
        return self.ex.heap_arr(self.pre if old else self.st, key, parse(ty))

    # the loop context names
    def arg(self, i):
        return self.a(i)

    def old(self, i):
        return self.o(i)


class Given:
    """Stands for a call whose postconditions are the hypotheses of a lemma."""
    caller = True

    def __init__(self, args, fields=()):
        self.args = [z3.Const('p%d' % i, sort_of(parse(t))) for i, t in enumerate(args)]
        self.olds = [z3.Const('q%d' % i, sort_of(parse(t))) for i, t in enumerate(args)]
        self.fields = {n: z3.Const('f' + n, sort_of(parse(t))) for n, t in dict(fields).items()}

    def a(self, i):
        return self.args[i]

    def o(self, i):
        return self.olds[i]

    arg, old = a, o

    def f(self, name, obj=None, cls=None):
        return self.fields[name]

    of = f


class Contract:
    def __init__(self, name, requires=(), ensures=(), modifies=(), loops=None, throws=None, accepts=None,
                 setup=None, on_apply=None, axioms=(), trusted=None, at_exit=None, props=(), dyn=None, merge=False,
                 result=None, frame=True, lemmas=(), opaque=(), inline=(), ranges=(), only_check=False, allocates=False, wraps=False, keyed=(), abstract=False, chain=False, implements=None, by=None, cases=(), case=None, ghosts=(), at_call=None, exception=None):
        self.at_call, self.called, self.exception = at_call or {}, {}, exception
        self.name = name
        self.requires, self.ensures, self.modifies = list(requires), list(ensures), list(modifies)
        self.loops = loops or {}
        self.throws, self.accepts, self.setup, self.on_apply = throws, accepts, setup, on_apply
        self.axioms, self.trusted, self.at_exit, self.props = list(axioms), trusted, at_exit, props
        self.dyn = dyn
        self.result = result
        self.check_frame = frame
        self.merge = merge             # paths through a conditional that change nothing go on as one
        self.ranges = {i: r for r in ranges for i in r[:2]}   # (first, last, container type): iterator parameters
        self.wraps = wraps             # unsigned subtraction below zero wraps instead of being an error
        self.keyed = keyed             # ordered containers whose iterators are followed by key
        self.allocates = allocates     # may create objects
        self.abstract = abstract       # of a virtual function: what every override is verified against
        self.impls = []                # contracts of overrides, apart from those used at calls
        if implements is not None:
            implements.impls.append(self)
            only_check = True
        self.ghosts = list(ghosts)     # definitions of function symbols used only here, in terms of the state on entry
        self.cases = cases             # base classes whose derived classes, combined, each have a contract
        self.case = case               # the classes this contract is for
        self.by = by                   # another contract of the same function, from which this one follows
        self.chain = chain             # postconditions already shown may be used for the later ones
        self.only_check = only_check   # verified, but calls use the body
        self.inline = inline      # names of functions whose body is used instead of their contract
        self.opaque = opaque      # (name, number of parameters) of functions about which nothing is assumed
        self.lemmas = list(lemmas)
        self.pre = None
        self.this = None

    def all_axioms(self):
        return self.axioms + [l.statement for l in self.lemmas]

    def loop_spec(self, no, node, ex):
        return self.loops.get(no)

    def arg_value(self, ex, st, i):
        return ex.rv(st, self.args[i])

    # ------------------------------------------------------------ verify
    def pick(self, ex):
        c = [f for f in ex.P.fn.get('comma::' + self.name, []) if f.get('_inst') or f['_rec'] is None or True]
        c = [f for f in c if ex.body(f) is not None and (self.accepts is None or self.accepts(ex, f))]
        if not c:
            raise Unsupported('function %s is not in the tree' % self.name)
        inst = [f for f in c if f.get('_inst')]
        return (inst or c)[0]

    def verify_abstract(self, ex):
        """Every override has a contract with the same conditions, apart from those
        named abstract, which say for its class what the predicate stands for."""
        if self.cases:
            return self.verify_cases(ex)
        base, name = self.name.split('::')
        fn = next(f for f in ex.record(base).get('inner', []) if f.get('name') == name and f.get('virtual'))
        ex.cur = self
        st = State()
        st.ghost['_limit'] = z3.Int('alloc')
        plain = lambda cs: [g for nm, g in cs if not nm.startswith('abstract:')]
        n = 0
        for rec in ex.P.records.values():
            cls = rec.get('_name')
            for f in rec.get('inner', []):
                if cls == base or f.get('name') != name or f.get('kind') != 'CXXMethodDecl' or not ex.derives(cls, base):
                    continue
                n += 1
                c = ex.contract_of(f)
                c = next((d for d in self.impls if d.name == '%s::%s' % (cls, name) and (d.accepts is None or d.accepts(ex, f))), c)
                ok = c is not None and all(any(g is h for h in plain(self.requires)) for g in plain(c.requires)) and \
                    all(any(g is h for h in plain(c.ensures)) for g in plain(self.ensures)) and set(map(str, c.modifies)) <= set(map(str, self.modifies))
                ex.oblige(st, z3.BoolVal(ok), 'override', f, '%s keeps the contract of %s' % (cls, self.name))
                if c is not None:
                    ex.used_contracts.add(c.name)
        ex.oblige(st, z3.BoolVal(n > 0), 'override', fn, 'there are overrides')
        ex.npaths, self.vacuity = n, []
        return fn

    def verify_cases(self, ex):
        """A function that is not virtual but works through the virtual functions of given
        classes: one contract for every combination of classes derived from them."""
        fn = self.pick(ex)
        ex.cur = self
        st = State()
        st.ghost['_limit'] = z3.Int('alloc')
        plain = lambda cs: [g for nm, g in cs if not nm.startswith('abstract:')]
        derived = [sorted({r.get('_name') for r in ex.P.records.values() if r.get('_name') != b and ex.derives(r.get('_name'), b)}) for b in self.cases]
        n = 0
        for combo in itertools.product(*derived):
            n += 1
            c = next((d for d in self.impls if d.case == combo), None)
            ok = c is not None and all(any(g is h for h in plain(self.requires)) for g in plain(c.requires)) and \
                all(any(g is h for h in plain(c.ensures)) for g in plain(self.ensures)) and set(map(str, c.modifies)) <= set(map(str, self.modifies))
            ex.oblige(st, z3.BoolVal(ok), 'override', fn, '%s with %s keeps the contract' % (self.name, ', '.join(combo)))
        ex.oblige(st, z3.BoolVal(n > 0), 'override', fn, 'there are classes')
        ex.used_contracts.add(self.name)
        ex.npaths, self.vacuity = n, []
        return fn

    def verify(self, ex):
        if self.abstract:
            fn = self.verify_abstract(ex)
            if self.abstract != 'body':      # virtual with a body of its own
                return fn
        fn = self.pick(ex)
        ex.cur = self
        ex.number_loops(fn)
        st = State()
        st.ghost['_limit'] = z3.Int('alloc')     # references handed out so far are below
        st.assume(st.ghost['_limit'] > 0)
        this = None
        if fn['kind'] in ('CXXMethodDecl', 'CXXConstructorDecl') and fn.get('storageClass') != 'static':
            rec = fn['_rec']
            ref = z3.Int('this')
            st.assume(z3.And(ref > 0, ref < st.ghost['_limit']))
            this = Obj(ref, self.dyn or rec['_name'])
            if this.cls in T.VALUE_CLASSES and fn['kind'] != 'CXXConstructorDecl':
                this = ex.temp(st, z3.Const('self', sort_of(Ty(this.cls, ex.record_args(this.cls)))))
        self.this = this
        f = Frame(fn, this)
        st.frames.append(f)
        self.args = []
        for i, p in enumerate(ex.params(fn)):
            ty = ctype(p)
            nm = p.get('name') or 'arg%d' % i
            if i in self.ranges:
                lv = self.iterator(ex, st, i, ctype(p))
            elif ty.name in ex.classes and not ty.ptr and ty.name not in T.VALUE_CLASSES:
                lv = Obj(z3.Int('a_' + nm), ty.name)
                st.assume(z3.And(lv.ref > 0, lv.ref < st.ghost['_limit']))
            else:
                v = z3.Const('a_' + nm, sort_of(ty))
                for w in ex.wf(v, ty):
                    st.assume(w)
                lv = LV(ex.new_root(st, v), (), ty.bare())
            self.args.append(lv)
            ex.bind(st, p, lv)
        if self.setup is not None:
            self.setup(ex, st, this, self.args)
        c = Ctx(ex, st, st, this, self.args, fn)
        for nm, g in self.requires + self.ghosts:
            st.assume(g(c))
        st.log = []
        ex.pre_hyps = [e for e, _ in st.pc]
        self.pre = st.copy()
        self.vacuity = [e for e, _ in st.pc]
        self.roots = set(st.vars)
        if self.by is not None:
            outs = [(s, 'return', r) for s, r in self.by.apply(ex, st, fn, this, self.args, fn)]
        elif fn['kind'] == 'CXXConstructorDecl':
            outs = []
            for s in ex.run_inits(st, fn, this):
                outs += [(s, 'throw', s.exc)] if s.exc else ex.stmt(ex.body(fn), s)
        else:
            outs = ex.stmt(ex.body(fn), st)
        ex.npaths = len(outs)
        for s, k, v in outs:
            if k == 'throw':
                cond = None
                if self.throws is not None:
                    cond = self.throws(Ctx(ex, s, self.pre, this, self.args, fn))
                    if self.exception is not None and s.exc != self.exception:
                        cond = z3.BoolVal(False)
                ex.oblige(s, cond if cond is not None else z3.BoolVal(False), 'exception', fn, 'throws only when allowed')
                continue
            ex.exits.append([e for e, _ in s.pc])
            if k in ('break', 'continue'):
                raise Unsupported('stray ' + k)
            c = Ctx(ex, s, self.pre, this, self.args, fn, ret=v if k == 'return' else VOID)
            if isinstance(c.ret, LV):
                c.retlv = c.ret
                c.ret = ex.rv(s, c.ret)
            if self.at_exit is not None:
                self.at_exit(c)
            for nm, g in self.ensures:
                ex.oblige(s, g(c), 'postcondition', fn, nm)
                if self.chain:
                    s.assume(g(c))
            if self.check_frame:
                self.frame(ex, s, fn)
        return fn

    def after(self, ex, st, name, node):
        """what this contract says after a call of name; one call of it only"""
        if self.called.setdefault(name, node) is not node:
            raise Unsupported('a second call of ' + name)
        c = Ctx(ex, st, self.pre, self.this, self.args, self.pick(ex))
        c.node = node
        self.at_call[name](c)

    def iterator(self, ex, st, i, ty):
        """A pair of iterator parameters delimits a part of some sequence."""
        a, b, ct = self.ranges[i]
        ct = parse(ct)
        if i == a:
            v = z3.Const('a_range', sort_of(ct))
            for w in ex.wf(v, ct):
                st.assume(w)
            self.range_lv = LV(ex.new_root(st, v), (), ct)
            lo, hi = z3.Ints('a_first a_last')
            st.assume(z3.And(0 <= lo, lo <= hi, hi <= get(v, 'len')))
            self.range_pos = {a: lo, b: hi}
        return LV(ex.new_root(st, Iter(self.range_lv, 'seq', self.range_pos[i], ty=ct)), (), ty.bare())

    def frame(self, ex, s, fn):
        """Everything written is named in modifies."""
        allowed_vars, allowed_fields, heaps = set(), set(), set()
        for m in self.modifies:
            if isinstance(m, int):
                lv = self.args[m]
                if isinstance(lv, LV):
                    allowed_vars.add(lv.root)
            elif isinstance(m, tuple):
                heaps.add(m[1])
            else:
                allowed_fields.add(m.split('::')[-1])
        bad = []
        byval = set()
        for i, p in enumerate(ex.params(fn)):
            if '&' not in p['type'].get('qualType', '') and isinstance(self.args[i], LV):
                byval.add(self.args[i].root)
        for r in s.log:
            if r[0] == 'v':
                if r[1] in self.roots and r not in allowed_vars and r not in byval:
                    bad.append('parameter')
            else:
                key, ref = r[1], r[2]
                if key in heaps or key == '_alloc':
                    continue
                if isinstance(self.this, Obj) and ref is not None and ref.eq(self.this.ref) and (key.split('::')[-1] in allowed_fields or fn['kind'] == 'CXXConstructorDecl'):
                    continue        # the object being constructed is new
                if ref is not None and any(n.decl().name().startswith('new!') for n in [ref] if z3.is_const(ref)):
                    continue
                bad.append(key)
        for k in sorted(set(bad)):
            ex.oblige(s, z3.BoolVal(False), 'frame', fn, 'modifies only what the contract names (%s)' % k)

    # ------------------------------------------------------------- apply
    def apply(self, ex, st, fn, this, args, node):
        ps = ex.params(fn)
        nargs = []
        for p, a in zip(ps, args):
            ty = ctype(p)
            if isinstance(a, (LV, Obj)) and ('&' in p['type'].get('qualType', '') or isinstance(a, Obj)):
                nargs.append(a)
            else:
                v = ex.coerce(st, ex.rv(st, a), ty)
                nargs.append(v if isinstance(v, PY) else ex.temp(st, v, ty.bare()))
        pre = st.copy()
        c = Ctx(ex, st, pre, this, nargs, fn, caller=True)
        for nm, g in self.requires:
            ex.oblige(st, g(c), 'precondition', node, '%s: %s' % (self.name, nm))
        out = []
        if self.throws is not None:
            cond = self.throws(c)
            for s2, b in ex.fork(st, cond):
                if b:
                    s2.exc = self.exception or 'exception'
                    out.append((s2, None))
                else:
                    st = s2
                    c.st = st
            if not any(not x.exc for x in [st]):
                return out
        if self.allocates:
            lim = fresh('alloc', z3.IntSort())
            st.assume(lim >= st.ghost['_limit'])
            st.ghost['_limit'] = lim
            st.log.append(('h', '_alloc', None, None))
        for m in self.modifies:
            if isinstance(m, int):
                lv = nargs[m]
                v = ex.rv(st, lv)
                ex.write(st, lv, ex.havoc_val(st, v, 'out', lv.ty))
            elif isinstance(m, tuple):
                key, ty = m[1], parse(m[2])
                arr = ex.heap_arr(st, key, ty)
                st.heap[key] = fresh('H_' + T.san(key), arr.sort())
                st.log.append(('h', key, None, ty))
            else:
                lv = ex.field(st, this, m.split('::')[-1], m.split('::')[0] if '::' in m else None)
                v = ex.rv(st, lv)
                ex.write(st, lv, ex.havoc_val(st, v, m, lv.ty))
        rt = fn['type'].get('desugaredQualType') or fn['type']['qualType']
        rq = fn['type']['qualType']
        ret = VOID
        rty = self.ret_type(fn)
        if self.result is not None:
            ret = self.result(c)
        elif rty is not None:
            ret = fresh('ret', sort_of(rty))
            for w in ex.wf(ret, rty):
                st.assume(w)
        c.ret = ret
        for nm, g in self.ensures:
            st.assume(g(c))
        if self.on_apply is not None:
            c.node = node
            self.on_apply(c)
        if ex.cur is not None and self.name in ex.cur.at_call:
            ex.cur.after(ex, st, self.name, node)
        out.append((st, ret))
        return out

    def ret_type(self, fn):
        q = fn['type'].get('desugaredQualType') or fn['type']['qualType']
        i, depth = 0, 0
        for i, ch in enumerate(q):
            if ch == '<':
                depth += 1
            elif ch == '>':
                depth -= 1
            elif ch == '(' and depth == 0:
                break
        t = q[:i].strip()
        if t in ('void', ''):
            return None
        return parse(t).bare()
