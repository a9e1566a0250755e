"""C++ types (as clang prints them) and their logical sorts."""
import re
import z3


class Unsupported(Exception):
    pass


class Ty:
    __slots__ = ('name', 'args', 'ref', 'ptr', 'const')

    def __init__(self, name, args=(), ref=False, ptr=0, const=False):
        self.name, self.args, self.ref, self.ptr, self.const = name, list(args), ref, ptr, const

    def __repr__(self):
        s = self.name + ('<' + ','.join(map(repr, self.args)) + '>' if self.args else '')
        return s + '*' * self.ptr

    def key(self):
        return repr(self)

    def bare(self):
        return Ty(self.name, self.args, False, self.ptr, False)


_drop = re.compile(r'\b(std|comma|__cxx11|__gnu_cxx|__detail|_V2)::')
_tok = re.compile(r'\(lambda at [^)]*\)|\(unnamed [^)]*\)|[A-Za-z_][\w:]*|-?\d+|<|>|,|\*|&&|&|\(|\)|\[|\]|\.\.\.|\S')
_cache = {}
WORDS = ('unsigned', 'signed', 'long', 'int', 'short', 'char')
ALIAS = {}
DRIVER = {'Idx': 'unsigned long', 'Real': 'double', 'Int': 'int'}   # aliases of vf/driver.cpp


def parse(s):
    if s in _cache:
        return _cache[s]
    t = _drop.sub('', s)
    t = re.sub(r'\b(Idx|Real|Int)\b', lambda m: DRIVER[m.group(1)], t)
    toks = [x for x in _tok.findall(t) if x not in ('typename', 'class', 'struct', 'enum', 'volatile')]
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def one():
        const = False
        name = []
        args = []
        while True:
            p = peek()
            if p == 'const':
                const = True
                pos[0] += 1
            elif p in WORDS or (name == [] and p is not None and (re.match(r'[A-Za-z_(\-\d]', p))):
                name.append(p)
                pos[0] += 1
                if name[-1] not in WORDS:
                    break
            else:
                break
        if peek() == '<' and name:
            pos[0] += 1
            while peek() != '>':
                if peek() is None:
                    raise Unsupported('type ' + s)
                args.append(one())
                if peek() == ',':
                    pos[0] += 1
            pos[0] += 1
            # member of a template, e.g. pair<..>::first_type
            if peek() is not None and peek().startswith('::') or peek() == ':':
                rest = []
                while peek() not in (None, ',', '>', '*', '&', '&&', '(', ')'):
                    rest.append(peek())
                    pos[0] += 1
                name = ['member', '(' + ''.join(rest).strip(':') + ')']
        ty = Ty(' '.join(name), args, False, 0, const)
        while True:
            p = peek()
            if p == '*':
                ty = Ty(ty.name, ty.args, False, ty.ptr + 1, False)
                pos[0] += 1
            elif p in ('&', '&&'):
                ty = Ty(ty.name, ty.args, True, ty.ptr, ty.const)
                pos[0] += 1
            elif p == 'const':
                pos[0] += 1
            elif p == '(':
                # function type: opaque
                depth = 0
                while peek() is not None:
                    if peek() == '(':
                        depth += 1
                    elif peek() == ')':
                        depth -= 1
                        if depth == 0:
                            pos[0] += 1
                            break
                    pos[0] += 1
                ty = Ty('function', [ty])
            else:
                break
        return ty
    r = one()
    r = norm(r)
    _cache[s] = r
    return r


INTS = {'unsigned long', 'long', 'int', 'unsigned int', 'long long', 'unsigned long long', 'size_t', 'ptrdiff_t',
        'short', 'unsigned short', 'char', 'unsigned char', 'unsigned', 'uint8_t', 'long unsigned int', 'size_type',
        'difference_type'}
UNSIGNED = {'unsigned long', 'unsigned int', 'unsigned long long', 'size_t', 'unsigned short', 'unsigned char',
            'unsigned', 'uint8_t', 'long unsigned int', 'size_type'}
NARGS = {'vector': 1, 'deque': 1, 'queue': 1, 'set': 1, 'unordered_set': 1, 'map': 2, 'unordered_map': 2,
         'optional': 1, 'shared_ptr': 1, 'unique_ptr': 1, 'list': 1}
VALUE_CLASSES = set()   # records with value semantics (sort = tuple of their fields)
ENUMS = set()


def norm(t):
    if t.name == 'member' or t.name.startswith('member ('):
        m = re.match(r'member \((\w+)\)', t.name)
        w = m.group(1) if m else ''
        a = t.args
        if w == 'first_type' and len(a) == 2:
            r = a[0]
        elif w == 'second_type' and len(a) == 2:
            r = a[1]
        elif w in ('key_type', 'value_type') and a:
            r = a[0]
        elif w in ('size_type',):
            r = Ty('unsigned long')
        else:
            return t
        return Ty(r.name, r.args, t.ref, r.ptr + t.ptr, t.const)
    if t.name in ALIAS and not t.args:
        r = ALIAS[t.name]
        return Ty(r.name, r.args, t.ref or r.ref, r.ptr + t.ptr, t.const or r.const)
    if t.name in ('set', 'map') and len(t.args) > NARGS[t.name]:
        cmp = t.args[NARGS[t.name]]
        if cmp.name not in ('less', 'allocator'):
            return Ty(t.name, t.args[:NARGS[t.name]] + [cmp], t.ref, t.ptr, t.const)
    if t.name in NARGS:
        return Ty(t.name, t.args[:NARGS[t.name]], t.ref, t.ptr, t.const)
    return t


# ---- sorts ---------------------------------------------------------------
_sorts = {}
_dts = {}


def _dt(name, fields):
    d = z3.Datatype(name)
    d.declare('mk_' + name, *[(name + '_' + f, s) for f, s in fields])
    d = d.create()
    _dts[name] = (d, [f for f, _ in fields])
    return d


def san(s):
    return re.sub(r'\W+', '_', s).strip('_')


RECORD_FIELDS = {}   # value class key -> [(field, Ty)]
RECORD_ARGS = {}


def sort_of(t):
    k = t.bare().key()
    if k in _sorts:
        return _sorts[k]
    s = _mk_sort(t, k)
    _sorts[k] = s
    return s


def is_ref_type(t):
    return t.ptr > 0 or t.name in ('shared_ptr', 'unique_ptr')


def _mk_sort(t, k):
    if t.ptr or t.name in ('shared_ptr', 'unique_ptr', '__shared_ptr', 'nullptr_t'):
        return z3.IntSort()
    n = t.name
    if n in INTS or n in ENUMS:
        return z3.IntSort()
    if n in ('bool', '_Bit_reference'):
        return z3.BoolSort()
    if n in ('double', 'float', 'long double'):
        return z3.RealSort()
    if n == 'vector':
        e = sort_of(t.args[0])
        return _dt('Vec_' + san(t.args[0].key()), [('len', z3.IntSort()), ('arr', z3.ArraySort(z3.IntSort(), e))])
    if n in ('deque', 'queue'):
        if n == 'queue':
            return sort_of(Ty('deque', t.args))
        e = sort_of(t.args[0])
        return _dt('Deq_' + san(t.args[0].key()),
                   [('lo', z3.IntSort()), ('hi', z3.IntSort()), ('arr', z3.ArraySort(z3.IntSort(), e))])
    if n in ('set', 'unordered_set'):
        if n != 'set' or len(t.args) > 1:
            return sort_of(Ty('set', t.args[:1]))
        e = sort_of(t.args[0])
        return _dt('Set_' + san(t.args[0].key()), [('mem', z3.ArraySort(e, z3.BoolSort())), ('card', z3.IntSort())])
    if n in ('map', 'unordered_map'):
        if n != 'map' or len(t.args) > 2:
            return sort_of(Ty('map', t.args[:2]))
        e, v = sort_of(t.args[0]), sort_of(t.args[1])
        return _dt('Map_' + san(t.args[0].key() + '_' + t.args[1].key()),
                   [('mem', z3.ArraySort(e, z3.BoolSort())), ('card', z3.IntSort()), ('val', z3.ArraySort(e, v))])
    if n == 'optional':
        return _dt('Opt_' + san(t.args[0].key()), [('has', z3.BoolSort()), ('val', sort_of(t.args[0]))])
    if n == 'pair':
        return _dt('Pair_' + san(t.args[0].key() + '_' + t.args[1].key()),
                   [('first', sort_of(t.args[0])), ('second', sort_of(t.args[1]))])
    if n == 'tuple':
        return _dt('Tup_' + san('_'.join(a.key() for a in t.args)),
                   [('e%d' % i, sort_of(a)) for i, a in enumerate(t.args)])
    if n in VALUE_CLASSES:
        return _dt('Rec_' + san(k), [(f, sort_of(ft)) for f, ft in RECORD_FIELDS[n]])
    raise Unsupported('no sort for type %s' % k)


def fields_of(sort):
    return _dts[sort.name()][1]


def is_dt(v):
    return v.sort().name() in _dts


def get(v, f):
    """Field of a datatype value, simplified when v is a constructor term or an if-then-else."""
    d, fs = _dts[v.sort().name()]
    i = fs.index(f)
    if z3.is_app(v) and v.decl().eq(d.constructor(0)):
        return v.arg(i)
    return d.accessor(0, i)(v)


def upd(v, **kw):
    d, fs = _dts[v.sort().name()]
    return d.constructor(0)(*[kw[f] if f in kw else get(v, f) for f in fs])


def mk(sort, *vals):
    return _dts[sort.name()][0].constructor(0)(*vals)


def sel(a, i):
    """Array read with read-over-write simplification on syntactic equality."""
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        j = a.arg(1)
        if j.eq(i):
            return a.arg(2)
        if z3.is_int_value(j) and z3.is_int_value(i):
            a = a.arg(0)
            continue
        d = z3.simplify(j == i) if j.sort() == z3.IntSort() else None
        if d is not None and z3.is_true(d):
            return a.arg(2)
        if d is not None and z3.is_false(d):
            a = a.arg(0)
            continue
        break
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_CONST_ARRAY:
        return a.arg(0)
    return z3.Select(a, i)
