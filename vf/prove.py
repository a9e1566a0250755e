"""Discharges obligations with z3 and cvc5 in parallel processes."""
import subprocess, time
import z3


def smt(ob, axioms):
    s = z3.Solver()
    for a in axioms:
        s.add(a)
    seen = set()
    for h in ob.hyps:
        if h.get_id() not in seen:
            seen.add(h.get_id())
            s.add(h)
    s.add(z3.Not(ob.goal))
    return s.to_smt2()


def _run(cmd, path, timeout):
    t = time.time()
    try:
        r = subprocess.run(cmd + [path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout + 5)
        out = r.stdout
    except subprocess.TimeoutExpired:
        out = 'timeout'
    return out.split('\n')[0].strip(), time.time() - t


# equations stay: substituting them away would spoil the patterns
PATTERNS = ['smt.mbqi=false', 'auto_config=false', 'smt.solve_eqs=false', 'smt.elim_unconstrained=false']


def backends(timeout):
    z = ['z3-new', '-T:%d' % timeout]
    return [('z3 (patterns)', z + PATTERNS + ['smt.random_seed=0']),
            ('z3', ['z3-new', '-T:%d' % max(1, timeout // 4), 'smt.random_seed=0']),
            ('z3 (no mbqi)', z + ['smt.mbqi=false', 'smt.random_seed=0', 'auto_config=false']),
            ('cvc5', ['cvc5', '--tlimit=%d' % (timeout * 1000), '--enum-inst']),
            ('z3 (seed 7)', z + PATTERNS + ['smt.random_seed=7'])]


def quick(timeout):
    return [('z3 (patterns)', ['z3-new', '-T:%d' % timeout, 'smt.random_seed=0'] + PATTERNS),
            ('z3', ['z3-new', '-T:%d' % timeout, 'smt.random_seed=0'])]


def parts(g):
    """The conjuncts of a goal, universally quantified variables replaced by constants."""
    if z3.is_quantifier(g) and g.is_forall():
        vs = [z3.FreshConst(g.var_sort(i), 'sk_' + g.var_name(i)) for i in range(g.num_vars())]
        return parts(z3.substitute_vars(g.body(), *reversed(vs)))
    if z3.is_and(g):
        return [p for c in g.children() for p in parts(c)]
    if z3.is_implies(g):
        return [z3.Implies(g.arg(0), p) for p in parts(g.arg(1))]
    if z3.is_eq(g) and z3.is_bool(g.arg(0)):
        a, b = g.children()
        return [z3.Implies(a, p) for p in parts(b)] + [z3.Implies(b, p) for p in parts(a)]
    return [g]


def names_of(e, cache):
    k = e.get_id()
    if k not in cache:
        out, todo, seen, q = set(), [e], set(), False
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            q = q or z3.is_quantifier(x)
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and '!' in x.decl().name():
                out.add(x.decl().name())
            todo += x.children()
        cache[k] = (out, q)
    return cache[k]


def present(hyps, goal, keep, cache):
    """The hypotheses without those quantified ones that speak of values no longer current."""
    keep = set(keep) | names_of(goal, cache)[0]
    while True:
        n = len(keep)
        for h in hyps:
            # a definition of a current symbol
            if z3.is_eq(h):
                for a, b in (h.children(), reversed(h.children())):
                    if z3.is_const(a) and a.decl().name() in keep:
                        keep |= names_of(b, cache)[0]
        if len(keep) == n:
            break
    res = []
    for h in hyps:
        ns, q = names_of(h, cache)
        if not q or ns <= keep:
            res.append(h)
    return res


def split(path, keep=None):
    """One file per conjunct of the goal (the last assertion, negated), each with
    a smaller one that leaves out what is known of outdated values."""
    s = z3.Solver()
    s.from_file(path)
    a = list(s.assertions())
    gs = parts(a[-1].arg(0)) if a and z3.is_not(a[-1]) else []
    if not gs:
        return [(path, None)]
    out, cache = [], {}
    for k, g in enumerate(gs):
        full, lean = path, None
        if len(gs) > 1:
            full = '%s-%d.smt2' % (path[:-5], k)
            write(full, a[:-1], g)
        if keep is not None:
            hs = present(a[:-1], g, keep, cache)
            if len(hs) < len(a) - 1:
                lean = '%s-%d-lean.smt2' % (path[:-5], k)
                write(lean, hs, g)
        out.append((full, lean))
    return out


def write(path, hyps, goal):
    s = z3.Solver()
    s.add(*hyps)
    s.add(z3.Not(goal))
    with open(path, 'w') as f:
        f.write(s.to_smt2())
