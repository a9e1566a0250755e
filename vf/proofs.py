"""Runs the deductive part of a check: for one property, every contract it rests
on is verified against the current source, each in its own process, and the
obligations are discharged by the solvers."""
import concurrent.futures, importlib, json, multiprocessing, multiprocessing.connection, os, pkgutil, shutil, signal, sys, tempfile, time, traceback
import z3
from . import cast, prove, types as T
from .stl import Std

DRIVER = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'driver.cpp')
EXEC_LIMIT = 240


class Lemma:
    """A fact used as an axiom, with the obligations that establish it (base case
    and step of an induction, or a direct proof)."""

    def __init__(self, name, statement, steps):
        self.name, self.statement, self.steps = name, statement, steps


class Specs:
    def __init__(self):
        import specs
        self.contracts, self.classes, self.lemmas, self.all = {}, set(), {}, []
        for m in sorted(x.name for x in pkgutil.iter_modules(specs.__path__)):
            mod = importlib.import_module('specs.' + m)
            self.classes |= set(getattr(mod, 'CLASSES', ()))
            for c in getattr(mod, 'CONTRACTS', ()):
                c.module = m
                self.all.append(c)
                self.contracts.setdefault(c.name, []).append(c)
            for p, ls in getattr(mod, 'PROPERTY_LEMMAS', {}).items():
                self.lemmas.setdefault(p, []).extend(ls)

    def table(self):
        t = {k: [c for c in v if not c.only_check] for k, v in self.contracts.items()}
        return {k: v[0] if len(v) == 1 else v for k, v in t.items() if v}


def _job(kind, name, loc, path, trivially=False):
    return dict(kind=kind, name=name, loc=loc, path=path, status='proved' if trivially else None,
                backend='simplifier' if trivially else None, time=0.)


def write_obligations(obls, axioms, workdir):
    os.makedirs(workdir, exist_ok=True)
    out = []
    for i, ob in enumerate(obls):
        if z3.is_true(z3.simplify(ob.goal)):
            out.append(_job(ob.kind, ob.name, ob.loc, None, True))
            continue
        path = os.path.join(workdir, 'o%04d.smt2' % i)
        with open(path, 'w') as f:
            f.write(prove.smt(ob, axioms))
        out.append(_job(ob.kind, ob.name, ob.loc, path))
        out[-1]['keep'] = ob.keep
    return out


def write_lemma(lem, workdir):
    os.makedirs(workdir, exist_ok=True)
    out = []
    for i, (nm, axioms, hyps, goal) in enumerate(lem.steps):
        s = z3.Solver()
        s.add(*axioms)
        s.add(*hyps)
        s.add(z3.Not(goal))
        path = os.path.join(workdir, 'l%s%02d.smt2' % (T.san(lem.name), i))
        with open(path, 'w') as f:
            f.write(s.to_smt2())
        out.append(_job('lemma', '%s: %s' % (lem.name, nm), '', path))
    return out


def solve(jobs, slots, deadline, timeout):
    def run(j):
        # first a quick attempt of everything, then the other back ends
        j['status'], j['backend'] = attempt(j, j['path'], prove.quick(max(2, timeout // 4)))

    def attempt(j, path, which):
        last = 'unknown', ''
        for nm, cmd in which:
            if time.time() > deadline:
                return 'unknown', 'not tried further: time limit of this check'
            with slots:
                res, dt = prove._run(cmd, path, timeout)
            j['time'] += dt
            if res in ('unsat', 'sat'):
                return 'proved' if res == 'unsat' else 'refuted', nm
            last = 'unknown', res
        return last

    def more(j):
        backs = prove.backends(timeout)
        # the conjuncts of the goal one by one, first without what is known of outdated values
        by = set()
        for k, (p, lean) in enumerate(j['parts']):
            st = None
            if lean:
                st, nm = attempt(j, lean, prove.quick(max(2, timeout // 2))[:1])
                nm += ' (present values)'
            if st != 'proved':
                st, nm = attempt(j, p, backs)
            if st != 'proved':
                j['status'], j['backend'] = st, '%s (conjunct %d of %d)' % (nm, k + 1, len(j['parts']))
                if st == 'refuted':
                    j['path'] = p
                return
            by.add(nm)
        j['status'], j['backend'] = 'proved', ' + '.join(sorted(by)) + (' (by conjunct)' if len(j['parts']) > 1 else '')
    todo = [j for j in jobs if j['status'] is None]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(run, todo))
    todo = [j for j in todo if j['status'] == 'unknown']
    for j in todo:
        j['parts'] = prove.split(j['path'], j.get('keep'))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(more, todo))
    for j in jobs:
        j.pop('keep', None)
        for p, lean in j.pop('parts', []):
            if lean:
                os.remove(lean)
            if j['status'] == 'proved' and p != j['path']:
                os.remove(p)
        if j['status'] == 'proved' and j['path']:
            os.remove(j['path'])
            j['path'] = None


def probe(hyps, axioms, path):
    s = z3.Solver()
    s.add(*axioms)
    s.add(*hyps)
    with open(path, 'w') as f:
        f.write(s.to_smt2())


def vacuity(c, ex, workdir, slots, thorough):
    """The preconditions must not contradict themselves and some exit of the
    function must be reachable; otherwise its obligations hold for no reason."""
    sets = [('preconditions can hold', [c.vacuity])]
    if ex.exits:
        sets.append(('function can return', ex.exits if thorough else ex.exits[:2]))
    if thorough:
        sets += [('loop body can run', [h]) for h in ex.bodies]
    bad = []
    for n, (nm, hs) in enumerate(sets):
        ok = False
        for h in hs:
            p = os.path.join(workdir, 'v.smt2')
            probe(h, c.all_axioms(), p)
            with slots:
                res, _ = prove._run(prove.quick(2)[1][1], p, 2)
            if res != 'unsat':
                ok = True
                break
        if not ok and not (n == 1 and len(hs) < len(ex.exits)):
            bad.append(nm)
    return len(sets), bad


def child(specs, prog, c, workdir, out, slots, deadline, timeout, thorough):
    r = dict(contract=c.name, error=None, jobs=[], used=[], inlined=[], trusted=c.trusted)
    t0 = time.time()
    try:
        os.makedirs(workdir, exist_ok=True)
        if c.trusted:
            with open(out, 'w') as f:
                json.dump(r, f)
            return

        def late(*a):
            raise T.Unsupported('symbolic execution took more than %d s' % EXEC_LIMIT)
        signal.signal(signal.SIGALRM, late)
        signal.alarm(EXEC_LIMIT)
        ex = Std(prog, specs.table(), specs.classes)
        try:
            fn = c.verify(ex)
            r['file'] = os.path.basename(fn.get('_file') or '')
            r['line'] = fn.get('_line')
        except T.Unsupported as e:
            r['error'] = 'not supported: %s' % e
        except (KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError, z3.Z3Exception) as e:
            r['error'] = 'specification does not attach: %s: %s' % (type(e).__name__, e)
            r['trace'] = traceback.format_exc()[-1500:]
        signal.alarm(0)
        r['exec_s'] = round(time.time() - t0, 2)
        r['used'] = sorted(x for x in ex.used_contracts if x != c.name)
        r['inlined'] = sorted(ex.inlined)
        if r['error'] is None:
            r['paths'] = ex.npaths
            jobs = write_obligations(ex.obls, c.all_axioms(), workdir)
            for l in c.lemmas:
                jobs += write_lemma(l, workdir)
            solve(jobs, slots, deadline, timeout)
            r['jobs'] = jobs
            r['probes'], r['vacuous'] = vacuity(c, ex, workdir, slots, thorough)
    except BaseException as e:
        r['error'] = 'internal: %s: %s' % (type(e).__name__, e)
        r['trace'] = traceback.format_exc()[-1500:]
    r['wall_s'] = round(time.time() - t0, 2)
    with open(out, 'w') as f:
        json.dump(r, f)


def run(prop, thorough=False, budget=360, timeout=20, workdir=None):
    """Verifies everything property `prop` rests on."""
    t0 = time.time()
    own = workdir is None
    if own:
        workdir = tempfile.mkdtemp(prefix='vf-%s-' % prop)
    res = dict(contracts={}, lemmas=[], error=None, workdir=workdir)
    try:
        specs = Specs()
        prog = cast.load(DRIVER)
    except RuntimeError as e:
        res['error'] = str(e)
        return res
    res['load_s'] = round(time.time() - t0, 2)
    todo = [c for c in specs.all if prop in c.props]
    roots = [c.name for c in todo]
    seen = {id(c) for c in todo}
    slots = multiprocessing.Semaphore(8)
    deadline = t0 + budget
    running = {}
    n = 0
    lem = []
    for l in specs.lemmas.get(prop, []):
        lem += write_lemma(l, os.path.join(workdir, 'lemmas'))
    mp = multiprocessing.get_context('fork')
    while todo or running:
        while todo and len(running) < 8:
            c = todo.pop(0)
            n += 1
            out = os.path.join(workdir, 'r%d.json' % n)
            p = mp.Process(target=child, args=(specs, prog, c, os.path.join(workdir, 'c%d' % n), out, slots, deadline, timeout, thorough))
            p.start()
            running[p] = (c, out)
        multiprocessing.connection.wait([p.sentinel for p in running], timeout=5)
        for p in [p for p in running if not p.is_alive()]:
            c, out = running.pop(p)
            p.join()
            try:
                with open(out) as f:
                    r = json.load(f)
            except (OSError, ValueError):
                r = dict(contract=c.name, error='worker died', jobs=[], used=[], inlined=[], trusted=c.trusted)
            res['contracts'].setdefault(c.name, []).append(r)
            for u in r['used']:
                for d in specs.contracts.get(u, []):
                    if id(d) not in seen:
                        seen.add(id(d))
                        todo.append(d)
    if lem:
        solve(lem, slots, deadline, timeout)
    res['lemmas'] = lem
    res['roots'] = roots
    res['wall_s'] = round(time.time() - t0, 2)
    return res


def summary(res):
    """Counts and lists for the evidence."""
    jobs = list(res['lemmas'])
    fns, errors, vac, trusted, inl = [], [], [], [], set()
    for nm in sorted(res['contracts']):
        for r in res['contracts'][nm]:
            if r.get('trusted'):
                trusted.append('%s: %s' % (nm, r['trusted']))
                continue
            if r['error']:
                errors.append('%s: %s' % (nm, r['error']))
                continue
            jobs += r['jobs']
            inl |= set(r['inlined'])
            vac += ['%s: %s' % (nm, x) for x in r.get('vacuous', [])]
            fns.append(dict(function=nm, where='%s:%s' % (r.get('file'), r.get('line')), obligations=len(r['jobs']),
                            discharged=sum(j['status'] == 'proved' for j in r['jobs']), paths=r.get('paths'),
                            solver_s=round(sum(j['time'] for j in r['jobs']), 2)))
    by = {}
    for j in jobs:
        if j['status'] == 'proved':
            by[j['backend']] = by.get(j['backend'], 0) + 1
    opened = [j for j in jobs if j['status'] != 'proved']
    return dict(obligations=len(jobs), discharged=len(jobs) - len(opened), backends=by, open=opened, functions=fns,
                errors=errors, vacuous=vac, trusted=trusted, inlined=sorted(inl),
                solver_s=round(sum(j['time'] for j in jobs), 2))


def clean(res):
    d = res.get('workdir')
    if d and os.path.basename(d).startswith('vf-'):
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    import pprint
    r = run(sys.argv[1], thorough='-t' in sys.argv)
    pprint.pprint(summary(r), width=180)
    print(r.get('wall_s'), r['error'])
    if '-k' not in sys.argv:
        clean(r)
