#!/usr/bin/env python3
"""check.py <property>: the check of one property (see DESIGN.md).

1. Every contract the property rests on is verified against the current source
   of the library; the obligations go to the solvers.
2. The concrete-input searcher of the property runs the real code (sanitized).
A failing input, or an obligation that is not discharged, is a violation."""
import json, os, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from vf import falsify, proofs, scope

SEARCH = dict(quick=8., thorough=120.)
EXTENDED = dict(quick=70., thorough=150.)


def write_json(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.%d' % os.getpid()
    with open(tmp, 'w') as f:
        json.dump(data, f, indent=1)
    os.replace(tmp, path)


def known_findings(prop):
    with open(os.path.join(VERIF, 'KNOWN_FINDINGS.md')) as f:
        return [l.strip() for l in f if l.startswith('finding: property=%s ' % prop)]


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.searches = []
        self.proof = None
        self.note = []

    def prove(self):
        thorough = self.tier == 'thorough'
        r = proofs.run(self.prop, thorough=thorough, budget=400 if thorough else 200, timeout=40 if thorough else 20)
        if r['error']:
            print(r['error'])
            return None
        self.proof = r
        self.sum = s = proofs.summary(r)
        print('%s: %d of %d obligations discharged in %d functions, %.1f s (solvers %.1f s)' % (
            self.prop, s['discharged'], s['obligations'], len(s['functions']), r['wall_s'], s['solver_s']))
        for e in s['errors']:
            print('  not verified: ' + e)
        for j in s['open']:
            print('  OPEN %s (%s, %s) at %s' % (j['name'], j['status'], j['backend'], j['loc']))
        for v in s['vacuous']:
            print('  VACUOUS ' + v)
        return s

    def search(self, seconds, seed):
        binary, log = falsify.build(self.prop)
        name = self.prop
        if binary is None:
            # the searcher reaches into the library: fall back to the public interface
            self.note.append('searcher of %s does not compile against this source; searched through the public interface instead' % self.prop)
            name = 'C01'
            binary, log = falsify.build(name)
            if binary is None:
                print(log[-2000:])
                self.note.append('no searcher compiles')
                return None
        try:
            r = falsify.run(binary, seed, seconds)
        except Exception as e:
            self.note.append('searcher did not finish: %s' % e)
            return None
        r['searcher'] = name
        self.searches.append(r)
        if r['fail'] and name != self.prop:
            self.note.append('public-interface searcher reported: ' + r['fail']['why'])
        return r

    def violation(self, text, failing):
        rp = os.path.join(VERIF, 'evidence', 'replay-%s.txt' % self.prop)
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        with open(rp, 'w') as f:
            f.write(text)
        print('VIOLATION property=%s replay=%s%s' % (self.prop, rp, '' if failing else ' no-failing-input-found'))

    def open_text(self):
        out = []
        if self.proof:
            for j in self.sum['open']:
                out.append('failed obligation: %s\n  at %s\n  solver answer: %s (%s)' % (j['name'], j['loc'], j['status'], j['backend']))
                if j['path'] and os.path.exists(j['path']):
                    with open(j['path']) as f:
                        t = f.read()
                    if len(t) < 200000:
                        p = os.path.join(VERIF, 'evidence', 'obligations', self.prop, os.path.basename(os.path.dirname(j['path'])) + '-' + os.path.basename(j['path']))
                        os.makedirs(os.path.dirname(p), exist_ok=True)
                        with open(p, 'w') as f:
                            f.write(t)
                        out[-1] += '\n  obligation: ' + p
            out += ['failed obligation: vacuity: ' + v for v in self.sum['vacuous']]
        return '\n'.join(out) + '\n' if out else ''

    def evidence(self, violations):
        sc = scope.SCOPE[self.prop]
        cases = sum(int(r['stats'].get('cases', 0)) for r in self.searches)
        distinct = max([int(r['stats'].get('distinct', 0)) for r in self.searches] or [0])
        cov = {}
        level = sc['level']
        s = self.sum if self.proof else None
        whole = s is not None and not s['errors'] and not s['open']
        if s is not None:
            cov.update(obligations=s['obligations'], discharged=s['discharged'], checker_cmd='python3-vt check.py ' + self.prop,
                       trusted_base=scope.TRUSTED + s['trusted'], backends=s['backends'], solver_s=s['solver_s'],
                       functions_under_contract=s['functions'], inlined=s['inlined'], not_verified=s['errors'],
                       open_obligations=[j['name'] for j in s['open']], vacuity_failures=s['vacuous'])
        if level == 'proof' and not whole:
            level = 'other'
        if level == 'other':
            cov['explanation'] = (('%d of %d obligations of %d functions discharged on this run. ' % (s['discharged'], s['obligations'], len(s['functions'])))
                                  if s is not None else 'No obligation could be generated on this run. ') + sc['note']
        cov['bounded_search'] = dict(evaluations=cases, distinct_nontrivial=distinct, seconds=round(sum(r['wall'] for r in self.searches), 1),
                                     rule='random meshes and options drawn by harness/%s.cpp (bound: its generator); distinct by signature of the case' % self.prop,
                                     samples=[x for r in self.searches for x in r['samples']][:5])
        if level == 'exploration':
            cov.update(evaluations=cases, distinct_nontrivial=distinct, rule=cov['bounded_search']['rule'], samples=cov['bounded_search']['samples'])
        write_json(os.path.join(VERIF, 'evidence', self.prop + '.json'),
                   dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                        assumptions=scope.ASSUMPTIONS + sc.get('assumptions', []) + self.note,
                        wall_s=round(time.time() - self.t0, 2), violations=violations))

    def run(self):
        s = self.prove()
        for k in known_findings(self.prop):
            print('KNOWN-FINDING: ' + k[len('finding: '):])
        bad = s is not None and (s['open'] or s['vacuous'])
        r = self.search(SEARCH[self.tier], self.seed)
        if not (r and r['fail']) and (bad or s is None or s['errors']):
            # look harder before answering without an input
            r2 = self.search(EXTENDED[self.tier] if bad else EXTENDED[self.tier] / 2, self.seed + 1000)
            r = r2 or r
        if r:
            print(r['out'][:1500])
        if r and r['fail'] and (r['searcher'] == self.prop or bad):
            self.violation('rerun on the real code: %s --only %s\nfailing case %s: %s\n%s\n%s' % (
                r['cmd'], r['fail']['case'], r['fail']['case'], r['fail']['why'], self.open_text(), r['out']), True)
            self.evidence(1)
            return 1
        if bad:
            self.violation(self.open_text() + '\nno failing input found in %d cases\n' % sum(int(x['stats'].get('cases', 0)) for x in self.searches), False)
            self.evidence(1)
            return 1
        if s is None and r is None:
            print('ERROR: neither the verifier nor a searcher can read this source')
            return 2
        if s is not None and s['errors']:
            print('BOUNDED: the functions listed above were not verified on this source; the searcher found nothing')
        for n in self.note:
            print('note: ' + n)
        self.evidence(0)
        return 0


if __name__ == '__main__':
    c = Check(sys.argv[1])
    try:
        rc = c.run()
    finally:
        if c.proof:
            proofs.clean(c.proof)
    sys.exit(rc)
