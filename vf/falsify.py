"""Builds and runs the concrete-input searchers of /verif/harness.

They execute the real headers of /repo under sanitizers.  They serve two ends:
they look for a concrete failing input when an obligation is not discharged,
and they are the (bounded) stand-in for code no contract covers yet."""
import hashlib, os, re, shutil, subprocess, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('COMMA_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CXX = ['clang++', '-std=c++17', '-O1', '-g1', '-w', '-fsanitize=address,undefined',
       '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS']


def headers():
    d = os.path.join(REPO, 'include', 'CoMMA')
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if os.path.isfile(os.path.join(d, f))]


def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode())
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def config_dir():
    """Own copy of the generated configuration header, from the template in /repo."""
    src = os.path.join(REPO, 'config_files', 'CoMMAConfig.h.in')
    with open(src) as f:
        t = f.read()
    sub = {'INDEX_T': 'unsigned long', 'REAL_T': 'double', 'INT_T': 'int'}
    t = re.sub(r'@(\w+)@', lambda m: sub.get(m.group(1), '0'), t)
    t = re.sub(r'#cmakedefine\s+(\w+).*', r'/* #undef \1 */', t)
    d = os.path.join(BUILD, 'cfg', hashlib.sha256(t.encode()).hexdigest()[:16])
    f = os.path.join(d, 'CoMMA', 'CoMMAConfig.h')
    if not os.path.exists(f):
        os.makedirs(os.path.dirname(f), exist_ok=True)
        tmp = f + '.%d' % os.getpid()
        with open(tmp, 'w') as o:
            o.write(t)
        os.replace(tmp, f)
    return d


def build(prop):
    """Compiles the searcher of one property; returns (binary or None, log)."""
    hd = os.path.join(VERIF, 'harness')
    cfg = config_dir()
    src = [os.path.join(hd, f) for f in ('common.h', 'lines.h', prop + '.cpp')]
    key = digest(headers() + src, ' '.join(CXX) + cfg)
    out = os.path.join(BUILD, 'h', '%s-%s' % (prop, key))
    if os.path.exists(out):
        return out, ''
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + '.tmp%d' % os.getpid()
    r = subprocess.run(CXX + ['-I' + os.path.join(REPO, 'include'), '-I' + cfg, src[2], '-o', tmp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        if os.path.exists(tmp):
            os.remove(tmp)
        return None, r.stdout
    for f in os.listdir(os.path.dirname(out)):
        if f.startswith(prop + '-') and '.tmp' not in f:
            try:
                os.remove(os.path.join(os.path.dirname(out), f))
            except FileNotFoundError:
                pass
    os.replace(tmp, out)
    return out, ''


def run(binary, seed, seconds, jobs=8, only=None):
    cmd = [binary, '--seed', str(seed), '--time', str(seconds), '--jobs', str(jobs)]
    if only is not None:
        cmd += ['--only', str(only)]
    t = time.time()
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=1')
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                       env=env, timeout=seconds + 200)
    res = dict(cmd=' '.join(cmd), rc=r.returncode, out=r.stdout, wall=time.time() - t, stats={})
    m = re.search(r'STATS (.*)', r.stdout)
    if m:
        res['stats'] = dict(kv.split('=', 1) for kv in m.group(1).split())
    m = re.search(r'FAIL prop=\S+ case=(\S+) :: (.*)', r.stdout)
    res['fail'] = None
    if r.returncode == 1 and m:
        res['fail'] = dict(case=m.group(1), why=m.group(2))
    res['samples'] = re.findall(r'^SAMPLE (.*)', r.stdout, re.M)
    return res
