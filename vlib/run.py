"""Runs cases in the driver, has TLC judge the observations, and reports."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
from . import data as D

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = 8


class ToolError(Exception):
    """the machinery failed; says nothing about the code"""


def env_seed():
    return int(os.environ.get('VERIF_SEED', '1'))


class Work:
    """A scratch directory with the compiled parts."""

    def __init__(self):
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix='verif-'))
        self.tmp = os.path.join(self.dir, 's')
        os.mkdir(self.tmp)
        self.n = 0
        self.lock = threading.Lock()
        self.java_ready = False
        self.drivers = {}
        self.stats = {'states': 0, 'transitions': 0, 'tlc_runs': 0, 'not_run': 0}
        self.dead = 0
        self.t0 = time.time()

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def note(self, c):
        if any(o.get('died') for o in c['obs']):
            with self.lock:
                self.dead += 1

    def enough(self):
        """calls that end the process or do not end are violations: after some
        of them, or when time runs short, the cases left are not run"""
        return self.dead >= 4 or time.time() - self.t0 > RUN_SECONDS

    def name(self, prefix):
        with self.lock:
            self.n += 1
            return '%s%d' % (prefix, self.n)

    def driver(self, race=False):
        if race in self.drivers:
            return self.drivers[race]
        out = os.path.join(self.dir, 'driver-race' if race else 'driver')
        src = os.path.join(self.dir, 'harness')
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(VERIF, 'harness'), src)
        env = dict(os.environ, GOFLAGS='-mod=mod', GOTOOLCHAIN='local', GOPROXY='off', GOSUMDB='off', GOWORK='off')
        if race:
            env['CGO_ENABLED'] = '1'
        cmd = ['go', 'build'] + (['-race'] if race else []) + ['-o', out, '.']
        p = subprocess.run(cmd, cwd=src, env=env, capture_output=True, text=True)
        if p.returncode != 0:
            raise ToolError('go build failed:\n' + p.stdout + p.stderr)
        self.drivers[race] = out
        return out

    def spec(self):
        """a copy of the specification with the compiled module override"""
        d = os.path.join(self.dir, 'spec')
        with self.lock:
            if not self.java_ready:
                shutil.copytree(SPEC, d)
                src = [os.path.join(d, 'java', f) for f in sorted(os.listdir(os.path.join(d, 'java')))]
                p = subprocess.run(['javac', '-cp', CP, '-d', d] + src, capture_output=True, text=True)
                if p.returncode != 0:
                    raise ToolError('javac failed:\n' + p.stdout + p.stderr)
                self.java_ready = True
        return d

    def tlc(self, module, cfg=None, env=None, workers=CORES, timeout=800, extra=(), stack='256m', heap='6g'):
        """runs TLC; returns its output; raises ToolError when TLC itself fails"""
        d = self.spec()
        meta = os.path.join(self.dir, self.name('meta'))
        cmd = ['java', '-Xss' + stack, '-Xmx' + heap, '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + self.tmp, '-Dtlc2.TLC.stopAfter=%d' % (timeout + 30),
               '-cp', d + ':' + CP, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
               '-config', cfg or module + '.cfg'] + list(extra) + [module + '.tla']
        e = dict(os.environ, **(env or {}))
        try:
            p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError('TLC timed out on ' + module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = p.stdout.decode('utf-8', 'replace').replace('\\"', '"').replace('\\\\', '\\')
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        if p.returncode != 0:
            out = '\n'.join(x for x in out.split('\n') if not x.startswith(('Parsing file', 'Semantic processing', 'Loading ', '"<<"G"', '"<<"S"')))
            raise ToolError('TLC failed on %s (%d):\n%s\n%s' % (module, p.returncode, (out[:6000] if len(out) < 9000 else (out[out.find("Error:"):][:6000] + out[-2500:])),
                                                               p.stderr.decode('utf-8', 'replace')[-2000:]))
        with self.lock:
            self.stats['tlc_runs'] += 1
            if m:
                self.stats['transitions'] += int(m[-1][0])
                self.stats['states'] += int(m[-1][1])
        return out


# ---------------------------------------------------------------------------
# cases

CHK = {'lines': False, 'paths': False, 'has': False, 'loose': False}


def case(steps, fs=(), chk=(), note='', iso=None, data_root=None):
    """iso: runs in a process of its own (needed when it loads or registers)"""
    fs = [dict(p=p, c=c, kind=k) for p, c, k in fs]
    if iso is None:
        iso = bool(fs) or any(s['op'] in ('load', 'register', 'par') for s in steps)
    return {'steps': list(steps), 'fs': fs, 'chk': dict(CHK, **{k: True for k in chk}), 'note': note, 'iso': iso,
            'root': b''}


def evalstr(src, data=(), nil=False):
    return {'op': 'evalstr', 'src': src, 'data': list(data), 'nil': nil}


def step_go(s):
    o = {'op': s['op']}
    for k in ('src', 'file', 'name', 'tag'):
        if k in s:
            o[k] = s[k].hex()
    for k in ('set', 'ty', 'beh', 'nil', 'go', 'rounds'):
        if k in s:
            o[k] = s[k]
    if 'data' in s:
        o['data'] = D.go_map(s['data'])
    if 'val' in s and s['val'] is not None:
        o['val'] = D.go(s['val'])
    if 'opt' in s:
        o['opt'] = {k: (v.hex() if isinstance(v, bytes) else v) for k, v in s['opt'].items()}
    if 'calls' in s:
        o['calls'] = [step_go(c) for c in s['calls']]
    if 'fs' in s:
        o['fs'] = [{'p': f['p'].hex(), 'c': f['c'].hex(), 'kind': f['kind']} for f in s['fs']]
    return o


def files_tla(fs):
    return [{'p': list(f['p']), 'c': list(f['c']), 'kind': 'file' if f['kind'] == 'link' else f['kind']} for f in fs]


def step_tla(s):
    # id tells apart the calls whose data differ only in what the
    # specification does not look at (the Go type of a value)
    o = {'op': s['op'], 'id': hashlib.md5(json.dumps(step_go(s), sort_keys=True).encode()).hexdigest()[:12]}
    for k in ('src', 'file', 'name', 'tag'):
        if k in s:
            o[k] = list(s[k])
    for k in ('set', 'ty', 'beh'):
        if k in s:
            o[k] = s[k]
    if 'data' in s:
        o['data'] = D.tla_map(s['data'])
    if s['op'] == 'register':
        o['val'] = D.tla(s['val'] or D.nil_())
    if 'opt' in s:
        o['opt'] = {k: (list(v) if isinstance(v, bytes) else v) for k, v in s['opt'].items()}
    if 'calls' in s:
        o['calls'] = [step_tla(c) for c in s['calls']]
    if 'fs' in s:
        o['fs'] = files_tla(s['fs'])
    return o


def rooted(c):
    """the steps with $ROOT replaced"""
    def sub(v):
        if isinstance(v, bytes):
            return v.replace(b'$ROOT', c['root'])
        if isinstance(v, dict):
            return {k: sub(x) for k, x in v.items()}
        if isinstance(v, list):
            return [sub(x) for x in v]
        return v
    return [{k: sub(v) if k in ('file', 'opt', 'calls') else v for k, v in s.items()} for s in c['steps']]


def case_go(c, cid):
    c = dict(c, steps=rooted(c))
    return json.dumps({'id': cid, 'root': c['root'].hex(),
                       'fs': [{'p': f['p'].hex(), 'c': f['c'].hex(), 'kind': f['kind']} for f in c['fs']],
                       'steps': [step_go(s) for s in c['steps']]})


DEAD = {'ok': False, 'out': '', 'line': 0, 'path': '', 'msg': '', 'body': '', 'died': True, 'odd': False, 'same': True}


def obs_tla(o, big=False):
    r = {k: list(bytes.fromhex(o[k])) for k in ('out', 'path', 'msg', 'body')}
    r.update({k: o[k] for k in ('ok', 'line', 'died', 'odd', 'same')})
    r['toks'] = [{'t': t['t'], 'lit': list(bytes.fromhex(t['lit'])), 'p': t['p']} for t in o.get('toks') or []]
    r['par'] = [[obs_tla(x) for x in xs] for xs in o.get('par') or []]
    return r


def case_tla(c):
    fs = files_tla(c['fs'])
    steps = [step_tla(s) for s in rooted(c)]
    if c['chk']['loose']:
        for s in steps:
            if 'src' in s and len(s['src']) > 3000:
                s['src'] = []
        for f in fs:
            if len(f['c']) > 3000:
                f['c'] = []
    return {'root': list(c['root']), 'fs': fs, 'steps': steps, 'chk': c['chk'],
            'obs': [obs_tla(o) for o in c['obs']],
            'more': [[obs_tla(o) for o in m] for m in c.get('more', [])]}


# ---------------------------------------------------------------------------
# running

STEP_TIMEOUT_MS = 20000
RUN_SECONDS = 400 if os.environ.get('VERIF_TIER', 'quick') == 'quick' else 20000


def _spawn(work, lines, race=False, verbose=False, timeout_ms=None):
    env = dict(os.environ, STEP_TIMEOUT_MS=str(timeout_ms or STEP_TIMEOUT_MS), GOMAXPROCS='8' if race else '2',
               GOMEMLIMIT='3GiB')
    if race:
        env['GORACE'] = 'halt_on_error=1 exitcode=66'
    if verbose:
        env['DRIVER_VERBOSE'] = '1'
    home = os.path.join(work.dir, 'home')
    os.makedirs(home, exist_ok=True)
    cmd = [work.driver(race)]
    if not race:   # an endless allocation ends the driver, not the sandbox
        cmd = ['bash', '-c', 'ulimit -v 8000000; exec "$0"'] + cmd
    p = subprocess.run(cmd, input=('\n'.join(lines) + '\n').encode(), capture_output=True, cwd=home, env=env)
    err = p.stderr.decode('utf-8', 'replace')
    if 'DRIVER-ERROR' in err:
        raise ToolError('driver: ' + err[-2000:])
    res = {}
    for ln in p.stdout.decode().split('\n'):
        if ln.strip():
            try:
                r = json.loads(ln)
            except ValueError:
                continue
            res[r['id']] = r['obs']
    return p.returncode, res, err


def _why(rc, err):
    for w in ('DRIVER-HANG', 'DATA RACE', 'fatal error:', 'panic:', 'stack overflow'):
        if w in err:
            i = err.index(w)
            return err[i:i + 1500]
    return 'the process ended with status %d: %s' % (rc, err[-500:])


def run_alone(work, c, race=False):
    """observations of one case in a process of its own"""
    if c['fs'] or c.get('needs_root'):
        if not c['root']:
            c['root'] = os.path.join(work.tmp, work.name('d')).encode()
        shutil.rmtree(c['root'].decode(), ignore_errors=True)
    try:
        rc, res, err = _spawn(work, [case_go(c, 'x')], race=race, verbose=True)
        if 'x' in res:
            return res['x']
        if rc == 0:
            raise ToolError('the driver gave no answer: ' + err[-1000:])
        at = re.findall(r'DRIVER-AT x (\d+)', err)
        if not at:
            raise ToolError('the driver did not start (%d): %s' % (rc, err[-1000:]))
        k = int(at[-1])
        if k == 0:
            prefix = []
        else:
            part = dict(c, steps=c['steps'][:k])
            shutil.rmtree(c['root'].decode(), ignore_errors=True) if c['root'] else None
            _, res2, _ = _spawn(work, [case_go(part, 'x')], race=race)
            prefix = res2.get('x')
            if prefix is None:
                raise ToolError('a step that passed before ended the process: ' + err[-1000:])
        # later steps are not judged: the first rejected step ends a case
        return prefix + [dict(DEAD, why=_why(rc, err))] * (len(c['steps']) - k)
    finally:
        if c['root']:
            shutil.rmtree(c['root'].decode(), ignore_errors=True)


def run_batch(work, cs):
    """observations of stateless cases that share a process; a case that ends
    the process is run alone and the rest goes on in a new process"""
    i = 0
    while i < len(cs):
        if work.enough():
            return
        rc, res, err = _spawn(work, [case_go(c, str(k)) for k, c in enumerate(cs[i:], i)])
        j = i
        while j < len(cs) and str(j) in res:
            cs[j]['obs'] = res[str(j)]
            j += 1
        if j < len(cs):
            if rc == 0:
                raise ToolError('the driver gave no answer: ' + err[-1000:])
            cs[j]['obs'] = run_alone(work, cs[j])
            work.note(cs[j])
            j += 1
        i = j


def run_cases(work, cs, race=False, repeat=0):
    work.driver(race)
    jobs = []
    with ThreadPoolExecutor(CORES) as ex:
        shared = [c for c in cs if not c['iso']]
        size = max(1, min(200, (len(shared) + CORES - 1) // CORES))
        for i in range(0, len(shared), size):
            jobs.append(ex.submit(run_batch, work, shared[i:i + size]))

        def one(c):
            if work.enough():
                return
            c['obs'] = run_alone(work, c, race)
            work.note(c)
            c['more'] = [run_alone(work, c, race) for _ in range(repeat)]
        for c in cs:
            if c['iso']:
                jobs.append(ex.submit(one, c))
        for j in jobs:
            j.result()
    left = [c for c in cs if 'obs' not in c]
    work.stats['not_run'] += len(left)
    cs[:] = [c for c in cs if 'obs' in c]


# ---------------------------------------------------------------------------
# judging

class Verdict:
    def __init__(self, c, step, kind, expected):
        self.case, self.step, self.kind, self.expected = c, step, kind, expected


def judge(work, cs, chunk=3000, timeout=800):
    """has TLC judge the observations; returns the rejected cases and the
    numbers of steps by what the specification expected of them"""
    rejected, kinds = [], {}
    for base in range(0, len(cs), chunk):
        part = cs[base:base + chunk]
        f = os.path.join(work.dir, work.name('cases') + '.json')
        with open(f, 'w') as h:
            json.dump([case_tla(c) for c in part], h, separators=(',', ':'))
        out = work.tlc('CheckCalls', env={'CASES': f}, stack="900m", timeout=timeout)
        os.unlink(f)
        done = {}
        for m in re.finditer(r'<<"J", (\d+), (\d+), "(\w+)", "(\w+)">>', out):
            c, l, v, e = int(m[1]) - 1, int(m[2]) - 1, m[3], m[4]
            done[c] = max(done.get(c, -1), l)
            kinds[e] = kinds.get(e, 0) + 1
            if v != 'fit':
                x = re.search(r'^"<<"X", %d, %d, (.*)>>"$' % (c + 1, l + 1), out, re.M)
                rejected.append(Verdict(part[c], l, v, x[1].strip()[:3000] if x else ''))
                done[c] = len(part[c]['steps']) - 1
        for i, c in enumerate(part):
            if done.get(i, -1) != len(c['steps']) - 1:
                raise ToolError('TLC did not judge case %d of %d (%s): %s' % (i, len(part), c['note'], out[-2500:]))
    return rejected, kinds
