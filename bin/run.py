"""Builds the driver from /repo, runs cases through it and checks the traces with TLC."""
import json, os, re, subprocess, sys, tempfile, time, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
WORKERS = 8
CHEAP = ('TraceEnd', 'TraceConStream', 'TraceConc', 'TraceStream')    # specifications that do not evaluate rules
RACE = 66      # exit status of a driver in which the race detector found something

INCOMPLETE = []     # why a part of the cases was not decided; what was found in the others counts nevertheless

class CheckError(Exception):
    """the check itself could not be done"""

def goenv(race):
    e = dict(os.environ)
    e.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', GOTELEMETRY='off',
             CGO_ENABLED='1' if race else '0')
    e.setdefault('HOME', '/root')
    return e

def build(tmp, race=False):
    """the driver, linked with /repo as it is now"""
    out = os.path.join(tmp, 'driver-race' if race else 'driver')
    src = os.path.join(tmp, 'driver-src')
    if not os.path.isdir(src):   # the go command may rewrite go.mod: work on a copy
        shutil.copytree(os.path.join(VERIF, 'driver'), src)
        with open(os.path.join(src, 'overlay.json'), 'w') as f:
            json.dump({'Replace': {'/repo/zz_verif_export.go': os.path.join(src, 'overlay', 'export.go')}}, f)
    err = ''
    for how in (['-overlay', 'overlay.json'], ['-tags', 'own']):   # own: without the overlay, see prepend_own.go
        cmd = ['go', 'build'] + how + (['-race'] if race else []) + ['-o', out, '.']
        p = subprocess.run(cmd, cwd=src, env=goenv(race), capture_output=True, text=True)
        if p.returncode == 0:
            return out
        err += p.stderr[-2000:]
    raise CheckError('driver does not build:\n' + err)

def build_command(tmp):
    out = os.path.join(tmp, 'xbnf-command')
    p = subprocess.run(['go', 'build', '-o', out, './main'], cwd='/repo', env=goenv(False), capture_output=True, text=True)
    if p.returncode != 0:
        raise CheckError('command does not build:\n' + p.stderr[-3000:])
    return out

def drive(driver, lines, tmp, tag, env=None, timeout=None, max_crashes=8, wall=600):
    """what the driver makes of the lines: (observed lines, crashed lines)"""
    cases, out = os.path.join(tmp, tag + '.cases'), os.path.join(tmp, tag + '.obs')
    with open(cases, 'w') as f:
        for l in lines:
            f.write(json.dumps(l) + '\n')
    e = dict(os.environ)
    e['GOTRACEBACK'] = 'single'
    e['GORACE'] = 'halt_on_error=1 exitcode=%d' % RACE
    if timeout:
        e['DRIVER_TIMEOUT'] = str(timeout)
    e.update(env or {})
    crashes = 0
    skip = 0
    end = time.time() + wall
    while True:
        err = os.path.join(tmp, tag + '.err')
        with open(err, 'w') as ef:
            try:
                p = subprocess.run([driver, cases, out, str(skip)], env=e, stderr=ef, stdout=subprocess.DEVNULL,
                                   timeout=max(1, end - time.time()))
                rc = p.returncode
            except subprocess.TimeoutExpired:
                raise CheckError('driver %s takes too long' % tag)
        n = 0
        if os.path.exists(out):
            with open(out, 'rb') as f:
                data = f.read()
            if data and not data.endswith(b'\n'):      # a line cut off by a crash
                data = data[:data.rfind(b'\n') + 1]
                with open(out, 'wb') as f:
                    f.write(data)
            n = data.count(b'\n')
        if rc == 0:
            if n != len(lines):
                raise CheckError('driver %s wrote %d of %d lines' % (tag, n, len(lines)))
            break
        with open(err, errors='replace') as f:
            msg = f.read()
        if rc == 4 or rc < 0 and rc != -6 or n > len(lines):   # the driver itself, or ended from outside
            raise CheckError('driver %s ended with %d: %s' % (tag, rc, msg[-2000:]))
        crashes += 1
        if rc == 3 and json.loads(data.splitlines()[-1]).get('crash', '').startswith('hang'):
            crashes += max_crashes // 2       # waiting for it took long
        if rc != 3:    # the runtime ended it in the middle of line n
            if n >= len(lines):
                raise CheckError('driver %s ended with %d: %s' % (tag, rc, msg[-2000:]))
            l = dict(lines[n])
            if rc == RACE:
                l['crash'] = 'race: ' + ' / '.join(x.strip() for x in msg.strip().splitlines()[1:14])[:1200]
            else:
                l['crash'] = 'fatal: ' + ' / '.join(msg.strip().splitlines()[:3])[:500]
            with open(out, 'a') as f:
                f.write(json.dumps(l) + '\n')
            n += 1
        if crashes >= max_crashes:
            break
        skip = n
        if skip >= len(lines):
            break
    obs, crashed = [], []
    with open(out) as f:
        for s in f:
            l = json.loads(s)
            (crashed if l.get('crash') else obs).append(l)
    return obs, crashed

MISMATCH = re.compile(r'<<\s*"MISMATCH",\s*"([^"]*)",\s*(-?\d+),\s*\{([^}]*)\}\s*>>')
DONE = re.compile(r'<<\s*"DONE",\s*(\d+)\s*>>')
STATES = re.compile(r'([\d,]+) states generated, ([\d,]+) distinct states found')

def tlc(module, cfg, tmp, tag, env=None, workers=1, wall=800, args=(), xss='512m', xmx='3g'):
    """runs TLC: (exit status, output)"""
    meta = os.path.join(tmp, tag + '.meta')
    e = dict(os.environ)
    e.update(env or {})
    e.pop('JAVA_TOOL_OPTIONS', None)
    cmd = ['java', '-Xss' + xss, '-Xmx' + xmx, '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC',
           '-Djava.io.tmpdir=' + tmp, '-cp', JAR, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta,
           '-noGenerateSpecTE', '-config', cfg] + list(args) + [module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, errors='replace', timeout=wall)
    except subprocess.TimeoutExpired:
        raise CheckError('TLC takes too long on ' + tag)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout + p.stderr

def counts(out):
    m = STATES.findall(out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(d.replace(',', '')), int(g.replace(',', ''))

GENERATED = []      # models used to generate cases: (module, states, transitions)

def generate(module, big):
    """what a specification prints as GEN: behaviours to be gone with the real code; its invariants hold too"""
    cfg = module + ('_big' if big and os.path.exists(os.path.join(SPEC, module + '_big.cfg')) else '') + '.cfg'
    d = tempfile.mkdtemp(prefix='verif-gen-')
    try:
        rc, out = tlc(module.split('-')[0] + '.tla', cfg, d, module, args=('-deadlock',))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if rc != 0:
        raise CheckError('model %s (%s) does not satisfy its properties (status %d): %s' % (module, cfg, rc, out[-2500:]))
    GENERATED.append((module,) + counts(out))
    return [json.loads(x) for x in sorted(json.loads(l)[4:] for l in out.splitlines() if l.startswith('"GEN '))]

def validate(module, cfg, lines, tmp, tag):
    """checks observed lines with a trace specification: (mismatches, states, transitions)"""
    if not lines:
        return [], 0, 0
    trace = os.path.join(tmp, tag + '.trace')
    with open(trace, 'w') as f:
        for l in lines:
            f.write(json.dumps(l) + '\n')
    rc, out = tlc(module, cfg, tmp, tag, env={'TRACE': trace})
    d = DONE.findall(out)
    if rc != 0 or not d or int(d[-1]) != len(lines):
        keep = os.path.join(VERIF, 'evidence', 'tlc-failure.log')
        os.makedirs(os.path.dirname(keep), exist_ok=True)
        with open(keep, 'w') as f:
            f.write(out)
        INCOMPLETE.append('TLC did not complete %s (status %d, see %s): %s' % (tag, rc, keep, out[-1500:]))
    os.remove(trace)
    s, t = counts(out)
    return [(i, int(c), set(re.findall(r'"([^"]+)"', fs))) for i, c, fs in MISMATCH.findall(out)], s, t

class Outcome:
    def __init__(self):
        self.mismatches = []    # (line observed, call, facets)
        self.crashes = []       # lines
        self.states = self.transitions = self.traces = self.calls = self.slow = 0
        self.stats = {}
        self.samples = []
    def add(self, o):
        self.mismatches += o.mismatches
        self.crashes += o.crashes
        for k in ('states', 'transitions', 'traces', 'calls', 'slow'):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for k, v in o.stats.items():
            self.stats[k] = self.stats.get(k, 0) + v
        self.samples += o.samples[:1]

def strip(l):
    """an observed line without its observations"""
    l = {k: v for k, v in l.items() if k not in ('oks', 'valid', 'ms', 'crash', 'hist', 'lvs')}
    if 'calls' in l:
        l['calls'] = [{k: v for k, v in c.items() if k not in ('o', 'at', 'ok')} for c in l['calls']]
    return l

def shard(driver, module, lines, tmp, tag, slow_ms=400, env=None, timeout=None):
    o = Outcome()
    obs, o.crashes = drive(driver, lines, tmp, tag, env=env, timeout=timeout)
    keep = []
    for l in obs:
        if l.get('ms', 0) > slow_ms and module not in CHEAP:     # evaluation is exponential in few of the random grammars
            o.slow += 1
        else:
            keep.append(l)
    ms, o.states, o.transitions = validate(module + '.tla', module + '.cfg', keep, tmp, tag)
    byid = {l['id']: l for l in keep}
    o.mismatches = [(byid[i], c, fs) for i, c, fs in ms]
    o.traces = len(keep)
    for l in keep:
        for c in l.get('calls', []):
            o.calls += 1
            ob = c.get('o', {})
            k = c.get('op', '?') + ('' if not isinstance(ob, dict) or 'ok' not in ob else '/match' if ob['ok'] else '/nomatch')
            o.stats[k] = o.stats.get(k, 0) + 1
    o.samples = keep[:1]
    return o

def run_all(driver, jobs, tmp, **kw):
    """jobs: (module, lines); each is split in shards"""
    total = Outcome()
    tasks = []
    with ThreadPoolExecutor(WORKERS) as ex:
        for j, (module, lines) in enumerate(jobs):
            n = max(1, min(WORKERS, (len(lines) + 19) // 20))
            for s in range(n):
                part = lines[s::n]
                tasks.append(ex.submit(shard, driver, module, part, tmp, 'j%ds%d' % (j, s), **kw))
        for t in tasks:
            try:
                total.add(t.result())
            except CheckError as e:
                INCOMPLETE.append(str(e))
    return total
