"""Runs of the command, in scratch directories."""
import itertools, os, random, re, shutil, subprocess, json
from concurrent.futures import ThreadPoolExecutor
import run
from run import CheckError
from gen import *
from work import codes, roots, parse_text, pick
from work2 import sample_texts
from work3 import HN, broken, later_only

def s(cs):
    return ''.join(map(chr, cs))

def no_surrogates(cs):
    return [c for c in cs if not 0xD800 <= c <= 0xDFFF and c]

class Case:
    def __init__(self, i):
        self.id, self.args, self.files = i, [], []     # args: (flag, value); files: (path, text or None)
    def line(self):
        return dict(id=self.id, kind='cli', args=[dict(f=f, v=v if isinstance(v, list) else codes(v)) for f, v in self.args],
                    fs=[dict(p=codes(p), ok=t is not None, tx=t or []) for p, t in self.files])

def argv(line, rnd):
    """the arguments as they are written"""
    out = []
    for a in line['args']:
        d = '--' if rnd.random() < .2 else '-'
        if a['f'] == 'type':
            out.append(d + 'showNodeType' + ('' if a['v'] == [1] and rnd.random() < .7 else '=true' if a['v'] == [1] else '=false'))
        elif a['f'] in ('stray', 'unknown'):
            out.append(s(a['v']))
        elif a['f'] == 'help':
            out.append(d + 'help')
        elif a['f'] == 'missing':
            out.append(d + s(a['v']))
        elif rnd.random() < .3:
            out.append(d + a['f'] + '=' + s(a['v']))
        else:
            out += [d + a['f'], s(a['v'])]
    return out

def shuffle_args(rnd, groups):
    """interleaves lists, each keeping its order"""
    groups = [list(g) for g in groups if g]
    out = []
    while groups:
        g = rnd.choice(groups)
        out.append(g.pop(0))
        groups = [x for x in groups if x]
    return out

def framed(rnd, tx):
    """now and then with something at its start or end that tools like to add or drop"""
    x = rnd.random()
    if x < .05:
        return [0xFEFF] + tx
    if x < .15:
        return tx + rnd.choice([[10], [13, 10], [13], [32], [0], [26], [10, 10], [0xFFFD], [0xFEFF], [11]])
    return tx

def raw(cs):
    """as bytes; every other U+FFFD is written as a byte that is no UTF-8, which stands for it"""
    return b''.join(b'\xff\x80\xc0'[i // 2 % 3:][:1] if c == 0xFFFD and i % 2 == 0 else chr(c).encode('utf-8') for i, c in enumerate(cs))

def case(i, rnd):
    c = Case(i)
    g = Gen(rnd, dict(ref=8, cat=6, rep=4), ann=rnd.choice([.05, .15, .3]), recurse=.1, undefined=.01, plain=rnd.random() < .6, rules=4,
            alphabet=rnd.choice([codes('ab'), codes('ab '), codes('abx'), codes('a\n'), codes("<>-="), [97, 0x1D538, 32], [0xE9, 0x4E2D, 97], codes('"\'\\'), [97, 13, 10], [97, 0xFFFD, 98], [97, 0xFEFF, 32], codes('a%s')]))
    g.grammar(names=sorted(rnd.sample(HN, rnd.randint(1, 4)), key=HN.index))
    defs = g.defs()
    split = rnd.choice([0, 0, len(defs), rnd.randint(0, len(defs))])
    infile, inargs = defs[:split], defs[split:]
    if rnd.random() < .3:
        infile, inargs = defs[len(defs) - split:], defs[:len(defs) - split]
    if rnd.random() < .06:
        inargs.append(rnd.choice(defs))
    if rnd.random() < .1 and (infile or inargs):
        x = rnd.choice([q for q in (infile, inargs) if q])
        j = rnd.randrange(len(x))
        nm, body = x[j].split('=', 1)
        b = broken(rnd, body)
        if later_only(nm.strip(), b):
            x[j] = nm + '=' + b
    inargs = [d for d in inargs if '\x00' not in d]
    if rnd.random() < .05:
        inargs.insert(rnd.randint(0, len(inargs)), rnd.choice(['', 'x', '=', "1x='a'", "Zz='a", '-rule', '-text']))
    grp = []
    if infile or rnd.random() < .1:
        ls = []
        for d in infile:
            if rnd.random() < .2:
                ls.append(rnd.choice(['', '// note', '  ']))
            ls.append(d)
        path = rnd.choice(['g.xbnf', 'rules', './g.xbnf', 'sub dir/g', 'é.xbnf'])
        c.files.append((path, framed(rnd, codes(rnd.choice(['\n', '\n', '\r\n']).join(ls)))))
        grp.append([('xbnf', path)])
        if rnd.random() < .04:
            grp[-1].insert(rnd.randint(0, 1), ('xbnf', rnd.choice(['gone.xbnf', '', '.'])))
    elif rnd.random() < .05:
        grp.append([('xbnf', rnd.choice(['gone.xbnf', '']))])
    grp.append([('rule', d) for d in inargs])
    texts = []
    for _ in range(rnd.choice([0, 1, 1, 2, 3])):
        texts.append(no_surrogates(parse_text(g, rnd, 30, None, .08)))
    if rnd.random() < .05:
        texts.append(codes(rnd.choice(['', '-help', '-text', 'ERROR: x'])))
    grp.append([('text', t) for t in texts])
    fl = []
    for k in range(rnd.choice([0, 0, 1, 1, 2])):
        p = 'in%d.txt' % k
        c.files.append((p, framed(rnd, no_surrogates(parse_text(g, rnd, 40, None, .08)))))
        fl.append(('file', p))
    if fl and rnd.random() < .06:
        fl.insert(rnd.randint(0, len(fl)), ('file', rnd.choice(['gone.txt', '', 'sub dir'])))
    if fl and rnd.random() < .1:
        fl.append(fl[0])
    grp.append(fl)
    if rnd.random() < .4:
        grp.append([('type', [1] if rnd.random() < .75 else [0])])
    c.args = shuffle_args(rnd, grp)
    x = rnd.random()
    if x < .02:
        c.args.insert(rnd.randint(0, len(c.args)), ('unknown', rnd.choice(['-nope', '--rules', '-=x', '-t', '-showNodeType=maybe'])))
    elif x < .04:
        c.args.insert(rnd.randint(0, len(c.args)), ('help', ''))
    elif x < .06:
        c.args.append(('missing', rnd.choice(['rule', 'text', 'file', 'xbnf'])))
    elif x < .1:
        c.args.insert(rnd.randint(0, len(c.args)), ('stray', rnd.choice(['word', '--', '-', 'a b', '1'])))
    return c

def fixed():
    """small combinations of everything there is"""
    out = []
    ok, dup, bad, undef, empty = "A='a'", "A='b'", "A='a", 'A=B', 'A={"a"}'
    k = 0
    import itertools
    for f in (None, '', ok, bad, undef, "B='b'", '// only\n', 'gone'):
        for rs in ([], [ok], [ok, dup], [bad], [undef], [undef, "B=\"b\""], ["B='b'"], [''], [empty]):
            for ts in ([], ['a'], ['a', 'b'], ['b', 'a'], ['', 'a'], ['a', 'a', 'a']):
                for fs in ([], ['in'], ['gone', 'in'], ['in', 'gone']):
                    if (k + len(ts)) % 4 and (ts or fs):      # a part of them
                        k += 1
                        continue
                    k += 1
                    c = Case('fixed-%d' % k)
                    if f is not None:
                        if f != 'gone':
                            c.files.append(('g.xbnf', codes(f)))
                        c.args.append(('xbnf', 'g.xbnf'))
                    c.args += [('rule', r) for r in rs]
                    c.args += [('text', t) for t in ts]
                    c.files.append(('in', codes('a' if k % 3 else 'ab')))
                    c.args += [('file', x) for x in fs]
                    out.append(c)
    return out

def samples():
    out = []
    for name, text, texts in sample_texts():
        for j, t in enumerate(texts):
            c = Case('sample-%s-%d' % (name, j))
            t = codes(t)[:500]
            c.files = [(name, codes(text)), ('in', t)]
            c.args = [('xbnf', name), ('text', no_surrogates(t)), ('file', 'in')] + ([('type', [1])] if j % 2 else [])
            out.append(c)
    return out

def cases(seed, big):
    out = fixed() + samples()
    for i in range(6000 if big else 900):
        out.append(case('run-%d' % i, random.Random('%s/cli/%d' % (seed, i))))
    rnd = random.Random('%s/cli-model' % seed)
    for k, g in enumerate(pick(rnd, run.generate('MCCommand', big), 6000 if big else 700)):
        c = Case('model-%d' % k)
        c.args = [(a['f'], a['v']) for a in g['args']]
        c.files = [(s(f['p']), f['tx']) for f in g['fs']]
        out.append(c)
    return [c.line() for c in out]

def observe(command, line, tmp, seed, timeout=20):
    """runs the command for a line and adds what it printed"""
    d = os.path.join(tmp, 'run-%s' % re.sub(r'\W', '_', str(line['id'])))
    os.makedirs(os.path.join(d, 'sub dir'))
    try:
        for f in line['fs']:
            if f['ok']:
                with open(os.path.join(d, s(f['p'])), 'wb') as fh:
                    fh.write(raw(f['tx']))
        av = argv(line, random.Random('%s/%s' % (seed, line['id'])))
        try:
            p = subprocess.run([command] + [raw(codes(a)) for a in av], cwd=d, capture_output=True, timeout=timeout, stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            return dict(line, crash='hang', argv=av)
        err = p.stderr.decode('utf-8', 'replace')
        if 'goroutine ' in err or p.returncode < 0:
            return dict(line, crash='status %d: %s' % (p.returncode, err[:300]), argv=av)
        return dict(line, argv=av, **read(p.stdout.decode('utf-8', 'replace'), err, line))
    finally:
        shutil.rmtree(d, ignore_errors=True)

def read(out, err, line):
    """what was printed, by the texts and files announced"""
    seen = list(itertools.takewhile(lambda a: a['f'] != 'stray', line['args']))     # what follows a word is not looked at
    vals = lambda f: [s(a['v']) for a in seen if a['f'] == f]
    todo = [('text', v) for v in vals('text')] + [('file', v) for v in vals('file')]
    g = out.find('Grammar:\n')
    marks = []
    at = max(g, 0)
    for k, v in todo:
        m = '\nParsing %s: %s\n' % (k, v)
        j = out.find(m, at)
        if j < 0:
            break
        marks.append((k, v, j, j + len(m)))
        at = j + len(m) - 1      # the newline of this one may be that of the next
    first = marks[0][2] if marks else len(out)
    head = out[:first]
    h = 'grammar' if g >= 0 and g < first or marks else 'error' if 'ERROR: ' in head else 'usage' if err.strip() else 'nothing'
    secs = []
    for n, (k, v, b, e) in enumerate(marks):
        x = out[e:marks[n + 1][2] if n + 1 < len(marks) else len(out)]
        ok = not x.startswith('ERROR: ')
        secs.append(dict(k=k, v=codes(v), ok=ok, tx=codes(x[:-1] if x.endswith('\n') else x) if ok else []))
    return dict(head=h, bad='ERROR: ' in head[:g] if g >= 0 else 'ERROR: ' in head, secs=secs)

def shown(l):
    d = dict(id=l['id'], arguments=l.get('argv'), files=[dict(path=s(f['p']), text=s(f['tx']) if f['ok'] else None) for f in l['fs']])
    if l.get('crash'):
        d['crash'] = l['crash']
    if 'secs' in l:
        d['head'] = l['head']
        d['sections'] = [dict(of=x['k'], arg=s(x['v']), ok=x['ok'], text=s(x['tx'])) for x in l['secs']]
    return d

class CliProp:
    technique = 'TLA+ specification of the command; runs of the real command validated with TLC'
    note = 'Runs of the built command with generated arguments and files; TLC compares what was printed with the specified result of each run. Bounded: only the generated runs are covered.'
    race, timeout = False, None
    models = ()
    def __init__(self, assumptions):
        self.facets = {'head', 'sections', 'tree', 'crash'}
        self.assumptions = assumptions

    def check(self, lines, tmp, seed, tag, timeout=20):
        command = run.build_command(tmp)
        with ThreadPoolExecutor(8) as ex:
            obs = list(ex.map(lambda l: observe(command, l, tmp, seed, timeout), lines))
        crashed = [l for l in obs if l.get('crash')]
        obs = [l for l in obs if not l.get('crash')]
        strip = lambda l: {k: v for k, v in l.items() if k != 'argv'}
        n = max(1, min(run.WORKERS, len(obs) // 20 + 1))
        with ThreadPoolExecutor(n) as ex:
            rs = list(ex.map(lambda k: run.validate('TraceCli.tla', 'TraceCli.cfg', [strip(l) for l in obs[k::n]], tmp, '%s%d' % (tag, k)), range(n)))
        by = {l['id']: l for l in obs}
        bad = [(by[i], fs) for r in rs for i, _, fs in r[0]]
        return obs, crashed, bad, sum(r[1] for r in rs), sum(r[2] for r in rs)

    def finding(self, l, fs, seed):
        return {'key': str(l['id']), 'module': 'TraceCli', 'case': {k: l[k] for k in ('id', 'kind', 'args', 'fs')}, 'seed': seed,
                'facets': sorted(fs), 'shown': dict(shown(l), differs_in=sorted(fs))}

    def run(self, tmp, seed, big):
        lines = cases(seed, big)
        obs, crashed, bad, st, tr = self.check(lines, tmp, seed, 'cli')
        found = []
        for l, fs in bad[:5]:
            found.append(self.finding(l, fs & self.facets, seed))
        for l in crashed[:5]:
            again = self.check([{k: l[k] for k in ('id', 'kind', 'args', 'fs')}], tmp, seed, 'again', 60)
            if again[1]:
                found.append(self.finding(again[1][0], {'crash'}, seed))
            elif l['crash'] != 'hang':
                run.INCOMPLETE.append('the command crashed once but not again: ' + l['crash'])
        if not obs and not found:
            raise CheckError('nothing was checked')
        kinds = {}
        for l in obs:
            k = l['head'] + '/%d trees' % sum(x['ok'] for x in l['secs'])
            kinds[k] = kinds.get(k, 0) + 1
        mc = run.GENERATED
        return found, {'states': st + sum(m[1] for m in mc), 'transitions': tr + sum(m[2] for m in mc), 'traces_validated_against_impl': len(obs), 'runs_by_kind': kinds,
                       'models': [{'module': m, 'distinct_states': a, 'transitions': b} for m, a, b in mc],
                       'samples': [shown(l) for l in obs[-3:]]}

    def again(self, tmp, r):
        obs, crashed, bad, _, _ = self.check([r['case']], tmp, r['seed'], 'replay', 60)
        return [self.finding(l, fs, r['seed']) for l, fs in bad] + [self.finding(l, {'crash'}, r['seed']) for l in crashed]
