"""The cases of the properties of trees, streams, grammars and concurrent use."""
import itertools, json, os, random
import run
from gen import *
from work import (ev, parse, embed, line, backs, some_eval, some_parse, some_embed, walk, roots, parse_text, mixed_call,
                  random_lines, enum_lines, pick, mk, multiline, NOTWS)

# ---------------------------------------------------------------- trees

INNER = ['group', 'option', 'repetition', 'choice', 'concatenate', 'block', 'embed']
LEAVES = ['char', 'chars', 'string', 'EOF', 'text', 'chars', 'string', 'option', 'repetition']

class Trees:
    """random trees as parsing could give them: only leaves have chars"""
    def __init__(self, rnd):
        self.rnd = rnd
        r = rnd.random
        self.p = dict(s=rnd.choice([.1, .5, .9]), v=rnd.choice([0, .1, .4]), d=rnd.choice([0, .1, .4]), o=rnd.choice([0, .1, .4]),
                      name=rnd.choice([.1, .4, .9]), empty=rnd.choice([0, .1, .4]), pos=rnd.choice([1, .8]), block=rnd.choice([0, .1, .3]))
        self.alpha = rnd.choice([codes('ab '), codes('abc'), codes('a \n'), codes('ab\n'), [97, 0x3000, 32], [0x1D538, 10, 97], codes('>:<a'), codes('\u251c\u2500 a\n')])
    def flag(self, k):
        return self.rnd.random() < self.p[k]
    def node(self, t, kids, chars):
        r = self.rnd
        nm = r.choice(['a', 'b', 'name', 'x_1', '_', 'Item']) if self.flag('name') else ''
        p = [r.randint(1, 30), r.randint(1, 90)] if self.flag('pos') and (chars or kids) else [0, 0]
        return dict(t=t, n=codes(nm), c=chars, k=kids, p=p, s=self.flag('s'), v=self.flag('v'), d=self.flag('d'), o=self.flag('o'))
    def leaf(self):
        r = self.rnd
        t = r.choice(LEAVES)
        if t in ('option', 'repetition', 'EOF') or self.flag('empty'):
            return self.node(t, [], [])
        n = 1 if t == 'char' else r.choice([1, 1, 2, 3, 6])
        return self.node(t, [], [r.choice(self.alpha) for _ in range(n)])
    def tree(self, depth, budget):
        r = self.rnd
        budget[0] -= 1
        if depth <= 0 or budget[0] <= 0 or r.random() < .25:
            return self.leaf()
        if self.flag('block'):
            kids = [self.tree(depth - 1 if r.random() < .3 else 0, budget), self.leaf()]
            if r.random() < .8:
                kids.append(self.tree(depth - 1 if r.random() < .3 else 0, budget))
            n = self.node('block', kids, [])
            return n
        t = r.choice(INNER[:5] + ['concatenate', 'repetition', 'embed'])
        n = {'group': 1, 'option': 1, 'choice': 1}.get(t) if r.random() < .8 else None
        if n is None:
            n = r.choice([1, 2, 2, 3, 3, 4, 6])
        return self.node(t, [self.tree(depth - 1, budget) for _ in range(n)], [])
    def forest(self):
        r = self.rnd
        d = r.choice([1, 2, 3, 3, 4, 6])
        return [self.tree(d, [r.choice([10, 25, 60])]) for _ in range(r.choice([1, 1, 1, 2, 3, 5]))]

def path(rnd):
    return [] if rnd.random() < .5 else [rnd.randint(0, 5) for _ in range(rnd.choice([1, 1, 2, 3, 4]))]

def a_pass(rnd, op=None):
    op = op or rnd.choice(['merge', 'virtual', 'nondata', 'redundant', 'redundant', 'merge'])
    return dict(op=op, path=path(rnd), via=rnd.choice(['', '', 'list', 'result']))

def ask(rnd):
    op = rnd.choice(['text', 'count', 'dump', 'dump'])
    c = dict(op=op, path=path(rnd), type=rnd.random() < .5, text=rnd.random() < .4, verb=rnd.random() < .3)
    if op == 'dump':
        if rnd.random() < .25:      # as it is without a configuration
            c['std'] = True
        if rnd.random() < .2:       # the result of an evaluation
            w = [rnd.choice([97, 98, 32, 10, -1, 0x4e2d, 0x1D538]) for _ in range(rnd.choice([0, 1, 4, 12]))]
            c.update(via='result', rd=w, un=w[len(w) - rnd.randint(0, len(w)):])
        elif rnd.random() < .3:
            c['file'] = codes(rnd.choice(['a.txt', '/tmp/some where/x', '\u4e2d', '\n', '%s%d']))
    elif rnd.random() < .02:
        return dict(op='none', path=[])
    return c

def passes(rnd, asking=.3):
    """simplification as the levels do it, as the command does it, or in any order"""
    c = rnd.random()
    w = lambda op: dict(op=op, path=[], via=rnd.choice(['', '', 'list']))
    if c < .35:
        seq = [w('merge')] + [w('virtual')] * (rnd.random() < .7) + [w('nondata')] * (rnd.random() < .5) + [w('redundant')]
    elif c < .5:
        seq = [w(x) for x in ('merge', 'redundant', 'virtual', 'merge', 'nondata', 'redundant')]
    elif c < .6:
        seq = [w(x) for x in ('merge', 'redundant', 'virtual', 'nondata', 'redundant')]
    else:
        seq = [a_pass(rnd) for _ in range(rnd.choice([1, 2, 3, 4, 6]))]
    out = []
    for x in seq:
        while rnd.random() < asking:
            out.append(ask(rnd))
        out.append(x)
    while rnd.random() < min(asking + .3, .8):
        out.append(ask(rnd))
    return out

def treeline(i, nds=None, defs=None, tx=None, calls=()):
    l = dict(id=str(i), kind='tree', calls=list(calls))
    if nds is not None:
        l['nds'] = nds
    else:
        l['defs'] = [codes(d) for d in defs]
        l['tx'] = tx
    return l

def tree_lines(prefix, seed, n, asking):
    out = []
    for i in range(n):
        rnd = random.Random('%s/%s/%d' % (seed, prefix, i))
        out.append(treeline('%s-%d' % (prefix, i), nds=Trees(rnd).forest(), calls=passes(rnd, asking)))
    return out

def parsed_lines(prefix, seed, n, asking, maker=None):
    out = []
    for i in range(n):
        rnd = random.Random('%s/%s/%d' % (seed, prefix, i))
        g = (maker or mk(dict(ref=8, rep=5, cat=7, blk=2), ann=rnd.choice([.05, .2, .4]), rules=rnd.choice([2, 4, 6]), undefined=0, emptylit=.06))(rnd)
        for j in range(4):
            tx = parse_text(g, rnd, 40, None, .1)
            out.append(treeline('%s-%d-%d' % (prefix, i, j), defs=g.defs(), tx=tx, calls=passes(rnd, asking)))
    return out

def small_trees():
    """all trees of two levels with few nodes and every combination of what matters"""
    out = []
    def leaf(c, s, o, n=''):
        return dict(t='chars', n=codes(n), c=codes(c), k=[], p=[1, 1] if c else [0, 0], s=s, v=False, d=False, o=o)
    opts = [leaf(c, s, o) for c in ('a', ' ', '') for s in (True, False) for o in (True, False)]
    opts += [leaf('b', s, False, 'n') for s in (True, False)]
    for ks in itertools.product(opts, repeat=2):
        out.append(dict(t='concatenate', n=[], c=[], k=list(ks), p=[1, 1], s=all(k['s'] for k in ks), v=False, d=False, o=False))
    for ks in itertools.product(opts[::2] + opts[-2:], repeat=3):
        out.append(dict(t='concatenate', n=codes('r'), c=[], k=list(ks), p=[1, 1], s=False, v=False, d=False, o=False))
    return out

def nested_trees(rnd, n):
    """trees of three levels with one or two children each, names, marks and empty leaves"""
    out = []
    def leaf():
        c = rnd.choice(['a', 'a', '', ' '])
        return dict(t='string', n=codes(rnd.choice(['', '', 'x'])), c=codes(c), k=[], p=[1, 2] if c else [0, 0], s=rnd.random() < .5,
                    v=rnd.random() < .2, d=rnd.random() < .2, o=rnd.random() < .2)
    def inner(d):
        ks = [inner(d - 1) if d and rnd.random() < .7 else leaf() for _ in range(rnd.choice([1, 1, 2]))]
        return dict(t=rnd.choice(['group', 'option', 'choice', 'concatenate', 'repetition', 'block']), n=codes(rnd.choice(['', '', 'y'])), c=[], k=ks, p=[1, 2],
                    s=rnd.random() < .3, v=rnd.random() < .15, d=rnd.random() < .15, o=rnd.random() < .1)
    for _ in range(n):
        out.append([inner(rnd.choice([1, 2, 3])) for _ in range(rnd.choice([1, 1, 2]))])
    return out

def sample_texts():
    """the sample grammars and texts of the repository"""
    base = '/repo/main/samples'
    out = []
    for root, _, fs in sorted(os.walk(base)):
        gs = [f for f in sorted(fs) if f.endswith('.xbnf')]
        for g in gs:
            text = open(os.path.join(root, g), encoding='utf-8').read()
            out.append((g, text, [open(os.path.join(root, f), encoding='utf-8', errors='replace').read() for f in sorted(fs) if not f.endswith('.xbnf')]))
    return out

def large_trees(prefix, seed, n, calls):
    """many kids, many roots, deep, much text: around the powers of two and ten"""
    out = []
    for i in range(n):
        r = random.Random('%s/large/%s/%d' % (seed, prefix, i))
        ts = Trees(r)
        k = i % 5
        if k == 0:
            nds = [ts.node(r.choice(INNER), [ts.leaf() for _ in range(r.choice([33, 65, 101, 129, 257]))], [])]
        elif k == 1:
            nds = [ts.leaf() if r.random() < .6 else ts.tree(2, [4]) for _ in range(r.choice([17, 33, 65, 129]))]
        elif k == 2:
            nds = [ts.leaf()]
            for _ in range(r.choice([33, 50, 65, 90])):
                nds = [ts.node(r.choice(INNER), nds + [ts.leaf() for _ in range(r.choice([0, 0, 0, 1]))], [])]
        elif k == 3:
            nds = [ts.node('chars', [], [r.choice(ts.alpha) for _ in range(r.choice([63, 127, 255, 257, 520]))]) for _ in range(r.choice([1, 1, 3]))]
            nds = [ts.node('concatenate', nds, [])] if r.random() < .5 else nds
        else:
            nds = [ts.tree(6, [200]) for _ in range(3)]
            for t in nds:
                t['n'] = codes(r.choice('abX') + ''.join(r.choice('abX_0') for _ in range(r.choice([31, 64, 130]))))
        out.append(treeline('large-%d' % i, nds=nds, calls=calls(r)))
    for i in range(n // 5):     # beyond a thousand
        r = random.Random('%s/huge/%s/%d' % (seed, prefix, i))
        ts = Trees(r)
        if i % 4 == 0:
            nds = [ts.node(r.choice(INNER), [ts.leaf() for _ in range(r.choice([1025, 2050]))], [])]
        elif i % 4 == 1:
            nds = [ts.leaf() for _ in range(r.choice([1025, 1300]))]
        elif i % 4 == 2:
            nds = [ts.node('concatenate', [ts.node('chars', [], [r.choice(ts.alpha) for _ in range(r.choice([1025, 4097]))]) for _ in range(r.choice([1, 2]))], [])]
        else:
            nds = [ts.node(r.choice(INNER), [ts.tree(4, [40]) for _ in range(40)], []) for _ in range(3)]
        out.append(treeline('huge-%d' % i, nds=nds, calls=calls(r)))
    return out

def c12(rnd, seed, big):
    n = 1800 if big else 300
    w = lambda op: dict(op=op, path=[], via='')
    small = [treeline('small-%d' % i, nds=[t], calls=[w(x) for x in seq]) for i, (t, seq) in enumerate(
        (t, seq) for t in small_trees() for seq in (['merge', 'redundant'],))]
    small += [treeline('top-%d' % i, nds=t['k'], calls=[w('merge'), w('redundant')]) for i, t in enumerate(small_trees())]
    nested = [treeline('nested-%d' % i, nds=t, calls=passes(random.Random('%s/n/%d' % (seed, i)), .05)) for i, t in enumerate(nested_trees(rnd, n * 6))]
    return [('TraceTree', small + nested + large_trees('c12', seed, 60 if big else 20, lambda r: passes(r, .05)) + tree_lines('tree', seed, n * 6, .05) + parsed_lines('parsed', seed, n * 2, .05)
             + parsed_lines('pblock', seed, n // 2, .05, mk(dict(blk=9, cat=6), ann=.2, rules=3, undefined=0)))]

def c21(rnd, seed, big):
    n = 1800 if big else 300
    small = [treeline('small-%d' % i, nds=[t], calls=[dict(op='text', path=[]), dict(op='count', path=[]), dict(op='dump', path=[], type=True, text=True, verb=False)])
             for i, t in enumerate(small_trees())]
    deep = []
    for i in range(n // 6):
        r = random.Random('%s/deep/%d' % (seed, i))
        ts = Trees(r)
        nd = ts.leaf()
        for _ in range(r.choice([8, 15, 30])):
            ks = [nd]
            if r.random() < .5:
                ks.insert(r.randint(0, 1), ts.leaf())
            nd = ts.node(r.choice(INNER), ks, [])
        deep.append(treeline('deep-%d' % i, nds=[nd], calls=[ask(r) for _ in range(6)]))
    wide = []
    for i in range(n // 12):
        r = random.Random('%s/wide/%d' % (seed, i))
        ts = Trees(r)
        wide.append(treeline('wide-%d' % i, nds=[ts.node(r.choice(INNER), [ts.leaf() for _ in range(r.choice([20, 60]))], []) for _ in range(r.choice([1, 12]))],
                             calls=[ask(r) for _ in range(6)]))
    return [('TraceTree', small + deep + wide + large_trees('c21', seed, 60 if big else 20, lambda r: [ask(r) for _ in range(5)]) + tree_lines('tree', seed, n * 6, .75) + parsed_lines('parsed', seed, n * 2, .7))]

# ---------------------------------------------------------------- streams

def stream_text(rnd, n):
    alpha = rnd.choice([codes('ab \n'), codes('a\n'), codes('a \t\n'), [97, 98, 0x3000, 10, 32], [0x1D538, 10, 32], codes('ab'), [10], WS + [97, 97, 97],
                        WS + NOTWS, [97, 13, 10, 32], [32, 97]])
    return [rnd.choice(alpha) for _ in range(n)]

def stream_ops(rnd, tx, k, back=.15):
    """operations; keeps an idea of where the stream is so that most matches agree for a while"""
    out, cur = [], 0
    n = len(tx)
    for _ in range(k):
        c = rnd.random()
        if c < .2:
            out.append(dict(op='next'))
            cur = min(n, cur + 1)
        elif c < .28:
            out.append(dict(op='peek'))
        elif c < .45:
            w = list(tx[cur:cur + rnd.choice([1, 1, 2, 3, 5, 9])])
            x = rnd.random()
            if x < .3 and w:
                w[rnd.randrange(len(w))] = rnd.choice([97, 32, 10, 98])
            elif x < .4:
                w += [rnd.choice([97, 10])]
            elif x < .45:
                w = []
            m = 0
            while m < len(w) and cur + m < n and tx[cur + m] == w[m]:
                m += 1
            cur = min(n, cur + m + (1 if m < len(w) else 0))
            out.append(dict(op='match', w=w))
        elif c < .57:
            out.append(dict(op='skip'))
            while cur < n and tx[cur] in WS:
                cur += 1
        elif c < .63:
            out.append(dict(op='cursor'))
        elif c < .73:
            out.append(dict(op='pos'))
        elif c < 1 - back:
            out.append(dict(op='look', i=rnd.choice([0, cur - 1, cur, cur + 1, cur // 2, rnd.randint(-2, n + 2)])))
        else:
            m = rnd.choice([0, 1, 1, 2, 3, 5, 12, cur])
            m = min(m, cur)
            out.append(dict(op='back', n=m))
            cur -= m
    return out

def c15(rnd, seed, big):
    n = 4000 if big else 700
    out = []
    for i in range(n * 3):
        r = random.Random('%s/s/%d' % (seed, i))
        tx = stream_text(r, r.choice([0, 1, 2, 3, 5, 8, 13, 20]))
        out.append(dict(id='short-%d' % i, kind='stream', tx=tx, user=r.random() < .3, calls=stream_ops(r, tx, r.choice([6, 15, 30]))))
    for i in range(n // 3):
        r = random.Random('%s/l/%d' % (seed, i))
        tx = stream_text(r, r.choice([60, 150, 300, 600]))
        calls = stream_ops(r, tx, 150, .08)
        calls += [dict(op='look', i=r.randint(0, len(tx))) for _ in range(30)]
        out.append(dict(id='long-%d' % i, kind='stream', tx=tx, user=r.random() < .3, calls=calls))
    for i in range(36 if big else 12):     # around the powers of two and ten
        r = random.Random('%s/xl/%d' % (seed, i))
        size = r.choice([127, 255, 256, 257, 511, 999, 1023, 1100]) if i % 3 else r.choice([2050, 4097, 5000])
        tx = r.choice([lambda: stream_text(r, size), lambda: [97] * size, lambda: [10] * size, lambda: [97] * (size - 1) + [10]])()
        calls = [dict(op='match', w=tx[:r.choice([size // 2, size - 1, size])])] + [dict(op=o) for o in ('pos', 'cursor', 'peek')]
        calls += [dict(op='back', n=r.choice([1, size // 3])), dict(op='pos')] + stream_ops(r, tx, 20, .2) + [dict(op='look', i=r.choice([size, size - 1, r.randint(0, size)])) for _ in range(8)]
        out.append(dict(id='xl-%d' % i, kind='stream', tx=tx, user=r.random() < .4, calls=calls))
    # every char as whitespace or not, and every place looked up
    chars = WS + NOTWS + [0, 0x7F, 0x300, 0x2800, 0xFFFD, 0x1F600]
    for c in chars:
        for tx in ([c], [97, c, 98], [c, c, 97], [32, c, 32, 97], [10, c, 10]):
            calls = [dict(op='pos'), dict(op='skip'), dict(op='cursor'), dict(op='pos'), dict(op='next'), dict(op='skip'), dict(op='peek'), dict(op='pos')]
            calls += [dict(op='back', n=9), dict(op='skip'), dict(op='cursor'), dict(op='next'), dict(op='skip'), dict(op='pos'), dict(op='next')]
            calls += [dict(op='look', i=j) for j in range(-1, 5)]
            out.append(dict(id='ws-%X-%d' % (c, len(out)), kind='stream', tx=tx, user=False, calls=calls))
    for k, tx in enumerate(all_texts([97, 10, 32], 4)):
        calls = []
        for j in range(len(tx) + 1):
            calls += [dict(op='pos'), dict(op='cursor')] + [dict(op='look', i=m) for m in range(-1, len(tx) + 2)] + [dict(op='next')]
        calls += [dict(op='back', n=2), dict(op='pos'), dict(op='skip'), dict(op='pos')] + [dict(op='look', i=m) for m in range(len(tx) + 1)]
        out.append(dict(id='all-%d' % k, kind='stream', tx=tx, user=False, calls=calls))
    # every transition of the model of a stream, with everything asked for after it
    gen = run.generate('GenStream', big)
    ask = [dict(op='peek'), dict(op='cursor'), dict(op='pos')]
    for k, g in enumerate(gen):
        ops = []
        for c in g['ops'][:-1]:
            ops += [c] + (ask if k % 3 == 0 else [])
        c = g['ops'][-1]
        if c['op'] in ('peek', 'cursor', 'pos', 'look'):      # whatever is asked for first
            if k % 4:
                continue
            ops += [c] + ask
        else:
            ops += [c] + rnd.sample(ask, 3)
        ops += [dict(op='look', i=i) for i in range(-1, len(g['tx']) + 1)]
        out.append(dict(id='model-%d' % k, kind='stream', tx=g['tx'], user=k % 2 == 1, calls=[dict(c) for c in ops + [dict(op='next'), dict(op='skip'), dict(op='cursor')]]))
    return [('TraceStream', out)]

def con_threads(rnd, tx, nthreads, nops):
    ths = []
    for _ in range(nthreads):
        ops = []
        for _ in range(rnd.randint(1, nops)):
            c = rnd.random()
            if c < .35:
                ops.append(dict(op='next'))
            elif c < .42:
                ops.append(dict(op='peek'))
            elif c < .55:
                i = rnd.randint(0, max(0, len(tx) - 1))
                ops.append(dict(op='match', w=tx[i:i + rnd.choice([1, 2, 3])] or [97]))
            elif c < .65:
                ops.append(dict(op='skip'))
            elif c < .75:
                ops.append(dict(op='cursor'))
            elif c < .87:
                ops.append(dict(op='pos'))
            else:
                ops.append(dict(op='look', i=rnd.randint(0, len(tx))))
        ths.append(ops)
    return ths

def c16(rnd, seed, big):
    n = 1200 if big else 160
    out = []
    for i in range(n * 4):
        r = random.Random('%s/c/%d' % (seed, i))
        tx = stream_text(r, r.choice([2, 4, 8, 16, 30]))
        if r.random() < .3:
            tx = [97] * len(tx)
        t = r.choice([2, 2, 3, 4])
        bk = [] if r.random() < .4 else [r.randint(1, 6) for _ in range(r.choice([1, 1, 2, 3]))]
        # with chars handed back the base may be somebody's own stream, and a slow one
        out.append(dict(id='con-%d' % i, kind='constream', tx=tx, back=bk, threads=con_threads(r, tx, t, {2: 8, 3: 5, 4: 4}[t]), runs=8, yield_=False))
    for i in range(n * 2):
        r = random.Random('%s/y/%d' % (seed, i))
        tx = stream_text(r, r.choice([3, 6, 12]))
        if r.random() < .5:   # long runs of whitespace or of the same char: long operations
            tx = [r.choice([32, 97])] * len(tx)
        bk = [r.randint(1, 4) for _ in range(r.choice([1, 1, 2]))]
        ths = con_threads(r, tx, r.choice([2, 3]), 5)
        if r.random() < .6:
            ths[0] = [dict(op='match', w=list(tx[:r.randint(2, 9)])) if r.random() < .5 else dict(op='skip')] + ths[0][:2]
            ths[1] = [dict(op=r.choice(['look', 'look', 'cursor', 'pos', 'next']), i=r.randint(0, len(tx) - 1)) for _ in range(5)]
        out.append(dict(id='slow-%d' % i, kind='constream', tx=tx, back=bk, threads=ths, runs=8, yield_=True))
    for i in range(60 if big else 16):
        r = random.Random('%s/w/%d' % (seed, i))
        size = r.choice([120, 400, 900]) if i % 4 else 1500
        ch = r.choice([32, 32, 9, 97])
        tx = [ch] * size
        if r.random() < .5:   # the long call ends before the text does
            tx = tx + [98] * r.randint(1, 20)
        bk = [] if i % 2 else [r.choice([5, 40, size // 2])]
        long = [dict(op='skip')] if ch != 97 and r.random() < .7 else [dict(op='match', w=[ch] * size)]
        watch = [dict(op=r.choice(['next', 'cursor']), max=r.choice([3, 8]))]
        if r.random() < .5:
            watch.append(dict(op=r.choice(['cursor', 'pos', 'look', 'peek']), i=r.choice([1, size // 2, size - 1]), max=4))
        out.append(dict(id='long-%d' % i, kind='constream', tx=tx, back=bk, long=long, watch=watch, runs=1000, keep=6, yield_=r.random() < .3))
    for l in out:
        l['yield'] = l.pop('yield_')
    return [('TraceConStream', out)]
