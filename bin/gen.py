"""Random grammars, texts and calls.

A rule is a dict with its kind k (as in spec/Notation.tla), ann (annotation chars) and the fields of
that kind. It is used to write definitions and to make texts that have a chance to match; what a
definition means is decided by the specification alone, which reads the definition itself."""
import random

WS = [9, 10, 11, 12, 13, 32, 133, 160, 5760] + list(range(8192, 8203)) + [8232, 8233, 8239, 8287, 12288]

def codes(s):
    return [ord(c) for c in s]

def R(k, ann='', **f):
    f['k'] = k
    f['ann'] = ann
    return f

class Style:
    """how definitions are written"""
    def __init__(self, rnd, plain=True, oneline=True):
        self.rnd, self.plain, self.oneline = rnd, plain, oneline
    def gap(self):
        r = self.rnd
        if self.plain or r.random() < .6:
            return ' '
        s = ''
        if not self.oneline and r.random() < .12:
            s = r.choice([' ', '\n', '']) + '//' + r.choice(['', ' note', " it's \"so", ' a | b > (', '// {', ' \\', ' é', '\r', " \r'x'", ' \u2028 | q', '\x0b)', ' \x85]', '\x0c']) + '\n'
        for _ in range(r.randint(1, 3)):
            c = r.choice([32, 32, 9, 13] + WS if not self.oneline else [32, 32, 9, 13, 160, 12288, 8232])
            s += chr(c) if not (self.oneline and c == 10) else ' '
        return s
    def tight(self):   # where no space is needed
        if self.plain:
            return ' '
        return '' if self.rnd.random() < .4 else self.gap()
    def char(self, c, q):
        r = self.rnd
        if 0xD800 <= c <= 0xDFFF or (self.oneline and c == 10) or c in (0,):
            return '\\u%04X' % c
        if c in (ord(q), 92):
            return '\\' + chr(c) if r.random() < .6 else '\\u%04x' % c
        if c < 0x10000 and r.random() < (.08 if self.plain else .25):
            return '\\u%04x' % c if r.random() < .5 else '\\u%04X' % c
        if not self.plain and c != ord('u') and r.random() < .1:
            return '\\' + chr(c)
        return chr(c)

def single(k):
    return k not in ('cat', 'alt')

def render(r, st):
    k = r['k']
    a = r['ann']
    if not st.plain and len(a) > 1:
        a = ''.join(st.rnd.sample(a, len(a)))
    if a and not st.plain and st.rnd.random() < .3:
        a += st.gap()
    if k == 'char':
        if r['tx'][0] < 0x10000 and st.rnd.random() < .1:
            return a + '\\u%04X' % r['tx'][0]
        return a + "'" + st.char(r['tx'][0], "'") + "'"
    if k == 'chars':
        return a + "'" + ''.join(st.char(c, "'") for c in r['tx']) + "'"
    if k == 'string':
        return a + '"' + ''.join(st.char(c, '"') for c in r['tx']) + '"'
    if k == 'range':
        def end(c, first):
            if c < 0x10000 and st.rnd.random() < .3:
                return '\\u%04X' % c
            if first:
                return "'" + st.char(c, "'") + "'"
            if c in (39, 92) or 0xD800 <= c <= 0xDFFF or c == 10 or c == 0:
                return "'\\u%04X'" % c
            return "'" + chr(c) + "'"
        return a + end(r['a'], True) + '-' + end(r['b'], False)
    if k == 'cat':
        out = render(r['rs'][0], st)
        for p, x in zip(r['rs'], r['rs'][1:]):
            s = st.gap() if p['k'] in ('ref', 'eof') else st.tight()
            out += s + render(x, st)
        return out
    if k == 'alt':
        out = ''
        for gi, g in enumerate(r['gs']):
            for ai, x in enumerate(g):
                if gi or ai:
                    out += st.tight() + ('|' if ai else '>') + st.tight()
                t = render(x, st)
                if not single(x['k']):
                    t = '(' + st.tight() + t + st.tight() + ')'
                out += t
        return out
    if k == 'opt':
        return a + '[' + st.tight() + render(r['r'], st) + st.tight() + ']'
    if k == 'grp':
        return a + '(' + st.tight() + render(r['r'], st) + st.tight() + ')'
    if k == 'rep':
        mn, mx = r['mn'], r['mx']
        s = a + '{' + st.tight() + render(r['r'], st) + st.tight() + '}'
        c = st.rnd.random()
        def sp():
            return ' ' if not st.plain and st.rnd.random() < .3 else ''
        if not st.plain and st.rnd.random() < .15:   # numbers may be written with zeros in front
            return s + '<%s%d,%s%d>' % (st.rnd.choice(['', '0', '00']), mn, st.rnd.choice(['', '0', '000']), mx)
        if mn == 0 and mx == 0:
            return s + ('*' if c < .4 else '' if c < .8 else '<0,0>' if c < .9 else '<,>')
        if mn == 1 and mx == 0 and c < .6:
            return s + '+'
        if mx == 0:
            return s + ('<%s%d%s>' % (sp(), mn, sp()) if c < .3 else '<%d,%s>' % (mn, sp()) if c < .7 else '<%d,0>' % mn)
        if mn == 0 and c < .3:
            return s + '<,%s%d>' % (sp(), mx)
        return s + '<%d%s,%s%d%s>' % (mn, sp(), sp(), mx, sp())
    if k == 'ref':
        return a + r['to']
    if k == 'eof':
        return a + 'EOF'
    if k == 'blk':
        def op(x):
            t = render(x, Style(st.rnd, True, st.oneline))
            return t if single(x['k']) and not (x['k'] in ('opt', 'rep', 'grp') and False) else '( ' + t + ' )'
        parts = [op(r['op'])] + [op(x) for x in r['es']] + ['^' + op(x) for x in r['ex']] + [op(r['cl'])]
        return a + '<' + st.rnd.choice(['', ' ']) + ' '.join(parts) + (' !' if r['vc'] else '') + st.rnd.choice(['', ' ']) + '>'
    raise ValueError(k)

# ---------------------------------------------------------------- grammars

DEFAULT = dict(char=5, chars=4, string=4, range=2, cat=5, alt=4, opt=2, grp=2, rep=3, ref=4, eof=.3, blk=1)
LEAF = ('char', 'chars', 'string', 'range', 'eof')

ALPHABETS = [
    codes('ab'), codes('abc'), codes('ab1'), codes('ab '), codes('ab \n'), codes('a \t\n'), codes('xy,;'),
    codes('"\'\\a'), codes('a-z'), [97, 0x1D538, 32], [97, 0xA0, 0x3000, 32], [97, 98, 13, 10],
    codes('=<>!^'), codes('|{}[]()'), codes('$~#a'), codes('/a*'), [0xE9, 0x4E2D, 97, 32], codes('aA0_'),
    codes('abcdefgh'), codes('a b\n'), [97, 98, 0x85, 0x1680, 0x2003, 0x2028], [0xFFFD, 97], [0xD7FF, 0xE000, 97],
    # chars that differ in case, or share their last byte or two
    [97, 65, 107, 75, 0x212A], [0xE9, 0xC9, 97, 65], [97, 0x161, 0x10061, 98], [32, 0x120, 0x10020, 97], [10, 0x10A, 0x1000A, 97, 32], [0x1C4, 0x1C5, 0x1C6], [0x3A3, 0x3C3, 0x3C2, 32], [0x41, 0x391, 0x410, 0xC5, 0x212B],
]

def long_name(rnd, x):
    return x + ''.join(rnd.choice('abXYZ019_') for _ in range(rnd.choice([4, 18, 21, 40, 62, 64, 80])))

class Gen:
    def __init__(self, rnd, weights=None, ann=.08, alphabet=None, depth=3, rules=3, eof=True, emptylit=.03,
                 plain=True, maxrep=4, undefined=.03, recurse=.2, oneline=True, longlit=.1):
        self.rnd = rnd
        self.w = dict(DEFAULT)
        if weights:
            self.w.update(weights)
        self.ann = ann
        self.alpha = alphabet or rnd.choice(ALPHABETS)
        self.depth, self.nrules = depth, rules
        self.emptylit, self.maxrep, self.undefined, self.recurse, self.longlit = emptylit, maxrep, undefined, recurse, longlit
        self.st = Style(rnd, plain, oneline)
        self.later = []     # names that may be referred to anywhere
        self.guarded = []   # names that may be referred to after a char has been used
        self.rules = {}
        self.names = []
        self.recursive = False

    def c(self):
        return self.rnd.choice(self.alpha)

    def annot(self):
        s = ''
        for x in '$~#':
            if self.rnd.random() < self.ann:
                s += x
        return s

    def word(self, mn, mx):
        return [self.c() for _ in range(self.rnd.randint(mn, mx))]

    def leaf(self, kind=None):
        r = self.rnd
        ks = [k for k in LEAF]
        k = kind or r.choices(ks, [self.w[x] for x in ks])[0]
        if k == 'char':
            return R('char', self.annot(), tx=[self.c()])
        if k == 'chars':
            return R('chars', self.annot(), tx=self.word(2, 8 if r.random() < self.longlit else 3))
        if k == 'string':
            return R('string', self.annot(), tx=[] if r.random() < self.emptylit else
                     [c if not 0xD800 <= c <= 0xDFFF else 97 for c in self.word(1, 8 if r.random() < self.longlit else 3)])
        if k == 'range':
            a, b = self.c(), self.c()
            if a > b and r.random() < .95:
                a, b = b, a
            if r.random() < .2:
                b = min(0x10FFFF, max(b, r.choice([c for c in self.alpha]) + r.randint(0, 3)))
            if b in range(0xD800, 0xE000):
                b = 0xE000
            return R('range', self.annot(), a=a, b=b)
        return R('eof', self.annot())

    def rule(self, depth, guarded=False, inblock=False):
        r = self.rnd
        if depth <= 0:
            if (self.later or guarded and self.guarded) and r.random() < .3:
                return self.ref(guarded)
            return self.leaf()
        w = dict(self.w)
        if not self.later and not (guarded and self.guarded):
            w['ref'] = 0
        ks = [k for k in w if w[k] > 0]
        k = r.choices(ks, [w[x] for x in ks])[0]
        if k in LEAF:
            return self.leaf(k)
        if k == 'cat':
            n = r.choice([2, 2, 2, 3, 3, 4])
            rs, g = [], guarded
            for _ in range(n):
                x = self.rule(depth - 1, g and not inblock)
                if x['k'] == 'cat':
                    x = R('grp', self.annot(), r=x)
                rs.append(x)
                if x['k'] in ('char', 'chars', 'range') or x['k'] == 'string' and x['tx']:
                    g = True
            return R('cat', rs=rs)
        if k == 'alt':
            gs = [[self.rule(depth - 1, guarded) for _ in range(r.choice([1, 2, 2, 3]))] for _ in range(r.choice([1, 1, 1, 2, 2, 3]))]
            if sum(map(len, gs)) < 2:
                gs[0].append(self.rule(depth - 1, guarded))
            return R('alt', gs=gs)
        if k == 'opt':
            return R('opt', self.annot(), r=self.rule(depth - 1, guarded))
        if k == 'grp':
            return R('grp', self.annot(), r=self.rule(depth - 1, guarded))
        if k == 'rep':
            mn = r.choice([0, 0, 0, 1, 1, 2, 3])
            mx = r.choice([0, 0, 0, mn, mn + 1, mn + 2, self.maxrep])
            if mx and mx < mn:
                mx = mn
            if r.random() < .04:
                mx = r.choice([9, 10, 12, 15, 50, 99, 100, 105])
            return R('rep', self.annot(), r=self.rule(depth - 1, guarded), mn=mn, mx=mx)
        if k == 'ref':
            return self.ref(guarded)
        if k == 'blk':
            return self.block(depth)
        raise ValueError(k)

    def ref(self, guarded):
        r = self.rnd
        if r.random() < self.undefined:
            return R('ref', self.annot(), to='nowhere')
        names = self.later
        if guarded and self.guarded and not self.recursive and r.random() < self.recurse:
            names = self.guarded
            self.recursive = True   # one recursive reference per grammar keeps evaluation cheap
        if not names:
            return self.leaf()
        return R('ref', self.annot(), to=r.choice(names))

    def block(self, depth):
        r = self.rnd
        keep, self.guarded = self.guarded, []
        def operand(empty):
            x = self.leaf() if r.random() < .75 else self.rule(min(depth - 1, 1), False, True)
            return x
        op, cl = operand(False), operand(False)
        es = [operand(False)] if r.random() < .4 else []
        ex = [operand(False) for _ in range(r.choice([0, 0, 0, 1, 1, 2]) if r.random() < .95 else r.randint(3, 7))]
        vc = r.random() < .25
        self.guarded = keep
        return R('blk', self.annot(), op=op, es=es, ex=ex, cl=cl, vc=vc)

    NAMES = ['r', 'a1', 'Top', 'word', 'x_y', 'Zz9', 'num', 'list', 'r_0', 'E', 'EOFx', 'eof', 'Eof', 'item', 'kv', 'obj', 'b']
    def grammar(self, n=None, names=None):
        n = len(names) if names else n or self.rnd.randint(1, self.nrules)
        self.names = list(names) if names else [x if self.rnd.random() < .95 else long_name(self.rnd, x) for x in self.rnd.sample(self.NAMES, n)]
        self.rules = {}
        self.recursive = False
        for i in reversed(range(n)):
            self.later = self.names[i + 1:]
            self.guarded = self.names[:i + 1]
            self.rules[self.names[i]] = self.rule(self.depth if i == 0 else self.rnd.randint(0, self.depth))
        return self

    def defs(self, order=None):
        names = list(order or self.names)
        out = []
        for n in names:
            out.append(n + self.st.tight() + '=' + self.st.tight() + render(self.rules[n], self.st))
        return out

    # ------------------------------------------------------------ texts
    def sample(self, r, sp=.15, budget=None):
        """chars that have a chance to match r; sp: how often whitespace is put before a part"""
        if budget is None:
            budget = [60]
        budget[0] -= 1
        rnd = self.rnd
        k = r['k']
        out = []
        def ws():
            if rnd.random() < sp:
                return [rnd.choice([32, 32, 32, 10, 9] if rnd.random() < .8 else WS) for _ in range(rnd.choice([1, 1, 1, 2, 3]))]
            return []
        if k in ('char', 'chars', 'string'):
            return ws() + list(r['tx'])
        if k == 'range':
            return ws() + [rnd.randint(r['a'], r['b']) if r['a'] <= r['b'] and rnd.random() < .5 else rnd.choice([r['a'], r['b']])]
        if k == 'eof':
            return []
        if budget[0] < 0:
            return []
        if k == 'cat':
            for x in r['rs']:
                out += self.sample(x, sp, budget)
            return out
        if k == 'alt':
            g = rnd.choice(r['gs'])
            return self.sample(rnd.choice(g), sp, budget)
        if k == 'opt':
            return self.sample(r['r'], sp, budget) if rnd.random() < .6 else []
        if k == 'grp':
            return self.sample(r['r'], sp, budget)
        if k == 'rep':
            top = r['mx'] or r['mn'] + rnd.choice([0, 1, 2, 4])
            n = rnd.randint(r['mn'], max(top, r['mn']))
            if rnd.random() < .15:
                n += 1
            for _ in range(n):
                out += self.sample(r['r'], sp, budget)
            return out
        if k == 'ref':
            return self.sample(self.rules[r['to']], sp, budget) if r['to'] in self.rules else []
        if k == 'blk':
            out = self.sample(r['op'], sp, budget)
            for _ in range(rnd.choice([0, 1, 1, 2, 3, 5])):
                c = rnd.random()
                if c < .55:
                    out += [self.c()]
                elif c < .65 and r['es']:
                    out += self.sample(r['es'][0], 0, budget)
                elif c < .8 and r['es']:
                    out += self.sample(r['es'][0], 0, budget) + self.sample(r['cl'], 0, budget)
                elif c < .9 and r['es'] and r['ex']:
                    out += self.sample(r['es'][0], 0, budget) + self.sample(rnd.choice(r['ex']), 0, budget)
                elif c < .93 and r['ex']:
                    out += self.sample(rnd.choice(r['ex']), 0, budget)
                elif c < .97:
                    w = self.sample(r['cl'], 0, budget)
                    out += w[:len(w) // 2]
                else:
                    out += [32]
            return out + (self.sample(r['cl'], 0, budget) if rnd.random() < .9 else [])
        raise ValueError(k)

    def mutate(self, t, n=1):
        rnd = self.rnd
        t = list(t)
        for _ in range(n):
            c = rnd.random()
            i = rnd.randint(0, len(t))
            if c < .25:
                t[i:i + 1] = []
            elif c < .45:
                t.insert(i, self.c())
            elif c < .6:
                if i < len(t):
                    t[i] = self.c()
            elif c < .7:
                t = t[:i]
            elif c < .85:
                t.insert(i, rnd.choice([32, 10, 9] if rnd.random() < .8 else WS))
            elif c < .93:
                j = rnd.randint(0, len(t))
                t = t[:i] + t[min(i, j):max(i, j)] + t[i:]
            else:
                t = t[i:] + t[:i]
        return t

    def text(self, name=None, limit=24, sp=None):
        """a text for the rule called name"""
        rnd = self.rnd
        r = self.rules[name or self.names[0]]
        c = rnd.random()
        sp = rnd.choice([0, .1, .3]) if sp is None else sp
        if c < .06:
            t = self.word(0, 6)
        else:
            t = self.sample(r, sp)
            if c < .35:
                t = self.mutate(t, rnd.choice([1, 1, 2, 3]))
            elif c < .5:
                t = t + self.sample(r, sp)
            elif c < .65:
                t = t + self.word(1, 3)
        t = [x for x in t if not 0xD800 <= x <= 0xDFFF]
        return t[:min(limit, 12) if self.recursive else limit]

def all_texts(alpha, n):
    """all texts over alpha with at most n chars"""
    out, last = [[]], [[]]
    for _ in range(n):
        last = [t + [c] for t in last for c in alpha]
        out += last
    return out
