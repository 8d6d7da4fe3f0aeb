"""The cases each property is explored with."""
import itertools, os, random
import run
from gen import *

NOTWS = [8, 14, 0x1C, 0x1D, 0x1E, 0x1F, 0x180E, 0x200B, 0x200C, 0x2060, 0xFEFF, 0x84, 0x86, 0x9F, 0xA1, 0x167F, 0x1681,
         0x1FFF, 0x2027, 0x202A, 0x202E, 0x2030, 0x205E, 0x2060, 0x2FFF, 0x3001, 33, 0x120, 0x10A, 0x10D, 0x185, 0x1A0] + [c + 0x10000 for c in (9, 10, 13, 32, 133, 160, 0x1680, 0x2003, 0x2028, 0x3000)]

def ev(name, tx, fl=1, via='', off=0, back=None):
    c = dict(op='eval', r=codes(name), tx=tx, off=off, fl=fl, via=via)
    if via == 'back':
        c['back'] = back or [2]
    return c

def parse(tx, lv=-1, via='', back=None):
    c = dict(op='parse', tx=tx, lv=lv, via=via)
    if via == 'back':
        c['back'] = back or [2]
    return c

def embed(name, tx):
    return dict(op='embed', r=codes(name), tx=tx)

def line(i, defs, calls):
    return dict(id=str(i), kind='eval', defs=[codes(d) if isinstance(d, str) else d for d in defs], calls=calls)

def backs(rnd):
    return [rnd.randint(0, 5) for _ in range(rnd.randint(1, 4))]

def some_eval(g, rnd, name=None, limit=24, sp=None):
    """an evaluation of some kind"""
    name = name or (g.names[0] if rnd.random() < .6 else rnd.choice(g.names))
    tx = g.text(name, limit, sp)
    c = rnd.random()
    if c < .15:
        return ev(name, tx, 1, 'rule')
    if c < .3:
        return ev(name, tx, rnd.choice([0, 1, 3]), 'user')
    if c < .45:
        return ev(name, tx, rnd.choice([0, 1, 3]), 'back', 0, backs(rnd))
    if c < .6:
        pre = g.word(0, 5)
        if rnd.random() < .5:
            pre += [10]
        return ev(name, pre + tx, rnd.choice([0, 1, 3]), rnd.choice(['', 'user']), len(pre))
    return ev(name, tx, rnd.choice([0, 1, 1, 3]))

def walk(g, rnd, limit=40):
    """evaluations one after another on one stream"""
    names = g.names
    seq = [rnd.choice(names) for _ in range(rnd.randint(3, 10))]
    tx = []
    for n in seq:
        tx += g.sample(g.rules[n], rnd.choice([0, .2]))
        if rnd.random() < .2:
            tx += g.word(1, 2)
    tx = [c for c in tx if not 0xD800 <= c <= 0xDFFF][:limit if not g.recursive else 14]
    out = []
    bk = backs(rnd) if rnd.random() < .4 else []
    for i, n in enumerate(seq):
        extra = [rnd.choice(names) for _ in range(rnd.choice([0, 0, 1, 2]))]   # may not match: all handed back
        for m in extra + [n]:
            out.append(dict(op='walk', r=codes(m), tx=tx, fl=rnd.choice([0, 1, 1, 3]), first=not out, back=bk))
    return out

def roots(g):
    used = set()
    def go(r):
        if r['k'] == 'ref':
            used.add(r['to'])
        for f in ('r', 'op', 'cl'):
            if f in r:
                go(r[f])
        for f in ('rs', 'es', 'ex'):
            for x in r.get(f, []):
                go(x)
        for gr in r.get('gs', []):
            for x in gr:
                go(x)
    for n in g.names:
        go(g.rules[n])
    return [n for n in g.names if n not in used] or g.names[:1]

def parse_text(g, rnd, limit=60, sp=None, mutated=.25):
    rts = roots(g)
    tx = []
    for _ in range(rnd.choice([1, 1, 2, 3, 5, 8])):
        tx += g.sample(g.rules[rnd.choice(rts)], rnd.choice([0, .1, .3]) if sp is None else sp)
    if rnd.random() < mutated:
        tx = g.mutate(tx, rnd.choice([1, 1, 2]))
    tx = [c for c in tx if not 0xD800 <= c <= 0xDFFF]
    return tx[:min(limit, 12) if g.recursive else limit]

def some_parse(g, rnd, limit=60, sp=None, lv=(-1, 0, 1, 2)):
    tx = parse_text(g, rnd, limit, sp)
    c = rnd.random()
    l = rnd.choice(lv)
    if l == -1 and c < .3:
        return parse(tx, -1, 'raw')
    if c < .5:
        return parse(tx, l, 'user')
    if c < .65 and len(tx) > 0:
        return parse(tx, l, 'back', backs(rnd))
    return parse(tx, l)

def some_embed(g, rnd, limit=40):
    name = g.names[0] if rnd.random() < .7 else rnd.choice(g.names)
    tx = []
    for _ in range(rnd.choice([1, 2, 3, 5])):
        tx += g.word(0, 3) + g.sample(g.rules[name], rnd.choice([0, 0, .2]))
        if rnd.random() < .15:
            tx += g.sample(g.rules[name], 0)
    if rnd.random() < .3:
        tx = g.mutate(tx)
    tx = [c for c in tx if not 0xD800 <= c <= 0xDFFF]
    if rnd.random() < .02:
        name = rnd.choice(['nowhere', '', 'EOF'])
    return embed(name, tx[:min(limit, 12) if g.recursive else limit])

def mixed_call(g, rnd):
    c = rnd.random()
    return some_eval(g, rnd) if c < .55 else some_parse(g, rnd) if c < .8 else some_embed(g, rnd)

def fillers(rnd):
    """rules of no use, that make a grammar larger"""
    return ['Fi%d = %s' % (k, rnd.choice(["'\u263a%d'", '"\u263a%d"', "'\u263a' { '%d' }"]) % k) for k in range(rnd.choice([4, 6, 9, 17, 33]))]

def random_lines(prefix, seed, n, ncalls, maker, caller, **kw):
    out = []
    for i in range(n):
        rnd = random.Random('%s/%s/%d' % (seed, prefix, i))
        g = maker(rnd)
        calls = []
        while len(calls) < ncalls:
            c = caller(g, rnd)
            calls += c if isinstance(c, list) else [c]
        defs = g.defs()
        if rnd.random() < .05:
            defs = fillers(rnd) + defs
        if rnd.random() < .3:
            rnd.shuffle(defs)
        out.append(line('%s-%d' % (prefix, i), defs, calls))
    return out

def enum_lines(prefix, defsets, texts, name='r', fls=(1,), op='eval', per=400, lv=-1):
    """every definition with every text"""
    out = []
    for d in defsets:
        defs = d if isinstance(d, (list, tuple)) else ['r = ' + d]
        calls = []
        for t in texts:
            for fl in fls:
                calls.append(ev(name, t, fl) if op == 'eval' else parse(t, lv) if op == 'parse' else embed(name, t))
        out.append(line('%s-%d' % (prefix, len(out)), list(defs), calls))
    return out

def pick(rnd, items, n):
    items = list(items)
    return items if len(items) <= n else rnd.sample(items, n)

def model_lines(rnd, part, n, alphabet=None, op='eval', fls=(0, 1, 3), kinds=None, maxlen=3, vias=('',), extra=()):
    """rules of a universe the model is checked with, evaluated on every short text"""
    rs = [g for g in run.generate('GenRules-' + part, False) if not kinds or g['k'] in kinds]
    texts = all_texts(codes(alphabet or ('abx' if part == 'blocks' else 'ab ')), maxlen) + [codes(t) for t in extra]
    out = []
    for k, g in enumerate(pick(rnd, rs, n)):
        calls = []
        for t in texts:
            if op == 'parse':
                calls.append(parse(t, -1, rnd.choice(vias)))
            elif op == 'embed':
                calls.append(embed('r', t))
            else:
                via = rnd.choice(vias)
                calls += [ev('r', t, fl, via, 0, backs(rnd)) for fl in ((1,) if via == 'rule' else fls)]
        out.append(line('model-%s-%s-%d' % (part, op, k), [codes('r = ') + g['d'], "q = 'a' | 'ab'"], calls))
    return out

# ---------------------------------------------------------------- by property

EVAL = {'match', 'error', 'used', 'define', 'crash'}

def seedof(seed, prop):
    return '%s/%s' % (seed, prop)

def long_literal_lines(prefix, seed, n):
    """long literals and long sequences, long chains of references, many alternatives"""
    out = []
    for i in range(n):
        rnd = random.Random('%s/%s/%d' % (seed, prefix, i))
        alpha = rnd.choice([codes('ab'), codes('abcdefghijklmnopqrstuvwxyz0123456789'), [0x1D538, 0x1F600, 97], [0xE9, 0x4E2D, 98]])
        w = lambda a, b: [rnd.choice(alpha) for _ in range(rnd.randint(a, b))]
        st = Style(rnd, True)
        q = lambda ws, s: s + ''.join(st.char(c, s) for c in ws) + s
        kind = rnd.choice(['lit', 'seq', 'chain', 'alts', 'deep', 'rng'])
        calls = []
        if kind == 'lit':
            ws = w(5, 60)
            defs = ['r = ' + q(ws, rnd.choice(['"', "'"]))]
            good = [ws]
        elif kind == 'seq':
            parts = [w(1, 3) for _ in range(rnd.randint(5, 24))]
            defs = ['r = ' + ' '.join(q(p, rnd.choice(['"', "'"])) for p in parts)]
            good = [sum(parts, []), sum([p + [32] for p in parts], [])]
        elif kind == 'chain':
            n_ = rnd.randint(5, 20)
            ws = w(1, 3)
            defs = ['r%d = %sr%d' % (k, rnd.choice(['', '', '~', '#', '$']), k + 1) for k in range(n_)] + ['r%d = %s' % (n_, q(ws, '"'))]
            defs = ['r = r0'] + defs
            good = [ws]
        elif kind == 'alts':
            parts = [w(1, 4) for _ in range(rnd.randint(5, 24))]
            txt = q(parts[0], rnd.choice(['"', "'"]))
            for p in parts[1:]:
                txt += ' ' + rnd.choice('||||>') + ' ' + q(p, rnd.choice(['"', "'"]))
            defs = ['r = ' + txt]
            good = parts + [p + [alpha[0]] for p in parts]
        elif kind == 'deep':
            d = rnd.randint(5, 25)
            ws = w(1, 2)
            txt = q(ws, "'")
            for _ in range(d):
                a, b = rnd.choice(['()', '[]', '{}', '()'])
                txt = rnd.choice(['', '', '', '~', '#', '$']) + a + ' ' + txt + ' ' + b
            defs = ['r = ' + txt]
            good = [ws, ws + ws, []]
        else:
            a = rnd.choice([97, 48, 0x1D538, 0xE9, 0x3B1, 0xFFFE, 0x10000])
            b = a + rnd.choice([0, 1, 5, 25, 100])
            defs = ['r = ' + q([a], "'") + '-' + (("'" + chr(b) + "'"))]
            good = [[c] for c in (a - 1, a, a + 1, b - 1, b, b + 1)]
        for t in good:
            for tx in (t, t[:-1], t + w(1, 2), [32, 10] + t, t[:len(t) // 2] + [rnd.choice(alpha)] + t[len(t) // 2 + 1:]):
                tx = [c for c in tx if not 0xD800 <= c <= 0xDFFF]
                calls.append(ev('r', tx, rnd.choice([0, 1, 3]), rnd.choice(['', '', 'user', 'rule'])))
                if calls[-1]['via'] == 'rule':
                    calls[-1]['fl'] = 1
        out.append(line('%s-%d' % (prefix, i), defs, calls[:60]))
    return out

def mk(weights=None, **kw):
    def maker(rnd):
        k = dict(kw)
        for x in list(k):
            if callable(k[x]):
                k[x] = k[x](rnd)
        return Gen(rnd, weights, plain=rnd.random() < .6, **k).grammar()
    return maker

def c01(rnd, seed, big):
    n = 2600 if big else 420
    e = []
    lits = ["'a'", "'ab'", '"a"', '"ab"', "'a'-'b'", '""', "' a'", '" a"', "' '", '" "', 'EOF']
    two = ['%s %s' % p for p in itertools.product(lits, lits)]
    three = ['%s %s %s' % p for p in itertools.product(lits, lits, lits)]
    forms = ['[ %s ] %s', '{ %s } %s', '( %s ) %s', '%s [ %s ]', '%s { %s }', '[ %s %s ]', '{ %s %s }', '%s | %s', '%s > %s',
             '{ %s }+ %s', '{ %s }<2> %s', '<%s %s>', '[ %s ] [ %s ]', '{ [ %s ] %s }', '{ %s | %s }']
    combos = [f % p for f in forms for p in itertools.product(lits, lits)]
    texts = all_texts(codes('ab '), 4 if big else 3)
    e += enum_lines('two', two, texts, fls=(0, 1, 3))
    e += enum_lines('form', pick(rnd, combos, 1800 if big else 500), texts, fls=(1, 3))
    e += enum_lines('three', pick(rnd, three, 1300 if big else 200), texts)
    return [('TraceEval', scale.huge(seed, 'c01', 'literal items content'.split(), 12 if big else 3)
             + scale.lines(seed, 'c01', 'rounds members alternatives literal depth chain content nested spaces name bounds'.split(), 66 if big else 22)
             + e
             + random_lines('mix', seed, n * 4, 14, mk(), some_eval)
             + random_lines('ref', seed, n * 2, 14, mk(dict(ref=14, cat=6), rules=7, undefined=.08), some_eval)
             + model_lines(rnd, 'leaves', 200, fls=(0, 1)) + model_lines(rnd, 'two', 9999 if big else 120, fls=(1, 3) if big else (1,))
             + long_literal_lines('long', seed, n))]

def c02(rnd, seed, big):
    n = 2600 if big else 420
    w = dict(opt=5, rep=5, alt=6, cat=8, chars=6, string=6, blk=2, char=3)
    ab = lambda rnd: rnd.choice([codes('ab'), codes('a b'), codes('a \n'), codes('ab\t '), [97, 98, 0x1D538]])
    look = ["[ 'aab' ] 'a' 'ab'", "{ 'ab' 'a' } 'ab'", "'aab' | 'aa' 'b' 'a' > 'a'", "[ 'a' 'b' 'c' ] [ 'a' 'b' ] 'a'",
            "{ \"a\" 'b' \"c\" } \"a\" 'b'", "<'a' 'b' ^'bb' 'ba'> 'a'", "<'a' 'b' !> { 'b' }", "{ [ 'ab' ] 'a' } { 'b' }",
            "( 'ab' 'ab' | 'ab' ) { 'a' | 'b' }", "[ { 'a' } 'b' ] { 'a' }", "\" a\" | 'a' > ' ' 'b'", "{ \" \" 'a' } \"b\"",
            "{ { 'a' }<2,3> 'b' } { 'a' }", "[ \"a b\" ] 'a' \"b\"", "{ 'a' [ 'b' 'a' 'b' ] }", "'a' [ 'a' [ 'a' 'b' ] 'b' ] 'a'"]
    e = enum_lines('look', look, all_texts(codes('ab '), 6 if big else 5))
    u = []
    for i, d in enumerate(look):
        for j, tx in enumerate(pick(rnd, all_texts(codes('ab '), 6)[300:], 120 if big else 30)):
            u.append(line('lay%d-%d' % (i, j), ['r = ' + d, 'q = {r}', 's = r | "a" \'b\''],
                          [ev('r', tx, 1, 'user'), ev('r', tx, 1, 'back', 0, [3, 2]), ev('q', tx, 1, 'back', 0, [1, 4, 2]), ev('s', tx, 0, 'user')]
                          + [dict(op='walk', r=codes(x), tx=tx, fl=1, first=k == 0, back=[2, 1]) for k, x in enumerate('sqrrsr')]))
    e += model_lines(rnd, 'deep', 2500 if big else 150, 'ab ', fls=(1,), vias=('', 'user', 'back'), extra=('abab', 'aab', 'a aa', 'bb a'))
    return [('TraceEval', scale.huge(seed, 'c02', 'parse search items'.split(), 12 if big else 3)
             + scale.lines(seed, 'c02', 'rounds members content nested spaces lines bounds'.split(), 42 if big else 14)
             + e + u
             + random_lines('walk', seed, n * 3, 14, mk(w, alphabet=ab), walk)
             + random_lines('walkx', seed, n * 2, 14, mk(), walk)
             + random_lines('back', seed, n * 3, 14, mk(w, alphabet=ab),
                            lambda g, r: ev(r.choice(g.names), g.text(r.choice(g.names)), r.choice([0, 1, 3]), 'back', 0, backs(r)))
             + random_lines('user', seed, n * 2, 14, mk(w), lambda g, r: ev(r.choice(g.names), g.text(r.choice(g.names)), r.choice([0, 1, 3]), 'user'))
             + random_lines('parse', seed, n, 10, mk(w, alphabet=ab), some_parse)
             + random_lines('embed', seed, n, 10, mk(w, alphabet=ab), some_embed))]

def choice_defs(rnd, big):
    leaf = ["'a'", "'ab'", '"a"', '"ab"', "'b'", "'a'-'b'", "('a' 'b')", "['a']", "{'a'}", "{'a'|'b'}", "' a'", '""', '" "', "('a' 'a' 'b')", "EOF"]
    out = ['%s %s %s' % (x, o, y) for x, y in itertools.product(leaf, leaf) for o in '|>']
    t = [(x, o, y, p, z) for x, y, z in itertools.product(leaf, leaf, leaf) for o in '|>' for p in '|>']
    out += ['%s %s %s %s %s' % a for a in pick(rnd, t, 5000 if big else 900)]
    for _ in range(1500 if big else 250):
        k = rnd.randint(4, 9)
        s = rnd.choice(leaf)
        for _ in range(k - 1):
            s += rnd.choice([' | ', ' | ', ' | ', ' > ']) + rnd.choice(leaf)
        out.append(s)
    return out

def c03(rnd, seed, big):
    n = 2000 if big else 350
    texts = all_texts(codes('ab'), 3) + [codes(t) for t in (' a', ' ab', 'a b', ' ', ' b', '  ab', 'aab', 'abab')]
    w = dict(alt=14, cat=3, rep=2, opt=2, chars=6, string=5, char=6)
    return [('TraceEval', scale.huge(seed, 'c03', 'items literal'.split(), 8 if big else 2)
             + scale.lines(seed, 'c03', 'alternatives literal nested alternatives'.split(), 48 if big else 16)
             + enum_lines('ch', choice_defs(rnd, big), texts) + model_lines(rnd, 'two', 9999 if big else 120, fls=(0, 1, 3) if big else (0, 1), kinds=('alt',))
             + random_lines('mix', seed, n * 4, 14, mk(w, alphabet=lambda r: r.choice([codes('ab'), codes('a b'), codes('aab'), codes('ab1')])), some_eval)
             + random_lines('any', seed, n * 2, 14, mk(w), some_eval)
             + [l for l in long_literal_lines('long', seed, n * 2) if True])]

def c04(rnd, seed, big):
    n = 2000 if big else 350
    inner = ["'a'", '"a"', "'ab'", "['a']", "'a' 'b'", "'a' | 'ab'", "{'a'}", "{'a'}<1,2>", "[ 'a' ] 'b'", '""', "' '", "'a'-'b'", "<'a' 'b'>", "{ ['a'] }<2,3>", "EOF", "'a' | 'a'"]
    bound = ['', '*', '+', '<0,0>', '<,>', '<1>', '<2>', '<2,>', '<2,0>', '<3,>', '<0,1>', '<1,1>', '<,2>', '<2,2>', '<1,3>', '<2,4>', '<3,3>', '<0,5>']
    tail = ['', " 'a'", ' "b"', " ['b']", " { 'b' }"]
    defs = ['{ %s }%s%s' % (i, b, t) for i in inner for b in bound for t in tail]
    defs += ["['%s']" % x for x in ('a', 'ab')] + ['[%s]%s' % (i, t) for i in inner for t in tail]
    defs += ['{ { %s }%s }%s' % (i, b, c) for i in inner for b, c in itertools.product(bound, bound)]
    texts = all_texts(codes('ab'), 4) + [codes(t) for t in (' a a', 'a a a a', 'aaaaa', 'ababab', 'aaaaaa', ' aab ', 'abbaab', '  ')]
    long = []
    for i in range(n):
        r = random.Random('%s/long/%d' % (seed, i))
        mn = r.choice([0, 1, 2, 5, 9, 10, 11, 16, 31, 32, 33, 50])
        mx = r.choice([0, mn, mn + 1, mn + 7, 2 * mn + 1])
        it = r.choice(["'a'", '"a"', "'a' | 'b'", "'ab'", "['b'] 'a'", "'a'-'c'", "{ 'a' }<2,2>"])
        d = 'r = { %s }<%s%d,%s%d>%s' % (it, r.choice(['', '', '0']), mn, r.choice(['', '', '00']), mx, r.choice(['', " 'a'", " 'z'", ' "b"']))
        unit = codes(r.choice(['a', 'a', 'ab', ' a', 'ba']))
        calls = []
        for k in {0, 1, mn - 1, mn, mn + 1, mx - 1, mx, mx + 1, mx + 2, 2 * mn, 60}:
            if k >= 0:
                calls.append(ev('r', unit * k + codes(r.choice(['', '', 'z', 'b', ' '])), r.choice([0, 1, 3]), r.choice(['', 'user', 'back'])))
        long.append(line('long-%d' % i, [d], calls))
    w = dict(rep=14, opt=6, cat=4, blk=.5)
    return [('TraceEval', scale.huge(seed, 'c04', 'items rounds rounds'.split(), 18 if big else 6)
             + scale.lines(seed, 'c04', 'rounds bounds bounds rounds nested'.split(), 60 if big else 20)
             + enum_lines('rep', pick(rnd, defs, 5000 if big else 900), texts) + long + model_lines(rnd, 'deep', 2500 if big else 150, fls=(0, 1) if big else (1,), extra=('aaaa', 'abab', 'a a a', 'aabb'))
             + random_lines('mix', seed, n * 4, 14, mk(w, maxrep=6, alphabet=lambda r: r.choice([codes('ab'), codes('a b'), codes('a')])), some_eval)
             + random_lines('any', seed, n * 2, 14, mk(w), some_eval))]

def c05(rnd, seed, big):
    n = 2000 if big else 350
    sets = [[97, 32], [97, 32, 10], [97, 9, 32], [97, 98, 32], [97, 0xA0, 32], [97, 0x3000, 10], [97, 13, 10]]
    def alpha(r):
        c = r.random()
        if c < .5:
            return r.choice(sets)
        if c < .8:
            return [97] + r.sample(WS, 3)
        return [97, r.choice(WS), r.choice(NOTWS), 32]
    lits = ["'a'", '"a"', "' '", '" "', "' a'", '" a"', "'a '", '"a "', "'  '", "'a'-'b'", "\\u0009-' '", "\\u000A", '"\\u000A"', "['a']", "{'a'}", '{"a"}', "('a' \"b\")", "['b' 'a']", '""', "<'a' 'b'>", "{' '}", "'a' | \"b\""]
    # matching nothing, sticky or not, and what comes after it
    nothing = ['[ %s ]' % x for x in ('{ "x" }', "{ 'x' }", '""', '[ "x" ]', "[ 'x' ]", '"x"', "'x'", '( { "x" } [ "x" ] )', "'y' | { \"x\" }", '~{ "x" }', "{ 'x' } { \"x\" }")]
    nothing += ['{ "x" }', "{ 'x' }", '{ [ "x" ] }', "{ [ 'x' ] }", '( [ "x" ] )', "( [ 'x' ] )", '{ "x" }<0,3>', "( { 'x' } \"\" )", "[ \"x\" ] [ 'x' ]", "[ 'x' ] [ \"x\" ]", "'y' > [ 'x' ]", "'y' | [ \"x\" ]", '"" ""']
    between = ['%s %s %s' % p for p in itertools.product(("'a'", '"a"', "{ 'a' }", '[ "a" ]'), nothing, ("'b'", '"b"', "{ 'b' }", "'b' \"x\""))] + ['%s %s' % p for p in itertools.product(nothing, ("'b'", '"b"', "'b' \"x\""))]
    two = ['%s %s' % p for p in itertools.product(lits, lits)]
    groups = []
    for k in range(2, 8):
        for _ in range(24 if big else 8):
            alts = [rnd.choice(["'%s'", '"%s"']) % w for w in ('x', 'y', 'z', 'v', 'w', 'u', 'xy')[:k - 1]] + [rnd.choice(["'a'", '"a"', "'a'"])]
            if rnd.random() < .5:
                rnd.shuffle(alts)
            d = alts[0] + ''.join(' %s %s' % (rnd.choice('>>>|'), a) for a in alts[1:])
            groups += [d + rnd.choice([" 'b'", ' "b"', " ( 'b' | 'c' )", " [ \"x\" ] 'b'"]), '( %s ) \'b\'' % d, '{ %s }' % d]
    three = ['%s %s %s' % p for p in itertools.product(lits, lits, lits)]
    texts = [codes(t) for t in ('a a', 'aa', ' a', '  a', 'a  a', ' a a', '   ', 'a \n a', '\n', '\na', 'ab', 'a b', ' a b', 'a\n\nb a', 'a a a', 'a b a', ' ', 'a ', 'ab ab', ' \na')]
    every = []
    for c in WS + NOTWS + [0, 0x7F, 0x300, 0x2800, 0xFFFC, 0x1F600]:
        u = [c]
        defs = ["r = 'a' 'b'", 'q = "a" "b"', 's = "a" \'b\'', "t = { 'a' }", "u = 'a' [ \"x\" ] 'b'", "v = '%sa' | '%s'" % (('\\u%04X' % c if c < 65536 else chr(c),) * 2),
                'w = "%sa"' % ('\\u%04X' % c if c < 65536 else chr(c)), "x = \\u0009-\\u3000 'a'"]
        calls = []
        for tx in (u + [97] + [98], [97] + u + [98], u + u + [97] + u + u + [98], u, u + u, [97] + u, [32] + u + [97], u + [32, 97, 98], [97, 97] + u + [97]):
            for nm in 'rqstuvwx':
                for fl in (0, 1, 3):
                    calls.append(ev(nm, tx, fl))
        every.append(line('ws-%04X' % c, defs, calls))
    w = dict(string=6, chars=5, char=5, opt=3, rep=3, cat=9, alt=3, grp=3, eof=1)
    return [('TraceEval', scale.huge(seed, 'c05', 'spaces parse spaces column'.split(), 16 if big else 4)
             + scale.lines(seed, 'c05', 'spaces members spaces column'.split(), 48 if big else 16)
             + every + enum_lines('two', two, texts, fls=(0, 1, 3)) + enum_lines('three', pick(rnd, three, 4000 if big else 500), texts)
             + model_lines(rnd, 'two', 9999 if big else 120, 'a b', fls=(0, 1, 3), kinds=('cat',)) + model_lines(rnd, 'deep', 2500 if big else 80, 'a b', fls=(0, 1) if big else (1,))
             + enum_lines('groups', groups, [codes(t) for t in ('ab', 'a b', ' a b', 'a  b', 'x b', 'xb', 'a a', ' a xa', 'aaa', 'a')], fls=(0, 1))
             + enum_lines('between', between, [codes(t) for t in ('ab', 'a b', 'a  b', ' a b', 'a x b', 'axb', 'ax b', ' b', 'b', 'a', 'a ', 'a b x', 'abx', 'aa b')], fls=(0, 1))
             + random_lines('mix', seed, n * 4, 14, mk(w, alphabet=alpha), lambda g, r: some_eval(g, r, sp=.4))
             + random_lines('walk', seed, n, 12, mk(w, alphabet=alpha), walk)
             + random_lines('parse', seed, n, 10, mk(w, alphabet=alpha), lambda g, r: some_parse(g, r, sp=.4, lv=(-1,))))]

def c06(rnd, seed, big):
    n = 2000 if big else 350
    op = ["'a'", '"a"', "''a".replace("''a", "'<'"), '""', "'ab'", "['a']"]
    cl = ["'b'", '"b"', "'bb'", "EOF", "('b' | 'c')", "('b' 'c')", "' '", "' b'", '" b"', '"b "', "{'b'}<1,2>", "['b']", "( EOF | 'b' )"]
    es = ['', "'e'", '"e"', "'ee'", "['e']", "'b'", "('e' 'e' | 'e')"]
    ex = ['', "^'x'", "^'xb'", "^'b'", "^'x' ^'xx'", "^('x' | 'c')", '^"x"', "^' '", "^{'x'}<2>", "^'x' ^\"xb\"", "^'xb' ^\"x\"", "^\"xb\" ^'x'", "^\"x\" ^'xe' ^'xxb'"]
    defs = []
    for o, e, x, c, v, t in itertools.product(op, es, ex, cl, ('', '!'), ('', " 'b'", ' { "b" }')):
        defs.append('<%s> %s' % (' '.join(y for y in (o, e, x, c, v) if y), t))
    base = all_texts(codes('bex'), 3)
    texts = [[97] + t for t in base] + [[97] + t + [98] for t in base] + [codes(t) for t in ('', 'b', 'a', 'a b', 'a  b', 'ab b', 'aeeb', 'aeebb', 'axebb', 'a\nbc', 'aexb', 'aeexb', 'ab', 'a cbc', 'aebebb', '<b', 'abb')]
    w = dict(blk=12, cat=3, alt=2, rep=1, opt=1, ref=2)
    al = lambda r: r.choice([codes('abe'), codes('ab '), codes('\\"a'), codes('*/a'), codes('ab\n'), [97, 98, 0x1D538], codes('abcdx')])
    return [('TraceEval', scale.huge(seed, 'c06', 'content'.split(), 8 if big else 2)
             + scale.lines(seed, 'c06', 'content nested content'.split(), 36 if big else 12)
             + model_lines(rnd, 'blocks', 999 if big else 90, maxlen=5 if big else 4, fls=(1,)) + enum_lines('blk', pick(rnd, defs, 3000 if big else 420), pick(rnd, texts, 120 if big else 70))
             + random_lines('mix', seed, n * 5, 14, mk(w, alphabet=al), lambda g, r: some_eval(g, r, limit=40))
             + random_lines('deep', seed, n * 2, 14, mk(w, alphabet=al, depth=2, rules=2), lambda g, r: some_eval(g, r, limit=80))
             + random_lines('parse', seed, n, 8, mk(w, alphabet=al), some_parse))]

def c07(rnd, seed, big):
    n = 2000 if big else 320
    rs = ["'a'", '"a"', "'ab'", '"ab"', "'b'", "['a']", "{'a'}", "('a' 'b')", "' a'", '" "', "{'a'}+", "EOF", "'a' EOF", "\"a\" EOF", "<'a' 'b'>", "'a'-'b'"]
    sets = [['r = ' + a] for a in rs]
    sets += [['r = ' + a, 'q = ' + b] for a, b in itertools.combinations_with_replacement(rs, 2)]
    tri = list(itertools.combinations(rs, 3))
    sets += [['r = ' + a, 'q = ' + b, 's = ' + c] for a, b, c in pick(rnd, tri, 400 if big else 120)]
    texts = all_texts(codes('ab '), 4 if big else 3) + [codes(t) for t in ('abab', 'a b a', 'aaaa', 'ab ab ab', 'a\n', '\na', 'aab b')]
    w = dict(alt=3, cat=5, opt=1, rep=2, blk=1, eof=.6)
    long = []
    for i in range(n // 2):
        r = random.Random('%s/long/%d' % (seed, i))
        k = r.randint(2, 6)
        names = ['r%d' % j for j in range(k)]
        ws = [''.join(r.choice('abc') for _ in range(r.randint(1, 3))) for _ in names]
        defs = ['%s = %s' % (nm, r.choice(['"%s"', "'%s'", "{ '%s' }+", '"%s" ["x"]']) % x) for nm, x in zip(names, ws)]
        tx = []
        for _ in range(r.randint(20, 120)):
            tx += codes(r.choice(ws) + r.choice(['', ' ', '\n', ' ']))
        calls = [parse(tx, r.choice([-1, 0]), r.choice(['', 'user', 'raw']))]
        calls[0]['lv'] = -1 if calls[0]['via'] == 'raw' else calls[0]['lv']
        calls.append(parse(tx[:-1] if tx[-1] in (32, 10) else tx, -1))
        calls.append(parse(tx + codes('?'), -1))
        calls.append(parse(tx[:r.randint(1, len(tx))], 0))
        long.append(line('long-%d' % i, defs, calls))
    return [('TraceEval', scale.huge(seed, 'c07', 'parse lines parse wrong'.split(), 16 if big else 4)
             + scale.lines(seed, 'c07', 'roots matches lines column'.split(), 48 if big else 16)
             + enum_lines('set', sets, texts, op='parse') + long + model_lines(rnd, 'two', 9999 if big else 100, op='parse', vias=('', 'user', 'raw', 'back')) + model_lines(rnd, 'deep', 2500 if big else 80, op='parse')
             + random_lines('mix', seed, n * 5, 12, mk(w, rules=6, alphabet=lambda r: r.choice([codes('ab'), codes('ab '), codes('abc'), codes('a\n')]), undefined=.005), some_parse)
             + random_lines('any', seed, n * 3, 12, mk(w, rules=5), some_parse))]

def c08(rnd, seed, big):
    n = 2000 if big else 320
    rs = ["'a'", '"a"', "'ab'", '"ab"', "['a']", "{'a'}", "{'a'}+", "('a' 'b')", "' a'", '" "', "EOF", "'a' EOF", "<'a' 'b'>", "<'a' 'e' 'b'>", "<'a' 'b' !>", "'a' | 'aa'", "'a' | 'ab' > 'b'", "'a' [ 'b' 'a' ]",
          "[ 'ab' ] 'a'", '"a" "b"', "{ 'a' 'b' }+", "'a'-'b'", "{ 'a' | \"b\" }", "'a' 'a' 'b'", "{ 'ab' } 'b'", "<\"\" 'b'>", "{ [ 'a' ] }"]
    texts = all_texts(codes('ab '), 5 if big else 4)
    w = dict(alt=4, cat=6, opt=2, rep=3, blk=2, eof=.4)
    al = lambda r: r.choice([codes('ab'), codes('ab '), codes('abc'), codes('a\n'), codes('abx'), [97, 0x1F600, 32]])
    return [('TraceEval', scale.huge(seed, 'c08', 'search plain'.split(), 16 if big else 4)
             + scale.lines(seed, 'c08', 'matches content roots matches'.split(), 48 if big else 16)
             + enum_lines('one', rs, texts, op='embed') + model_lines(rnd, 'two', 9999 if big else 100, op='embed') + model_lines(rnd, 'blocks', 999 if big else 60, op='embed') + model_lines(rnd, 'deep', 2500 if big else 80, op='embed')
             + random_lines('mix', seed, n * 6, 12, mk(w, alphabet=al), some_embed)
             + random_lines('long', seed, n, 4, mk(w, alphabet=al), lambda g, r: some_embed(g, r, 160))
             + random_lines('any', seed, n * 2, 12, mk(w), some_embed))]

def c09(rnd, seed, big):
    n = 2000 if big else 320
    def c(g, r):
        x = r.random()
        return some_eval(g, r, limit=30) if x < .5 else some_parse(g, r, lv=(-1,)) if x < .85 else some_embed(g, r)
    return [('TraceEval', scale.huge(seed, 'c09', 'parse items'.split(), 8 if big else 2)
             + scale.lines(seed, 'c09', 'rounds members content lines depth nested column name'.split(), 48 if big else 16)
             + model_lines(rnd, 'deep', 2500 if big else 150, fls=(1,)) + model_lines(rnd, 'blocks', 999 if big else 60, fls=(1,)) + random_lines('mix', seed, n * 5, 14, mk(ann=.02), c)
             + random_lines('named', seed, n * 5, 14, mk(dict(ref=14, grp=4, opt=4, rep=5, blk=3), rules=7), c)
             + random_lines('uni', seed, n * 2, 14, mk(alphabet=lambda r: r.choice([[97, 0x1D538], [0xE9, 0x4E2D, 32], [0x1F600, 10, 98], [0xFFFD, 0x10FFFF, 97]])), c)
             + long_literal_lines('long', seed, n // 2))]

def multiline(g, rnd):
    """a text with many lines"""
    tx = []
    for _ in range(rnd.randint(1, 8)):
        tx += g.sample(g.rules[rnd.choice(roots(g))], .2)
        tx += rnd.choice([[], [10], [10], [32], [13, 10], [10, 10], [9], [10, 32, 32]])
    while tx and rnd.random() < .7 and tx[-1] in (10, 32, 13, 9):
        tx.pop()
    return [c for c in tx if not 0xD800 <= c <= 0xDFFF][:12 if g.recursive else 90]

def c10(rnd, seed, big):
    n = 2000 if big else 320
    al = lambda r: r.choice([[97, 10], [97, 10, 32], [97, 98, 10], [97, 13, 10], [0x1D538, 10, 97], [97, 9, 10, 32], [97, 98, 32], [0x4E2D, 10]])
    def c(g, r):
        x = r.random()
        tx = multiline(g, r)
        if x < .3:
            return parse(tx, r.choice([-1, -1, 0, 1]), r.choice(['', 'user']))
        if x < .45:
            return parse(tx, -1, 'back', backs(r))
        if x < .6:
            return embed(r.choice(g.names), tx)
        if x < .75:
            pre = [r.choice([10, 97, 32]) for _ in range(r.randint(0, 8))]
            return ev(r.choice(g.names), pre + tx, r.choice([0, 1, 3]), r.choice(['', 'user', 'back']), len(pre), backs(r))
        return ev(g.names[0], tx, r.choice([0, 1, 3]), r.choice(['', 'back', 'user']), 0, backs(r))
    w = dict(opt=4, rep=5, alt=5, cat=7, blk=2.5, string=6, chars=6, range=4)
    lit = ["'a'", '"a"', "'\\u000A'", '"\\u000A"', "'\\u000Aa'", '" a"', "' a'", "'a\\u000A'", "\\u0009-' '", "'a'-'b'", "['x']", "{\"a\"}", "<'a' 'b'>", '""', "('a' | \"b\")", "<\"\" 'b'>", "{ \"a\" | '\\u000A' }", "['a' 'x'] \"a\""]
    e = enum_lines('seq', ['%s %s' % p for p in itertools.product(lit, lit)], [codes(t) for t in
        ('a\na', '\n\na\na', 'a a', ' \n a\n  a', 'aa', '\na', 'a\n', 'a\n\n', '\n\n', ' a', 'a\nb', 'aab\na', '\n  ab', 'abab', 'b', ' b\nb', 'ab\nab')])
    long = []
    for i in range(n // 2):
        r = random.Random('%s/long/%d' % (seed, i))
        defs = ["r = { item }+", "item = " + r.choice(['"a" | "b" [ "c" ]', "{ 'a'-'z' }+ [ ';' ] { '\\u000A' }", "\"ab\" | \"a\" > 'b'", "<'(' ')'> | \"x\"", "key \"=\" value \";\"\n"]).strip()]
        if 'key' in defs[1]:
            defs += ["key = { 'a'-'c' }+", "value = <'\"' '\\\\' '\"'> | key"]
        for k_, unit in (('"a" |', ['a', 'b c', 'a\nb']), ('{ ', ['abc;\n', 'x\n\n', 'zz;']), ('"ab"', ['ab', 'a', 'b']), ('<', ['(a\nb)', 'x', '(\n\n)']),
                         ('key', ['a = "b\\"\nc";', 'b=c ;\n', 'ab  =\nab;'])):
            if defs[1][7:].startswith(k_):
                break
        tx = []
        for _ in range(r.randint(10, 60)):
            tx += codes(r.choice(unit) + r.choice(['', ' ', '\n', '\n\n  ', '\r\n']))
        tx = tx[:300]
        long.append(line('long-%d' % i, defs, [ev('r', tx, 1), ev('r', tx, 1, 'user'), parse(tx, r.choice([-1, 0])), embed('item', tx[:120])]))
    e += model_lines(rnd, 'deep', 2500 if big else 100, 'a\n', fls=(1,), vias=('', 'user', 'back'), maxlen=4) + model_lines(rnd, 'two', 9999 if big else 80, 'a \n', fls=(1,))
    return [('TraceEval', scale.huge(seed, 'c10', 'lines column items lines'.split(), 16 if big else 4)
             + scale.lines(seed, 'c10', 'lines column spaces'.split(), 45 if big else 15)
             + e + long + random_lines('mix', seed, n * 6, 12, mk(w, alphabet=al), c)
             + random_lines('walk', seed, n * 2, 12, mk(w, alphabet=al), lambda g, r: walk(g, r, 60))
             + random_lines('any', seed, n, 12, mk(), c))]

def c11(rnd, seed, big):
    n = 2000 if big else 320
    ops = ["'a'", "'ab'", '"a"', "'a'-'b'", "['a']", "{'a'}", "('a')", "q", "<'a' 'b'>", "EOF", "\\u0061", "('a' | 'b')", "{q}", "[q]", "(q)"]
    anns = ['', '~', '#', '$', '~#', '#$', '$~', '~#$', '~~', '$ ~', '# ']
    qs = ["'a'", "~'a'", "#'a'", "$'a'", "~#$'a'", "$('a')", "~{'a'}", "#['a']", "~q2", "~#q2", "'a' 'b'", "~'a' | 'b'"]
    sets = []
    for a, o in itertools.product(anns, ops):
        for q in pick(rnd, qs, 12 if big else 4):
            for f in ('%s', "%s 'b'", "'a' | %s", "'a' %s", '[ %s ]'):
                sets.append(['r = ' + f % (a + o), 'q = ' + q, 'q2 = ' + rnd.choice(["~'a'", "'a'", "$#'a'", "~#('a')"])])
    gaps = []
    for a, g in itertools.product(('~', '#', '$', '~#', '$~#'), (' ', '\n', '\t', ' // c\n', '//\n', '\n// a\n// b\n', '\u3000', ' //| x\n ')):
        for f in ('%s', "%s 'b'", "'x' | %s", "'x' > %s", "'x' | 'y' > %s | 'z'", "'a' %s", '[ %s ]', '{ %s }', '( %s )', "<%s 'b'>" if '//' not in g and '\n' not in g else '( %s )'):
            o = rnd.choice(ops[:13])
            for x in (a + g, a[0] + g + a[1:] + rnd.choice(['', g]) if len(a) > 1 else g + a + g):
                gaps.append(['r = ' + f % (x + o), "q = 'a'", "q2 = 'a'"])
    texts = [codes(t) for t in ('a', 'ab', 'aa', 'aab', '', 'b', ' a')]
    def c(g, r):
        x = r.random()
        return some_eval(g, r) if x < .6 else some_parse(g, r, lv=(-1,)) if x < .85 else some_embed(g, r)
    return [('TraceEval', scale.lines(seed, 'c11', 'chain depth name nested marked marked marked marked'.split(), 160 if big else 48)
             + enum_lines('ann', pick(rnd, sets, 5000 if big else 1200), texts)
             + enum_lines('gap', pick(rnd, gaps, 9999 if big else 300), texts)
             + random_lines('mix', seed, n * 4, 12, mk(ann=.4), c)
             + random_lines('ref', seed, n * 4, 12, mk(dict(ref=16), ann=.35, rules=7), c)
             + random_lines('plain', seed, n, 12, mk(ann=.15), c))]

import scale    # needs what is above
