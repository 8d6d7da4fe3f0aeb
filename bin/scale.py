"""Large cases: many rounds, members, alternatives, lines, roots, layers, long literals, names and texts,
deep nesting of rules and of texts. Sizes are around the powers of two and of ten, where limits are."""
import random
from gen import codes
from work import ev, parse, embed, line, backs

SIZES = {'rounds': [31, 64, 99, 128, 255, 257, 300, 511, 513], 'members': [16, 33, 65, 100, 129], 'alternatives': [10, 17, 33, 64, 101, 130],
         'literal': [31, 63, 65, 127, 129, 255, 257, 520], 'depth': [12, 20, 33, 50], 'chain': [20, 33, 65, 101, 150], 'content': [63, 127, 256, 512, 1030],
         'roots': [9, 17, 33, 65], 'matches': [33, 65, 101, 130, 260], 'lines': [10, 33, 100, 130, 257, 520], 'column': [80, 127, 130, 256, 300, 600],
         'name': [16, 31, 33, 64, 65, 129, 260], 'spaces': [9, 17, 33, 65, 129, 257, 520], 'nested': [5, 9, 17, 20], 'marked': [15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257], 'bounds': [12, 33, 64, 100, 127, 129, 255, 257]}

def word(r, alpha, n):
    return ''.join(r.choice(alpha) for _ in range(n))

def name(r, n):
    return r.choice('abXY') + word(r, 'abcXYZ019_', n - 1)

def calls_for(r, nm, good, fl=(0, 1, 3), near=True):
    """a text that matches and some that nearly do"""
    out = []
    tx = codes(good)
    ts = [tx]
    if near:
        ts += [tx[:-1], tx + codes(r.choice(['a', ' ', 'z']))]
        k = r.randrange(len(tx)) if tx else 0
        ts.append(tx[:k] + codes(r.choice('az ')) + tx[k + 1:])
        k = len(tx) - 1 - r.randrange(min(len(tx), 5)) if tx else 0
        ts.append(tx[:k] + codes(r.choice('az\n')) + tx[k:])
    for t in ts:
        via = r.choice(['', '', 'user', 'back', 'rule'])
        out.append(ev(nm, t, 1 if via == 'rule' else r.choice(fl), via, 0, [r.choice([1, 3, len(t) // 2, len(t) - 1, len(t)]) for _ in range(r.randint(1, 3))]))
    return out

def one(r, kind):
    """definitions, name of the rule of interest, a text for it, more calls"""
    n = r.choice(SIZES[kind])
    sp = r.choice(['', '', ' ', '\n'])
    more = []
    if kind == 'rounds':
        it, unit = r.choice([("'a'", 'a'), ('"ab"', 'ab'), ("'a'-'z'", 'q'), ("'ab' | 'a'", 'ab'), ("item", 'a'), ("[ 'b' ] 'a'", 'a'), ("'a' > 'b'", 'b')])
        defs = ['r = %s{ %s }%s' % (r.choice(['', '~', '#', '$']), it, r.choice(['', '+', '*'])), "item = 'a'"]
        good = (unit + (sp if '"' in it else '')) * n
    elif kind == 'bounds':
        m = r.choice([0, 1, n, n + 1, n + 3])
        defs = ['r = { %s }<%d,%s>' % (r.choice(["'a'", '"a"', "'b' | 'a'"]), n, m if m >= n else '')] if r.random() < .6 else ['r = { \'a\' }<%d,%d> "a"' % (r.choice([0, 1]), n)]
        k = r.choice([n - 1, n, n + 1, n + 2, n + 4])
        good = 'a' * k
    elif kind == 'members':
        ws = [word(r, 'ab', r.choice([1, 1, 2])) for _ in range(n)]
        q = [r.choice('"\'') for _ in ws]
        defs = ['r = ' + ' '.join('%s%s%s' % (c, w, c) for c, w in zip(q, ws))]
        good = ''.join(w + (' ' if c == '"' and d == '"' and r.random() < .5 else '') for w, c, d in zip(ws, q, q[1:] + ["'"]))
    elif kind == 'alternatives':
        ws = [word(r, 'ab', r.randint(2, 9)) for _ in range(n)]
        if r.random() < .4:
            ws[-1] = ws[0] + 'ab'
        ops = r.choice(['||||||>', '>', '|>'])
        defs = ['r = %s"%s"' % ('', ws[0]) + ''.join(' %s %s%s%s%s' % (r.choice(ops), r.choice(['', '', '~', '#']), c, w, c) for w in ws[1:] for c in [r.choice('"\'')])]
        good = r.choice([ws[-1], ws[-2], ws[n // 2], ws[0]])
    elif kind == 'literal':
        w = word(r, r.choice(['ab', 'abcdefghij', 'é中a', 'a b']), n)
        w = 'x' + w[1:-1] + 'y'
        c = r.choice('"\'')
        defs = ['r = %s%s%s' % (c, w, c) + r.choice(['', " | '%s'" % w[:-1], ' > "x"'])]
        good = w
    elif kind == 'depth':
        w = r.choice(['a', 'ab'])
        t = "'%s'" % w
        for k in range(n):
            a, b = r.choice(['()', '()', '[]']) if r.random() < .9 else '{}' if k == 0 else '()'
            t = r.choice(['', '', '', '', '~', '#', '$']) + a + ' ' + t + ' ' + b
        defs = ['r = ' + t, 'q = %s "b"' % t]
        good = w
        more = [ev('q', codes(w + ' b'), 1)]
    elif kind == 'chain':
        defs = ['r = r1'] + ["r%d = %sr%d%s" % (k, r.choice(['', '', '', '~', '#', '$', '~#']), k + 1, '') for k in range(1, n)] + ["r%d = %s" % (n, r.choice(["'ab'", '"ab"', "~'ab'"]))]
        good = 'ab'
    elif kind == 'content':
        e = r.choice(['', "'e'", "'\\\\'"])
        ch = {'': 'ac \n', "'e'": 'ac \nee', "'\\\\'": 'ac\\\n'}[e]
        defs = ['r = <\'(\' %s %s %s>' % (e, r.choice(['', "^'x'", "^'xx' ^'xy'"]), r.choice(["')'", "'))'", '")"']))]
        good = '(' + word(r, ch, n) + ('a))' if '))' in defs[0] else 'a)')
        if r.random() < .5 and e:
            k = r.randrange(2, len(good) - 3)
            good = good[:k] + ('e' if e == "'e'" else '\\') + ')' + good[k:]
        if r.random() < .3:
            good = good[:-3] + 'x' + good[-3:]
    elif kind == 'name':
        a, b = name(r, n), name(r, n)
        defs = ['%s = "a" %s' % (a, b), "%s = 'b' | \"c\"" % b] if a != b else ["%s = 'a'" % a]
        return defs, a, 'a b', [parse(codes('a b a c'), lv) for lv in (-1, 0)] + [embed(b, codes('abcab'))]
    elif kind == 'spaces':
        w = ''.join(r.choice(' \n\t\u3000') for _ in range(n)) if r.random() < .7 else ' ' * n
        defs = ['r = ' + r.choice(['"a" "b"', "\"a\" 'b'", "{ \"a\" } [ 'b' ]", "\"a\" ( 'x' | 'b' )", '"a" \'\\u000Ab\'', "\"a\" EOF"])]
        good = w + 'a' + w + 'b'
    elif kind == 'marked':
        a = r.choice(['~', '#', '$', '~#', '#$', '~$', '~#$', '#', '$'])
        w = word(r, 'abc', n)
        t, good = r.choice([("'%s'" % w, w), ('"%s"' % w, w), ("{ 'a'-'c' }+", w), ("{ \"a\" }<%d,>" % n, 'a ' * n), ("<'(' ')'>", '(' + w + ')'), ("( '%s' | '%s' )" % (w, w[:-1]), w),
                            ("[ '%s' ]" % w, w), ('r' + w, 'ab'), ('item', w), ("( %s )" % ' '.join("'%s'" % x for x in w[:40]), w[:40])])
        defs = ['r = ' + r.choice(['%s%s', "'x' | %s%s", "%s%s ';'", '[ %s%s ]', '{ %s%s }+']) % (a, t)] + ["item = \"%s\"" % w] * (t == 'item') + ["r%s = ~'ab' | 'c'" % w] * (t == 'r' + w)
        if "';'" in defs[0]:
            good += ';'
        more = [parse(codes(good), -1), embed('r', codes('--' + good))]
    elif kind == 'nested':
        d = r.choice(["'(' [ r ] ')'", '"(" { r } ")"', "'(' ( r | 'x' > ')' ) ')'", "<'<' '>'> | ( '(' [ r ] ')' )", "'(' ~r ')' | 'x'"])
        defs = ['r = ' + d]
        core = 'x' if "'x'" in d and '[' not in d else ''
        good = '(' * n + core + ')' * n
        if d.startswith("'(' ~r"):
            defs = ["r = ( '(' ~r ')' ) | 'x'"]
    elif kind == 'lines':
        defs = ['r = { item }+', 'item = ' + r.choice(['"a" | "b"', "\"a\" [ ';' ]", "{ 'a'-'c' }+ \"\\u000A\""])]
        good = ''.join(word(r, 'ab', r.choice([1, 1, 2, 3])) + r.choice(['\n', '\n', '\n\n', '\r\n', ' \n  ']) for _ in range(n))[:900]
        if 'u000A' not in defs[1]:
            good = good.replace('ab', 'a\nb')
        good += 'a'
        t = codes(good)
        k = r.randint(1, len(t))
        more = [parse(t, -1), parse(t, 0, 'user'), embed('item', t[:400]), ev('item', t, 1, '', k), ev('item', t + [97], 0, 'back', k, [k, 3])]
    elif kind == 'column':
        defs = ['r = { item }+', 'item = "a" | "b" [ \'c\' ]']
        good = '\n' * r.choice([0, 0, 1, 12]) + ''.join(r.choice(['a ', 'b ', 'bc', 'a', '  ']) for _ in range(n // 2)) + 'a'
        t = codes(good)
        more = [parse(t, -1), embed('item', t[:300])]
    elif kind == 'roots':
        ws = list({word(r, 'abc', r.randint(1, 6)) for _ in range(n)})
        defs = ['r%d = %s%s%s' % (k, c, w, c) for k, w in enumerate(ws) for c in [r.choice('"\'')]]
        t = ''.join(r.choice(ws) + r.choice(['', ' ']) for _ in range(6)).strip()
        return defs, 'r0', ws[0], [parse(codes(x), r.choice([-1, 0])) for x in (t, ws[-1], ws[len(ws) // 2], t + 'z')]
    elif kind == 'matches':
        defs = r.choice([['r = "a"', "q = 'b' [ 'c' ]"], ["r = 'ab' | 'a'", 'q = "b c"'], ['r = { "a" }<1,3>', "q = 'b'"], ["r = <'a' 'b'>"]])
        unit = ['ab', 'a', 'a'] if len(defs) == 1 else ['a', 'b', 'a ', 'bc'] if 'c' in defs[1] and 'b c' not in defs[1] else ['ab', 'a', 'b c '] if 'b c' in defs[1] else ['a', 'b', 'aa']
        t = codes(''.join(r.choice(unit) for _ in range(n)).rstrip())
        return defs, 'r', 'a', [parse(t, -1), parse(t + [122], 0), parse(t, 0, 'user'), embed('r', (t + codes('xx'))[:300]), embed('r', codes('x' * n) + t[:50])]
    return defs, 'r', good, more

def lines(seed, prop, kinds, n):
    out = []
    for i in range(n):
        r = random.Random('%s/scale/%s/%d' % (seed, prop, i))
        kind = kinds[i % len(kinds)]
        defs, nm, good, more = one(r, kind)
        out.append(line('scale-%s-%d' % (kind, i), defs, calls_for(r, nm, good) + more))
    return out

def grams(seed, prop, kinds, n, use):
    """the same for a grammar built definition by definition; use: calls made of a rule's name"""
    out = []
    for i in range(n):
        r = random.Random('%s/scale/%s/%d' % (seed, prop, i))
        kind = kinds[i % len(kinds)]
        defs, nm, good, more = one(r, kind)
        calls = []
        for d in defs:
            a, b = d.split('=', 1)
            calls.append(dict(op='rule', nm=codes(a.strip()), **{'def': codes(b)}) if r.random() < .6 else dict(op='add', **{'def': codes(d)}))
        for d in defs:
            calls += use(d.split('=', 1)[0].strip(), False)
        calls += [c for x in calls_for(r, nm, good)[:4] + more[:3] for c in use(x, True)]
        out.append(dict(id='scale-%s-%d' % (kind, i), kind='gram', calls=calls))
    return out

# ---------------------------------------------------------------- beyond a thousand

WORDS = ["word = \"\" { 'a'-'z' }+", "num = \"\" { '0'-'9' }+", "str = <\"\\\"\" '\\\\' '\"'>", 'punct = ~"," | #\';\'']

def words(r, n, seps):
    out = []
    while sum(map(len, out)) < n:
        out.append(r.choice(['ab', 'a', '12', '"x y"', '"p\\"q"', ',', 'name', '7', '"\n"']))
        out.append(r.choice(seps))
    return codes(''.join(out).strip())

def one_huge(r, kind):
    """(definitions, call)"""
    n = r.choice([1025, 2050, 4097, 4200])
    lv = r.choice([-1, -1, 0, 2])
    via = r.choice(['', 'user'])
    if kind == 'parse':
        return WORDS, parse(words(r, n, [' ', '\n', ' ', '\t', '\n\n', ' \n  ']), lv, via)
    if kind == 'lines':
        return WORDS, parse(words(r, n, ['\n', '\n\n', '\r\n', '\n ']), lv, via)
    if kind == 'column':
        return WORDS, parse(words(r, n, [' ', '  ', '\t', '\u3000']), lv, via)
    if kind == 'wrong':
        tx = words(r, n, r.choice([[' ', '\n'], [' '], ['\n', '\n\n']]))
        k = r.choice([len(tx), len(tx), r.randrange(len(tx))])
        return WORDS, parse(tx[:k] + codes(r.choice([' ?', '?', '\n"', '!!', ' A'])) + tx[k:], lv, via)
    if kind == 'content':
        n = r.choice([600, 1025, 1300])
        e = r.choice(['', " 'e'"])
        tx = '(' + word(r, 'ab \n' + e[2:3], n) + r.choice(['a)', ')', 'e)'])
        return ["r = <'('%s%s ')'>" % (e, r.choice(['', " ^'x'", " ^\"xx\""]))], ev('r', codes(tx), 1, via)
    if kind == 'search':
        tx = words(r, n, [' ', '\n', '--', '\n\n', '.'])
        return WORDS, embed(r.choice(['num', 'str', 'word', 'punct']), tx[:2 * n // 3])
    if kind == 'plain':
        k = r.randint(2, 40)
        return ["r = 'abc' | \"ab\"", 'q = \'x\''], embed('r', codes('ab' + 'xa\n'[r.randrange(3)] * (n // 3) + 'abab' + word(r, 'xa b', k) + 'ab'))
    if kind == 'items':
        tx = codes(''.join(r.choice(['ab', 'c', 'cd', 'c\n', ' c']) for _ in range(n // 3)))
        return ["r = { item }" + r.choice(['', '+', '<3,>', '<,%d>' % (n // 3 - 1)]), "item = 'ab' | \"c\" [ 'd' ]"], ev('r', tx, r.choice([0, 1]), via)
    if kind == 'rounds':
        n = r.choice([999, 1000, 1001, 1023, 1024, 1025, 1030])
        k = r.choice([n - 1, n, n + 1, n + 2])
        b = r.choice(['<%d>', '<,%d>', '<%d,%d>', '<1,%d>', '<2,%d>', '<%d,>'])
        return ['r = { %s }%s%s' % (r.choice(["'a'", '"a"', "'a'-'c'"]), b % ((n,) * b.count('%')), r.choice(['', " [ 'a' ]", " 'a'"]))], ev('r', codes('a' * k), 1, via)
    if kind == 'literal':
        c = r.choice('"\'')
        w = word(r, 'ab', n // 2)
        return ['r = %sq%s%s' % (c, w, c) + r.choice(['', " | 'q'", ' > "q"'])], ev('r', codes('q' + w[:r.choice([len(w), len(w), len(w) - 1])]), 1, via)
    if kind == 'spaces':
        w = ''.join(r.choice(' \n\t\u3000') for _ in range(n // 2)) if r.random() < .7 else ' ' * (n // 2)
        return ['r = ' + r.choice(['"a" "b"', "\"a\" 'b'", "{ \"a\" } [ 'b' ]", "\"a\" ( 'x' | \"b\" )", '"a" EOF'])], ev('r', codes('a' + w + r.choice(['b', 'b', '', 'x'])), 1, via)
    raise KeyError(kind)

def huge(seed, prop, kinds, n):
    out = []
    for i in range(n):
        r = random.Random('%s/huge/%s/%d' % (seed, prop, i))
        defs, c = one_huge(r, kinds[i % len(kinds)])
        out.append(line('huge-%s-%d' % (kinds[i % len(kinds)], i), defs, [c]))
    return out
