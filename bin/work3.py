"""The cases of the properties of grammars, definitions, their printing, ends of calls, repeated and
concurrent use."""
import itertools, random, re
import run
from gen import *
import scale
from work import (fillers, ev, parse, embed, line, backs, some_eval, some_parse, some_embed, roots, parse_text, pick, mk, walk, NOTWS, codes, enum_lines, model_lines, random_lines)
from work2 import sample_texts

def gram(i, calls, **kw):
    return dict(id=str(i), kind='gram', calls=calls, **kw)

# ---------------------------------------------------------------- repeated and concurrent use

def conc_calls(g, rnd, n):
    out = []
    for _ in range(n):
        x = rnd.random()
        if x < .4:
            c = ev(rnd.choice(g.names), g.text(rnd.choice(g.names), 20), rnd.choice([0, 1, 3]), rnd.choice(['', '', 'rule']))
        elif x < .75:
            c = parse(parse_text(g, rnd, 30), rnd.choice([-1, 0, 1, 2]), rnd.choice(['', '', 'raw']))
        elif x < .9:
            c = some_embed(g, rnd, 24)
        elif x < .95:
            c = dict(op='list')
        else:
            c = ev('nowhere', [97], 1)
        c.pop('off', None)
        out.append(c)
    return out

def c14(rnd, seed, big):
    n = 900 if big else 110
    out = []
    def one(i, maker, k, threads):
        r = random.Random('%s/%s' % (seed, i))
        g = maker(r)
        out.append(dict(id=i, kind='conc', defs=[codes(d) for d in g.defs()], calls=conc_calls(g, r, k), rounds=3, runs=2, threads=threads))
    for i in range(n):
        one('mix-%d' % i, mk(ann=.2), 8, 4)
        one('ref-%d' % i, mk(dict(ref=14, cat=6, rep=4, alt=5), ann=.35, rules=7), 8, 4)
        one('long-%d' % i, mk(dict(alt=9, rep=5, blk=2), rules=5), 6, 8)
    for i in range(n // 4):
        one('many-%d' % i, mk(dict(ref=8), ann=.2, rules=6), 24, 3)
    for i, (name, text, texts) in enumerate(sample_texts()):
        calls = [parse(codes(t[:400]), lv) for t in texts for lv in (-1, 2)] + [parse(codes(t[:150]), 0) for t in texts] + [dict(op='list')]
        for c in calls:
            c.pop('via', None)
        out.append(dict(id='sample-%s' % name, kind='conc', defs=[codes(d) for d in text.split('\n') if '=' in d and not d.strip().startswith('//')],
                        calls=calls, rounds=2, runs=2, threads=4))
    return [('TraceConc', out)]

# ---------------------------------------------------------------- histories of grammars

HN = ['Ab', 'Bcd1', 'Ce_f', 'DD', 'Eg9', 'FooBar', 'Gh', 'Hx_', 'Ix', 'Jk2', 'Km_' + 'longname' * 3, 'Ln' + '0123456789' * 7, 'Eof', 'EO', 'eof1']
BADNAMES = ['', '1a', '9', 'A-b', '_x', 'A b', 'é', 'Aé', 'A.b', 'A\n', 'A$', '~A', '#A', "'A'", 'EOF ', 'A\u00a0B', '(A)', 'Α', 'A=', 'A٣']
SMALLALPHA = [codes('ab'), codes('abx'), codes('ab ,'), codes('a\n ')]

def later_only(name, text):
    """nothing in text can be taken for a reference to name or to a name before it"""
    k = HN.index(name) if name in HN else len(HN)
    return not any(x in text for x in HN[:k + 1])

def broken(rnd, d):
    """a definition changed a little"""
    for _ in range(rnd.choice([1, 1, 2, 3])):
        i = rnd.randint(0, len(d))
        c = rnd.random()
        if c < .4:
            d = d[:i] + d[i + 1:]
        elif c < .75:
            d = d[:i] + rnd.choice("'\"\\[](){}<>|^!-*+,$~# /=a1u\t\n") + d[i:]
        elif c < .9:
            d = d[:i]
        else:
            d = d[i:]
    return d

def history(rnd):
    gens = []
    for _ in range(rnd.choice([1, 2, 3])):
        k = rnd.randint(1, 5)
        names = sorted(rnd.sample(HN, k), key=HN.index)
        g = Gen(rnd, dict(ref=9, cat=6, alt=4, blk=1), alphabet=rnd.choice(SMALLALPHA), recurse=rnd.choice([0, .3]), undefined=.02, depth=2, plain=rnd.random() < .5, ann=.1)
        g.grammar(names=names)
        gens.append(g)
    pool = []
    for g in gens:
        for nm, d in zip(g.names, g.defs()):
            pool.append((nm, d.split('=', 1)[1], d, g))
    rnd.shuffle(pool)
    calls = []
    added = []
    def op_add():
        nm, body, d, g = pool[rnd.randrange(len(pool))] if rnd.random() < .5 or len(added) >= len(pool) else pool[len(added)]
        added.append(nm)
        x = rnd.random()
        if x < .12:
            b = broken(rnd, body)
            if later_only(nm, b):
                body = b
        if x > .9:
            nm2 = rnd.choice(BADNAMES)
            if rnd.random() < .5:
                calls.append(dict(op='rule', nm=codes(nm2), **{'def': codes(body)}))
            else:
                calls.append(dict(op='add', **{'def': codes(nm2 + '=' + body)}))
            return
        if rnd.random() < .4:
            calls.append(dict(op='rule', nm=codes(nm), **{'def': codes(body)}))
        elif rnd.random() < .05:
            calls.append(dict(op='add', **{'def': codes(rnd.choice([nm, nm + ' ' + body, '', '=', nm + '=', '= ' + body]))}))
        else:
            calls.append(dict(op='add', **{'def': codes(rnd.choice(['', ' ', '\t', '\n']) + nm + rnd.choice(['', ' ', '  ', '\u3000']) + '=' + rnd.choice(['', ' ', '\t']) + body + rnd.choice(['', ' ', '\n', ' // x']))}))
    def op_text():
        g = rnd.choice(gens)
        ls = []
        order = list(g.names)
        if rnd.random() < .3:
            rnd.shuffle(order)
        ds = g.defs(order)
        if rnd.random() < .15 and len(ds) > 1:
            ds.pop(rnd.randrange(len(ds)))
        if rnd.random() < .1:
            ds.append(rnd.choice(ds))
        if rnd.random() < .12:
            j = rnd.randrange(len(ds))
            b = broken(rnd, ds[j].split('=', 1)[1])
            if later_only(order[j] if j < len(order) else HN[-1], b) and '\n' not in b:
                ds[j] = ds[j].split('=', 1)[0] + '=' + b
        for d in ds:
            while rnd.random() < .3:
                ls.append(rnd.choice(['', ' ', '// comment', '  // = x', '//', '\t', "// Ab = 'x'"]))
            ls.append(rnd.choice(['', '', ' ', '\t']) + d + rnd.choice(['', '', ' ', '\r', ' // c']))
        while rnd.random() < .3:
            ls.append(rnd.choice(['', '// end', '  ']))
        if rnd.random() < .12:
            j = rnd.randrange(len(ls) or 1) if rnd.random() < .4 else 0
            ls[j:j + 1] = [rnd.choice(['\ufeff', '\ufeff', '\u200b', '\x00', '#', '\u2060', ';', '\ufffd', 'L0001: ', '- ', '\u00ad']) + (ls[j:j + 1] or [''])[0]]
        if rnd.random() < .05:
            ls.append(rnd.choice(['nonsense', "'a'", '= x', '/ x', '{', 'Zz']))
        calls.append(dict(op=rnd.choice(['text', 'text', 'file']), tx=codes('\n'.join(ls))))
    n = rnd.choice([5, 9, 14])
    if rnd.random() < .35:
        op_text()
    for _ in range(n):
        x = rnd.random()
        if x < .45:
            op_add()
        elif x < .5:
            op_text()
        elif x < .65:
            calls.append(dict(op='validate'))
        elif x < .75:
            calls.append(dict(op='get', nm=codes(rnd.choice(HN + ['', 'EOF', 'nowhere']) if not added or rnd.random() < .3 else rnd.choice(added))))
        elif x < .85:
            calls.append(dict(op='list'))
        elif x < .88:
            calls.append(some_embed(rnd.choice(gens), rnd, 12))
        elif x < .95:
            g = rnd.choice(gens)
            c = parse(parse_text(g, rnd, 16), rnd.choice([-1, 0]))
            c.pop('via')
            calls.append(c)
        else:
            g = rnd.choice(gens)
            nm = rnd.choice(g.names)
            calls.append(ev(nm, g.text(nm, 12), 1))
    calls += [dict(op='list'), dict(op='validate'), dict(op='list')]
    g = rnd.choice(gens)
    for nm in rnd.sample(HN, 3):
        calls.append(dict(op='get', nm=codes(nm)))
    for _ in range(2):
        c = parse(parse_text(g, rnd, 16), -1)
        c.pop('via')
        calls.append(c)
    return calls

def small_histories(rnd, n):
    """histories of few rules that refer to each other in every way, in every order"""
    defs = ["Ab='a'", "Ab=Ce_f", "Ab=Ce_f DD", "Ce_f=DD", "Ce_f='c'", "Ce_f=DD DD | 'x'", "DD='d'", "DD=Gh", "DD=['q' ~Gh]", "Gh=\"g\"", "Gh='", "Ab=", "DD=<'a' Gh>", "Ce_f={Gh}<2,1>",
            # rules that use themselves or one defined before, after a char
            "Ab='a' | ( 'b' Ab )", "DD='d' [ DD ]", "Gh=\"g\" [ ~Gh ]", "Ce_f='c' { Ab } ", "Gh=( 'g' Ab ) | 'x'", "DD=<'d' 'q'> | ( 'd' Ce_f )", "Ab='a' Ab", "Gh='g' [ Gh Gh ]"]
    out = []
    for k in range(n):
        r = random.Random('%s/%d' % (rnd.random(), k))
        seq = [r.choice(defs) for _ in range(r.choice([2, 3, 4, 5, 6]))]
        calls = []
        for d in seq:
            calls.append(dict(op='add', **{'def': codes(d)}))
            if r.random() < .35:
                calls.append(dict(op='validate'))
                if r.random() < .6:
                    calls.append(parse(codes(r.choice(['a', 'g', 'd', 'gg', 'c', 'dd', 'x', 'aag', 'ba', 'ddd', 'ca', 'ga', 'bba'])), -1))
            if r.random() < .15:
                calls.append(dict(op='list'))
        calls += [dict(op='validate'), dict(op='list')] + [parse(codes(t), -1) for t in ('a', 'gg', 'd', 'c', 'x', 'ba', 'dd', 'dc', 'gba')]
        for c in calls:
            c.pop('via', None)
        out.append(calls)
    return out

def c17(rnd, seed, big):
    n = 6000 if big else 1100
    out = [gram('hist-%d' % i, history(random.Random('%s/h/%d' % (seed, i)))) for i in range(n)]
    out += [gram('few-%d' % i, c) for i, c in enumerate(small_histories(rnd, n // 2))]
    # every transition of the model of a grammar, with everything asked for after it
    gen = run.generate('GenGram', big)
    for k, g in enumerate(gen if big else pick(rnd, gen, 2600)):
        def texts():
            return [parse(codes(t), -1) for t in rnd.sample(['a', 'b', 'x', 'bc', 'xxa', 'xx', 'ba', 'c'], 3)]
        ops = []
        for c in g['ops']:
            ops.append(dict(c))
            if k % 4 == 0:
                ops += rnd.choice([[dict(op='list')], texts()[:1], [dict(op='get', nm=codes(rnd.choice('ABC')))]])
        ops += texts() + [dict(op='list')] + [dict(op='get', nm=codes(c)) for c in 'ABC1'] + [dict(op='validate'), dict(op='list')] + texts()
        for c in ops:
            c.pop('via', None)
        out.append(gram('model-%d' % k, ops))
    names = []
    for c in itertools.chain(range(0, 0x180), [0x391, 0x410, 0x661, 0x4E2D, 0xFF21, 0xFF10, 0x1D400, 0x2028, 0x3000]):
        if not 0xD800 <= c <= 0xDFFF:
            names += [[c], [65, c], [65, c, 66], [c, 65]]
    for k in range(0, len(names), 60):
        calls = []
        for nm in names[k:k + 60]:
            calls.append(dict(op='rule', nm=nm, **{'def': codes("'a'")}))
            calls.append(dict(op='get', nm=nm))
        out.append(gram('names-%d' % k, calls))
        calls = []
        for nm in names[k:k + 60]:
            calls.append(dict(op='add', **{'def': nm + codes(" = 'a'")}))
        out.append(gram('addnames-%d' % k, calls + [dict(op='list'), dict(op='validate')]))
    out += scale.grams(seed, 'c17', 'roots roots name chain'.split(), 24 if big else 8, lambda x, call: [x] if call else [dict(op='get', nm=codes(x))] + ([dict(op='list')] if len(x) < 3 else []))
    return [('TraceGram', out)]

# ---------------------------------------------------------------- notation

SOUP = ["'a'", "'ab'", '"a"', "'", '"', '\\u0061', '\\', 'q', 'EOF', '(', ')', '[', ']', '{', '}', '<', '>', '|', '^', '!', '*', '+', '-', ',', '1', '2', '$', '~', '#', '//', '\n', ' ', '\\u006', "''", '""', "'\\''", '_q', '/']
GOOD = ["'a'", '"a"', 'q', '(', ')', '[', ']', '{', '}', '<', '>', '|', "^'x'", '!', '<1,2>', '*', '+', '~', ' ']

def soup(rnd, n):
    out = []
    for a in SOUP:
        out.append(a)
    out += [a + b for a in SOUP for b in SOUP]
    tri = [a + b + c for a in SOUP for b in SOUP for c in SOUP]
    out += pick(rnd, tri, n)
    for _ in range(n):
        out.append(''.join(rnd.choice(SOUP) + rnd.choice(['', '', ' ']) for _ in range(rnd.choice([4, 5, 6, 8]))))
    for _ in range(n):
        out.append(''.join(rnd.choice(GOOD) + rnd.choice(['', ' ']) for _ in range(rnd.choice([4, 5, 6, 7, 9]))))
    return out

LARGE = ['<255>', '<256>', '<0,256>', '<65535>', '<65536,>', '<,65536>', '<70000,1>', '<100000,99999>', '<2147483647,>', '<2147483648>', '<,4294967295>', '<4294967295,>', '<4294967296>', '<,4294967296>', '<4294967295,4294967294>', '<4294967297,5>', '<99999999999>', '<0,18446744073709551616>', '<18446744073709551617,1>', '<18446744073709551617>', '<00000000000000000002>', '<0000000000001,000000000000003>', '<00,000>']
BOUNDS = ['<>', '< >', '<,>', '<1>', '<1,>', '<,1>', '<1,2>', '<2,1>', '<0>', '<0,0>', '<1,1>', '< 1 , 2 >', '<1 2>', '<\t1,\u30002>', '<-1>', '<a>', '<1,a>', '<1', '<1,', '<1,2', '<1,,2>', '<1,2,3>', '<1\n>',
          '<01>', '<010>', '<08>', '<09,012>', '<0,010>', '<0011,12>', '<012,11>', '<010,9>', '<0x2>', '<0b1>', '<1_0>', '<0o7>', '<00,2>', '<2,01>', '<10,9>', '<9,10>', '*', '+', '**', '+*', '*+', '<1>*', '*<1>', ' *', ' +', ' <1>', '<1> ', '<1>>', '<<1>', '<1.5>', '<+1>', '<٣>', '<1,٣>', '<300>', '<0,300>', '<299,300>']
ESC = ['\\u0061', '\\u00e9', '\\u00E9', '\\u006', '\\u', '\\u006g', '\\uD800', '\\u0000', '\\U0061', '\\n', '\\t', '\\\\', "\\'", '\\"', '\\', '\\u0061b', '\\u0061\\u0062', '\\\\u0061', "\\u0027", '\\u0022', '\\u005c', '\\ ', '\\é', '\\\n', '\\u 061', '\\uFFFF', '\\uffff', '\\uFEFF']

def special(rnd):
    """the corners of each construct"""
    out = []
    for b in BOUNDS:
        out += ["{'a'}" + b, "{ 'a' }" + b + " 'b'", "'x' {\"a\"}" + b, "{{'a'}" + b + "}" + b]
    for b in LARGE:     # not of what can match empty: that many nodes would be made
        out += ["{'a'}" + b, "{ 'a' }" + b + " 'b'", "'x' {\"a\"}" + b]
    for e in ESC:
        out += ["'%s'" % e, '"%s"' % e, "'x%s'" % e, '"%sx"' % e, e, e + ' ' + e, "'%s'-'z'" % e, "'a'-'%s'" % e, '%s-%s' % (e, e), "'a'-%s" % e, "%s-'z'" % e, "<'%s' \"%s\">" % (e, e), "['%s']|%s" % (e, e)]
    for a in ('', "'a'", 'q', '~', '$q', "('a' | 'b')", "'a' 'b'", "'a' | 'b'", '~$#q', '[q]', '{q}+', "<'a' 'b'>", 'EOF', ' ', '\n', '// c\n', '// c'):
        for f in ('%s', '(%s)', '[%s]', '{%s}', '<%s>', '%s|%s', '%s>%s', "'a'|%s", "%s|'a'", "'a' > %s", '<%s %s>', '<%s ^%s %s>', '<%s %s ^%s %s !>', '~%s', '$ %s', '# %s|q', '%s %s', "<'a' %s>", "<'a'%s'b'>", "'a'%s'b'", '(%s', '%s)', '{%s}<1,2>', '(%s)%s', '%s// c', '%s // c\n %s', "'x'|%s // c\n%s", "'x' > %s//\n%s", "'x' | ~ // c\n%s", "'x' > 'y' | $\n//\n # %s", "<%s//\n %s 'b'>", '%s\n|%s', '%s |\n%s', '%s\t>\u3000%s'):
            out.append(f.replace('%s', a))
    out += ["'a'-'b'-'c'", "'a' - 'b'", "'a'- 'b'", "'a' -'b'", "'ab'-'c'", "'a'-'bc'", "'b'-'a'", "'a'-'a'", "''-'a'", "'a'-''", '"a"-"b"', "'a'-b", "'a'-\"b\"", "'a'-\\u0062", "\\u0061-\\u0062", "\\u0062-\\u0061", "\\u0061-'b'", "'\\u0061'-'\\u0062'", "'a'-'\\b'", "'a'-'", "'a'-'b", "\\u0061-", "\\u0061 - 'b'",
            "'-'-'/'", "'''", "'a''b'", "''", '""', '"""', "'a'\"b\"q", "q'a'q", 'q q', 'qq', 'q-q', 'q_q', 'q1', '1q', '_', 'q.q', 'é', "'é'", '"\U0001D538"', "'\U0001D538'-'\U0001D53A'", 'q\u00a0q', "'a'\u3000'b'", "'a' // c", "'a' // c\n'b'", "'a' / 'b'", "'a' /", "/ 'a'", '//', '// a\n', "// c\n'a'", "'a'//\n//\n'b'",
            "'a' | // c\n 'b'", "'a' // c\n | 'b'", "'a' // c\n > 'b' // d", "{ 'a' // }\n }", "[ 'a' // ]", "( // (\n 'a' )", "<'a' 'b' // c\n>", "'a' = 'b'", "r = 'a'", "'//' 'a'", '"// a"', "'a' | 'b' 'c'", "'a' 'b' | 'c'", "'a' 'b' | 'c' 'd'", "('a' 'b') | ('c' 'd')", "'a' | 'b' > 'c' | 'd' > 'e'", "'a' > 'b' > 'c'", "'a' > > 'b'", "'a' || 'b'", "'a' |> 'b'", "'a' >| 'b'", '| \'a\'', "> 'a'", "'a' |", "'a' >",
            "<'a' \"b\">", "<'a' \\u0062>", "<'a'\t'b'>", "<'a'\n'b'>", "<'a'  'b'>", "<  'a' 'b'  >", "<'a''b'>", "<'a' 'e' 'b'>", "<'a' 'e' ^'x' 'b'>", "<'a' ^'x' 'b'>", "<'a' ^'x' ^'y' 'b'>", "<'a' ^ 'x' 'b'>", "<'a' ^'x'^'y' 'b'>", "<'a' 'e' ^'x' ^'y' 'b' !>", "<'a' 'b'!>", "<'a' 'b' !>", "<'a' 'b' ! >", "<'a' 'b' !!>", "<'a' ! 'b'>", "<! 'a' 'b'>", "<'a'>", "<'a' >", '<>', "< >", "<'a' ^'x'>", "<^'x' 'a' 'b'>", "<'a' 'e' 'x' 'b'>", "<'a' 'b' ^'x'>", "<'a' 'b'", "<'a' 'b' !", "<'a' | 'b' 'c'>", "<('a' | 'b') 'c'>", "<'a' ('b' | 'c')>", "<('a' 'b') 'c'>", "<q q>", "<q EOF>", "<'a' EOF>", "<~'a' $'b'>", "~<'a' 'b'>", "<<'a' 'b'> 'c'>", "<'a' <'b' 'c'>>", "<'a' (<'b' 'c'>)>", "<['a'] {'b'}>", "<{'a'}<1,2> 'b'>", "<'a' {'b'}<1,2>>", "<'a' 'b'> | 'c'", "<'a' 'b'>'c'", "<'a'-'b' 'c'>", "<'a' 'b'-'c'>", "<'a' '>' >", "<'<' '>'>", "<'a' '!'>", "<'a' '!' !>"]
    # what does not end a comment, and what a comment may have in it
    for c in ('\r', '\x0b', '\x0c', '\x85', '\u2028', '\u2029', '\x00', '\x1a', ';', '*/', '\\n', '\ufeff', '\r\n', '\n', '\\\n', ' \t', '//', '"', "'", '/*'):
        for f in ("'a' //%s'b'", "'a' // c%s 'b'", "'a' | 'b' // c%s | 'q'", "( 'a' // %s )\n )", "// %s\n'a'", "'a' >//%s\n'b'", "[ 'a' ]//%s{", "//%s'a'\n'b'"):
            out.append(f % c)
    # names like that of the end of the text
    for n in ('q\u0663', 'q\uff11', 'q\u00e9', 'q\u00aa', '\uff51', 'q\u0301', 'q\u2080', 'q\u200d', 'Q', '\u00ba', 'q\u0660\u0661', '\u0430', 'q\u2163', 'q\U0001d7d8'):
        for f in ('%s', "'a' %s", "[ %s ] 'a'", "%s | 'a'", "'a' > %s", "~%s", "<'a' %s>"):
            out.append(f % n)
    for n in ('eof', 'Eof', 'EoF', 'EOFS', 'EO', 'EOFF', 'EOF1', 'EOF_', '_EOF', 'E', 'xEOF', 'EOFEOF', 'EOF EOF', 'EOF-', 'EOFq', 'EOF|q', 'q|EOF', 'EOF>q'):
        for f in ('%s', "'a' %s", "[ %s ] 'a'", "%s | 'a'", "'a' > %s", "~%s", "{ 'a' } %s", "<'a' %s>", "( %s )"):
            out.append(f % n)
    return out

BADPARTS = ["'a", '"a', "'a'-", "'a'-b", '\\u00', '\\x', '(', '( )', '[ ]', '{ }', '{', '[', "<'a'>", "<'a' 'b'", "<'a' 'b' 'c' 'd'>", "{ 'a' }<2,1>", "{ 'a' }<x>", "{ 'a' }<2", '~', '$#', '%', '1', '/ x', '|', "| | 'a'", '>', '^', '!', ')', ']', '}', "( 'a' | )", '[ "a ]', "{ 'a' ", "''-'a'", "'ab'-'c'", 'é', "( 'a' 'b", "<'a' ^ 'b'>", "<'a' '' 'b", '~ | q', "'a' ~ | q", "'a' # > q", '<>', '=', '-', '*', '+', ',']
WELL = ["'a'", '"a"', "'ab'", '\\u0061', "'a'-'b'", 'q', "( 'a' )", "[ 'a' ]", "{ 'a' }<1,2>", "<'a' 'b'>", '~q', "$'b'", '#"b"', 'EOF', "( 'a' | 'b' )", "'a' | 'b'", "'a' > q"]

def defective(rnd, n):
    """long and nested definitions with one part that is wrong, or none"""
    out = []
    for i in range(n):
        k = rnd.choice([0, 1, 2, 3, 5, 6, 8, 10])
        bad = rnd.choice(BADPARTS) if rnd.random() < .93 else ''
        d = ' '.join(rnd.choice(WELL) for _ in range(k)) + ' ' + bad + ' ' + ' '.join(rnd.choice(WELL) for _ in range(rnd.choice([0, 0, 1, 2, 6])))
        for _ in range(rnd.choice([0, 0, 1, 1, 2, 3])):
            d = rnd.choice(['( %s )', '( %s )', '[ %s ]', '{ %s }', "<'<' ( %s ) '>'>", "'x' | ( %s )", "~( %s )", "'x' ( %s )", "{ %s }<1,3>", "( %s ) > 'x'", "[ %s // c\n ]"]).replace('%s', d)
        out.append(d)
    return out

TEXTS18 = [codes(t) for t in ('', 'a', 'aa', 'ab', 'a b', 'b', 'aab', ' a', 'aaa', 'x', 'axb', 'q', 'aqb')]

def c18(rnd, seed, big):
    n = 4000 if big else 700
    out = []
    def chunk(prefix, defs, per, texts, nt):
        for k in range(0, len(defs), per):
            calls = [dict(op='add', **{'def': codes("q = 'a' | 'q'")}), dict(op='add', **{'def': codes("_q = 'a'")})][:1]
            part = defs[k:k + per]
            for j, d in enumerate(part):
                nm = 'Zr%d' % j
                calls.append(dict(op='rule', nm=codes(nm), **{'def': codes(d)}))
                for t in rnd.sample(texts, nt):
                    calls.append(ev(nm, t, rnd.choice([0, 1, 3])))
            out.append(gram('%s-%d' % (prefix, k), calls))
    sp = special(rnd)
    chunk('special', sp, 6, TEXTS18, 4)
    chunk('soup', soup(rnd, 5000 if big else 1100), 12, TEXTS18, 1)
    chunk('defect', defective(rnd, n * 3), 12, TEXTS18, 1)
    for i in range(n * 2):     # random grammars in every layout, and broken ones
        r = random.Random('%s/g/%d' % (seed, i))
        g = Gen(r, dict(blk=1.5, rep=4), alphabet=r.choice(ALPHABETS), recurse=r.choice([0, .3]), undefined=.02, depth=r.choice([1, 2, 3]), plain=False, ann=.12, oneline=False)
        g.grammar(names=sorted(r.sample(HN, r.randint(1, 3)), key=HN.index))
        calls = []
        if r.random() < .15:    # in a grammar that has many rules already
            tx = '\n'.join(fillers(r))
            calls.append(dict(op='text', tx=codes(tx)))
        for nm, d in zip(g.names, g.defs()):
            body = d.split('=', 1)[1]
            calls.append(dict(op='rule', nm=codes(nm), **{'def': codes(body)}) if r.random() < .7 else dict(op='add', **{'def': codes(d)}))
        for nm in g.names:
            for _ in range(3):
                calls.append(ev(nm, g.text(nm, 16), r.choice([0, 1, 3])))
        for k in range(r.choice([2, 4])):
            nm = r.choice(g.names)
            d = broken(r, r.choice(g.defs()).split('=', 1)[1])
            if 'Zb' in d:
                continue
            calls.append(dict(op='rule', nm=codes('Zb%d' % k), **{'def': codes(d)}))
            for _ in range(2):
                calls.append(ev('Zb%d' % k, g.text(nm, 12), 1))
        out.append(gram('gram-%d' % i, calls))
    for name, text, _ in sample_texts():
        out.append(gram('sample-' + name, [dict(op='text', tx=codes(text)), dict(op='list'), dict(op='validate')]))
    out += scale.grams(seed, 'c18', 'members alternatives literal depth name chain bounds'.split(), 42 if big else 14, lambda x, call: [x] if call else [])
    return [('TraceGram', out)]

# ---------------------------------------------------------------- printing

def c19(rnd, seed, big):
    n = 5000 if big else 800
    out = []
    hostile = [codes('\'"\\'), codes('\'"\\u0'), codes(' \t\n\r'), codes('a/\\*'), codes('<>^!|'), codes('$~#='), codes('{}[]()'), [0, 1, 0x7F, 0x85, 0xA0, 97], [0xD800, 0xDFFF, 0xD7FF, 0xE000, 97],
               [0xFFFD, 0xFFFE, 0xFFFF, 97], [0x10000, 0x10FFFF, 0x1F600, 98], [0x2028, 0x3000, 0xFEFF, 97], codes('uU0061'), codes("a-b'"), [0x301, 0x202E, 97], codes('\\n')]
    def uses(g, r, k):
        cs = []
        for _ in range(k):
            x = r.random()
            nm = r.choice(g.names)
            c = ev(nm, g.text(nm, 16), r.choice([0, 1, 3])) if x < .6 else parse(parse_text(g, r, 24), -1) if x < .85 else some_embed(g, r, 16)
            cs.append(dict(op='again', call=c))
        return cs
    for i in range(n * 2):
        r = random.Random('%s/p/%d' % (seed, i))
        g = Gen(r, dict(blk=2, rep=4, range=4), alphabet=r.choice(hostile) if r.random() < .6 else r.choice(ALPHABETS), recurse=r.choice([0, .3]), undefined=.01, depth=r.choice([1, 2, 3, 4]),
                plain=r.random() < .3, ann=r.choice([.05, .3]), oneline=r.random() < .5, longlit=.3)
        g.grammar(names=sorted(r.sample(HN, r.randint(1, 3)), key=HN.index))
        calls = []
        if r.random() < .15:    # in a grammar that has many rules already
            tx = '\n'.join(fillers(r))
            calls.append(dict(op='text', tx=codes(tx)))
        for nm, d in zip(g.names, g.defs()):
            calls.append(dict(op='rule', nm=codes(nm), **{'def': codes(d.split('=', 1)[1])}))
        calls += [dict(op='print', nm=codes(nm)) for nm in g.names] + [dict(op='validate')]
        if g.st.oneline:
            calls.append(dict(op='list'))
        calls += uses(g, r, 4)
        out.append(gram('print-%d' % i, calls))
    sp = special(rnd)
    for k in range(0, len(sp), 8):
        calls = [dict(op='rule', nm=codes('q'), **{'def': codes("'a' | 'q'")})]
        for j, d in enumerate(sp[k:k + 8]):
            calls.append(dict(op='rule', nm=codes('Zr%d' % j), **{'def': codes(d)}))
            calls.append(dict(op='print', nm=codes('Zr%d' % j)))
            for t in rnd.sample(TEXTS18, 2):
                calls.append(dict(op='again', call=ev('Zr%d' % j, t, 1)))
        out.append(gram('special-%d' % k, calls))
    chars = list(range(0, 0x100)) + NOTWS + WS + [0x2028, 0xD800, 0xDC00, 0xDFFF, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF]
    for k in range(0, len(chars), 24):
        calls = []
        for j, c in enumerate(chars[k:k + 24]):
            e = '\\u%04x' % c if c < 0x10000 else chr(c)
            for m, d in enumerate(("'%s'" % e, '"%s"' % e, "'%sx'" % e, "'x%s'" % e, "'%s'-'\U0010FFFF'" % e, '"%s\\\\%s"' % (e, e), "<'%s' \"%s\">" % (e, e))):
                nm = 'Zc%d_%d' % (j, m)
                calls.append(dict(op='rule', nm=codes(nm), **{'def': codes(d)}))
                calls.append(dict(op='print', nm=codes(nm)))
        out.append(gram('char-%d' % k, calls))
    for name, text, texts in sample_texts():
        calls = [dict(op='text', tx=codes(text))]
        names = [d.split('=', 1)[0].strip() for d in text.split('\n') if '=' in d and not d.strip().startswith('//')]
        calls += [dict(op='print', nm=codes(x)) for x in names] + [dict(op='list')]
        calls += [dict(op='again', call=parse(codes(t[:300]), lv)) for t in texts for lv in (-1, 0)]
        out.append(gram('sample-' + name, calls))
    out += scale.grams(seed, 'c19', 'members alternatives literal depth name chain bounds'.split(), 42 if big else 14,
                       lambda x, call: [dict(op='again', call=x)] if call else [dict(op='print', nm=codes(x))])
    return [('TraceGram', out)]

# ---------------------------------------------------------------- ends

EMPTY = ["[ 'a' ]", "{ 'a' }", '""', "{ [ 'a' ] }", "[ { 'a' } ]", "( \"\" )", "EOF", "{ { 'a' } }", "{ \"\" }", "{ EOF }", "[ EOF ]", "{ 'a' | \"\" }", "[ 'a' ] [ 'b' ]", "{ [ 'a' ] [ 'b' ] }<2,>", "<\"\" \"\">", "<\"\" 'b' !>", "<'a' \"\">", "<'a' \"\" 'b'>", "<'a' [ 'e' ] 'b'>", "<'a' { 'e' } 'b'>", "<'a' 'e' ^\"\" 'b'>", "<'a' 'e' ^[ 'x' ] 'b'>",
         "<\"\" [ 'e' ] EOF>", "<'a' EOF>", "<'a' EOF !>", "<\"\" EOF !>", "~{ \"\" }", "q", "{ q }", "{ q }+", "{ q }<3,>", "{ q }<0,5>", "[ q ]", "q q", "q | \"\"", "q > \"\"", "<q q>", "<q q q>", "{ <q q> }", "{ ( q ) }<2>", "{ ' ' }", "{ \" \" }"]
SHAPES = ['%s', '{ %s }', '{ %s }+', '{ %s }<2,>', '{ %s }<2,4>', '[ %s ]', '( %s )', '{ { %s } }', "%s 'a'", "'a' { %s }", "{ %s 'b' }", "{ %s | 'b' }", "{ 'b' > %s }", '<"" %s>', "<'a' ( %s ) 'b'>", "<'a' ^( %s ) 'b'>", "<'a' 'e' ^( %s ) 'b'>", "<'a' ( %s )>", "<( %s ) ( %s ) ( %s )>", '{ { %s }<1,2> }', '{ %s %s }', '~{ $%s }']

def c13(rnd, seed, big):
    n = 2500 if big else 400
    out = []
    def lines(prefix, defs, base, texts, per, nt):
        for k in range(0, len(defs), per):
            calls = [dict(op='rule', nm=codes('Zr'), **{'def': codes(d)}) for d in defs[k:k + per]]
            out.append(dict(id='%s-%d' % (prefix, k), kind='end', defs=[codes(b) for b in base], txs=rnd.sample(texts, min(nt, len(texts))), calls=calls))
    texts = [codes(t) for t in ('', 'a', 'aaa', 'ab', ' a b ', 'abab', 'aaeb', '\n', 'bbbb', 'aeeb', ' ', '  \n ', 'a\nb', 'xyz', 'aebaxb')]
    loops = [s.replace('%s', e) for e in EMPTY for s in SHAPES]
    for q in ('q = ""', "q = [ 'a' ]", 'q = { "" }', 'q = EOF'):
        lines('loop-' + str(len(out)), pick(rnd, loops, len(loops) if big else 300), [q], texts, 10, 4)
    lines('special', special(rnd), ["q = 'a' | 'q'"], texts, 10, 3)
    lines('soup', soup(rnd, 6000 if big else 1500), ["q = 'a' | 'q'"], texts, 20, 2)
    # as many empty matches as a bound allows
    out.append(dict(id='many-empty', kind='end', defs=[], txs=[codes('b')], calls=[dict(op='text', tx=codes("r = { [ 'a' ] }<,4294967295>"))]))
    # every start and end of well formed definitions
    whole = ["~'a\\u0061' | $\"b\\\"\" > 'a'-'\\u007A' // c", "<'a' \"e\" ^'x' ^( 'y' | q ) 'b' !>", "{ [ ( q ) ] }< 1 , 23 > ~#$q EOF", "\\u0061-'b' \\u0041 'a' | q > EOF", "{'a'}+{\"b\"}*{q}<,3>{q}<2>"]
    for d in whole:
        parts = [d[:i] for i in range(len(d) + 1)] + [d[i:] for i in range(len(d))] + [d[:i] + d[i + 1:] for i in range(len(d))] + [d[:i] + c + d[i:] for i in range(len(d)) for c in "'\"\\<>{}[]()|^!~/"]
        lines('part-' + d[:3], parts if big else pick(rnd, parts, 400), ["q = 'a' | 'q'"], texts, 20, 1)
    # nesting, length
    deep = []
    for k in (2, 10, 40, 120):
        for a, b in (('(', ')'), ('[', ']'), ('{', '}'), ('(', ''), ('{', ''), ('[ "x" ', ']'), ("{ 'b' | ", '}'), ("<'a' ", '>'), ("<( ", ") 'b'>")):
            if k <= (4 if a == "<'a' " else 40) or a in ('(', '['):
                deep.append(a * k + "'a'" + b * k)
    for k in (10, 100, 400):
        deep += [' '.join(["'a'"] * k), ' | '.join('"%s"' % ('a' * (j + 1)) for j in range(min(k, 100))), ' > '.join(["'b'"] * k), "'%s'" % ('ab' * k), '"%s"' % ('\\u0061' * k), '~$#' * k + "'a'", "'a' " + '// c\n' * k, "{'a'}<%d,>" % k, "{'a'}<,%d>" % k, ' ' * k + 'q' + '\n' * k, 'q' * k, '<' * k, "'" * k, '{"a"}' * min(k, 100)]
    long = [codes(t) for t in ('a' * 60, 'ab' * 30, ' ' * 90 + 'a', 'a\n' * 30)]
    lines('deep', deep, ["q = 'a'"], long, 4, 2)
    for k in (50, 150) + ((400,) if big else ()):
        # nesting of the text: by recursion of the rules
        for j, (defs, tx) in enumerate(((["r = 'a' r | 'b'", 'q = r'], codes('a' * k + 'b')), (["r = '(' [ r ] ')'"], codes('(' * k + ')' * k)), (["r = '(' { r } ')'"], codes('(' * k)), (["r = 'a' [ r ]"], codes('a' * k)),
                                        (["r = <'a' 'b'> | 'a' r"], codes('a' * min(k, 100))), (["r = 'a' { r } 'b'"], codes('a' * k + 'b' * k)), (["r = \"a\" { 'x' } [ r ]"], codes('a ' * k)))):
            out.append(dict(id='text-%d-%d' % (k, j), kind='end', defs=[], txs=[tx], calls=[dict(op='text', tx=codes('\n'.join(defs)))]))
    for i in range(n):
        r = random.Random('%s/e/%d' % (seed, i))
        g = Gen(r, dict(opt=5, rep=6, blk=3), alphabet=r.choice(ALPHABETS), ann=.15, emptylit=.25, plain=r.random() < .4).grammar()
        txs = [g.text(g.names[0], 16), parse_text(g, r, 20), []]
        out.append(dict(id='gram-%d' % i, kind='end', defs=[], txs=txs, calls=[dict(op='text', tx=codes('\n'.join(g.defs())))]))
        d = [dict(op='add', **{'def': codes(broken(r, x))}) for x in Gen(r, recurse=0, plain=False, oneline=False).grammar(names=sorted(r.sample(HN, 3), key=HN.index)).defs() for _ in range(3)]
        d = [c for c in d if not self_ref(c['def'])]
        if d:
            out.append(dict(id='broken-%d' % i, kind='end', defs=[], txs=[codes('ab'), []], calls=d))
    for i in range(n // 4):
        r = random.Random('%s/t/%d' % (seed, i))
        ls = [r.choice(["a = 'x'", "b = \"y\" | 'z'", '', '//', "c = b", "d = ", 'e', '= x', "f = <'a' 'b'", "a = 'y'", '\r', '\u3000', "g = 'a' // x", '\x00', "h=\\u0061", 'i = nowhere', '/ j'])  for _ in range(r.randint(0, 6))]
        out.append(dict(id='lines-%d' % i, kind='end', defs=[], txs=[codes('xyz')], calls=[dict(op='text', tx=codes(r.choice(['\n', '\n', '\r\n', '\n\n']).join(ls)))]))
        out.append(dict(id='stream-%d' % i, kind='end', defs=[], txs=[], calls=[dict(op='stream', tx=[r.choice([97, 98, 32, 10]) for _ in range(r.choice([0, 1, 5, 20]))], n=30)]))
    return [('TraceEnd', out)]

def self_ref(d):
    """may a definition "name = ..." refer to itself or to a name before it"""
    s = ''.join(map(chr, d))
    p = s.split('=', 1)
    if len(p) < 2:
        return False
    nm = p[0].strip()
    return nm in p[1] or any(x in p[1] for x in HN)

# ---------------------------------------------------------------- errors

def c22(rnd, seed, big):
    n = 2200 if big else 380
    al = lambda r: r.choice([codes('ab'), codes('abc'), codes('a b'), codes('ab \n'), codes('a\n'), [97, 0x1D538, 32], [0x4E2D, 98, 10], codes('ab1'), codes('ab\t ')])
    w = dict(alt=7, cat=9, rep=4, opt=3, blk=2.5, range=4)
    wrong = lambda tx, g, r: [c for c in (g.mutate(tx, r.choice([1, 1, 2])) if r.random() < .7 else tx[:r.randint(0, len(tx))]) if not 0xD800 <= c <= 0xDFFF]
    def fails(g, r):
        c = r.choice([some_eval, some_eval, some_parse, walk])(g, r)
        for x in c if isinstance(c, list) else [c]:
            if x['op'] in ('parse', 'eval') and r.random() < .75:
                x['tx'] = x['tx'][:x.get('off', 0)] + wrong(x['tx'][x.get('off', 0):], g, r)
        if r.random() < .03:
            c = some_embed(g, r, 8)
            c['r'] = codes(r.choice(['nowhere', 'x', 'EOF']))
        return c
    lits = ["'a'", '"a"', "'ab'", "'a'-'b'", 'EOF', "['a']", "{'a'}<2>", "('a' 'b')", "<'a' 'b'>", "<'a' 'e' ^'ba' 'b'>", "('a' | 'ab')", "('a' | \"a\")", 'x', '~x', "{ 'b' | x }+", "{ \"a\" }<2,3>"]
    two = ['%s %s' % p for p in itertools.product(lits, lits)] + ['%s | %s' % p for p in itertools.product(lits, lits)] + ['%s > %s' % p for p in itertools.product(lits, lits)]
    texts = [codes(t) for t in ('', 'a', 'b', 'c', ' ', 'ab', 'ac', 'a b', 'abc', '\n\na c', 'a\n\n b', 'a  ', ' \n ', 'aeba', 'abac', 'aab', '\nab\na')]
    out = enum_lines('two', pick(rnd, two, len(two) if big else 330), texts, fls=(0, 1, 3) if big else (1, 3))
    out += enum_lines('ptwo', pick(rnd, [["r = %s" % x, "q = %s" % y] for x, y in itertools.product(lits, lits)], 300 if big else 90), texts, op='parse')
    out += model_lines(rnd, 'deep', 2500 if big else 90, 'ab ', fls=(1,), vias=('', 'user', 'back')) + model_lines(rnd, 'two', 9999 if big else 70, 'ab\n', fls=(0, 1))
    out += model_lines(rnd, 'blocks', 999 if big else 40, fls=(1,), maxlen=4) + model_lines(rnd, 'two', 4000 if big else 60, 'a \n', op='parse')
    out += random_lines('mix', seed, n * 5, 14, mk(w, alphabet=al, undefined=lambda r: r.choice([0, 0, .1])), fails)
    out += random_lines('ref', seed, n * 2, 14, mk(dict(ref=14, cat=7, blk=2), alphabet=al, rules=6, undefined=.05), fails)
    out += random_lines('any', seed, n, 12, mk(alphabet=lambda r: r.choice(ALPHABETS[:7] + ALPHABETS[9:12])), fails)
    out += scale.huge(seed, 'c22', 'wrong'.split(), 12 if big else 3)
    out += scale.lines(seed, 'c22', 'members alternatives literal lines column chain roots content spaces'.split(), 54 if big else 18)
    for l in out:
        l['causes'] = True
    hist = [gram('hist-%d' % i, [c for c in history(random.Random('%s/h/%d' % (seed, i))) if c['op'] not in ('parse', 'eval', 'embed', 'list')]) for i in range(n * 3)]
    good = ["Aa = 'x'", "Bb = \"y\" | 'z'", '', '// Aa = y', 'Cc = Bb', "Dd = { Aa }", "  Ee = 'a' // b", "Ff = Ff2", "Ff2=\\u0061", '\t']
    bad = ["Aa = 'y'", 'Bb = Cc', 'Xx', "Xx = ", "1x = 'a'", "Xx = 'a", 'Xx = Yy', 'Xx = Yy Zz', '= Aa', "Xx = <'a'>", "Cc = ['a'", "Ff2 = 'b'"]
    for i in range(n * 2):
        r = random.Random('%s/l/%d' % (seed, i))
        ls = r.sample(good, r.randint(2, len(good)))
        for _ in range(r.choice([0, 1, 1, 2])):
            ls.insert(r.randint(0, len(ls)), r.choice(bad))
        tx = codes(r.choice(['\n', '\n', '\r\n']).join(ls) + r.choice(['', '\n']))
        hist.append(gram('lines-%d' % i, [dict(op=r.choice(['text', 'file']), tx=tx)] + [dict(op='add', **{'def': codes(r.choice(good + bad))}) for _ in range(4)] + [dict(op='validate')]))
    hist = [h for h in hist if h['calls']]
    return [('TraceEval', out), ('TraceGram', hist)]
