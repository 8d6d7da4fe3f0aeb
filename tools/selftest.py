"""Does every trace specification reject what the real library did not do?  Records cases of every check,
changes one recorded value at a time and asks TLC.  Prints, per module and kind of value, how many of the
changed records were rejected, and the first that was not.

    python3 tools/selftest.py [PROPERTY…]
"""
import copy, json, os, random, re, shutil, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'bin'))
sys.dont_write_bytecode = True
import props, run
from concurrent.futures import ThreadPoolExecutor

def leaves(x, path=()):
    if isinstance(x, dict):
        for k in sorted(x):
            yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        yield path, 'list'
        for i, y in enumerate(x):
            yield from leaves(y, path + (i,))
    else:
        yield path, 'value'

def change(x, r):
    if isinstance(x, bool):
        return not x
    if isinstance(x, (int, float)):
        return x + r.choice([-1, 1, 7])
    if isinstance(x, str):
        return x + 'x'
    if isinstance(x, list):
        k = r.randrange(len(x) + 1)
        if x and r.random() < .5:
            return x[:k] + x[k + 1:] if k < len(x) else x[:-1]
        return x[:k] + [copy.deepcopy(r.choice(x)) if x else 97] + x[k:]
    return x

def at(x, path):
    for k in path:
        x = x[k]
    return x

def main(only):
    tmp = tempfile.mkdtemp(prefix='verif-self-')
    try:
        driver = run.build(tmp)
        for p, P in props.PROPS.items():
            if only and p not in only or p in ('C14', 'C16', 'C20'):
                continue
            rnd = random.Random('1/cases')
            for m, ls in P.cases(rnd, 1, False):
                r = random.Random('%s/%s' % (p, m))
                obs, _ = run.drive(driver, r.sample(ls, min(150, len(ls))), tmp, p + m)
                obs = [l for l in obs if l.get('ms', 0) < 200 and l.get('calls')]
                changed, what = [], {}
                for i in range(500):
                    l = copy.deepcopy(r.choice(obs))
                    j = r.randrange(len(l['calls']))
                    l['calls'] = l['calls'][:j + 1] if m in ('TraceTree', 'TraceStream', 'TraceGram') else [l['calls'][j]] if l['calls'][j].get('op') != 'walk' else l['calls']
                    c = l['calls'][-1]
                    seen = c.get('o')
                    if not isinstance(seen, dict):
                        continue
                    # every kind of value as often
                    by = {}
                    for q, kind in leaves(seen):
                        by.setdefault(re.sub(r'\d+', 'N', '.'.join(str(k) for k in q)) + '/' + kind, []).append(q)
                    kinds = {re.sub(r'(nds?|k)(\.N|\.k)*', r'\1', k): k for k in by}
                    kind = r.choice(sorted(by))
                    q = r.choice(by[kind])
                    v = at(seen, q)
                    n = change(v, r)
                    if n == v:
                        continue
                    if q:
                        at(seen, q[:-1])[q[-1]] = n
                    l['id'] = 'c%d' % i
                    short = c.get('op', '') + ' ' + re.sub(r'\.N', '', re.sub(r'(\.N)?(\.k\.N)+', '.k', kind))
                    what[l['id']] = (short, q, v, n, l)
                    changed.append(l)
                bad = set()
                def ask(part, tag):
                    try:
                        return {i for i, _, fs in run.validate(m + '.tla', m + '.cfg', part, tmp, tag)[0]}
                    except run.CheckError:     # one of them cannot be evaluated: rejected as well; find which
                        if len(part) == 1:
                            return {part[0]['id']}
                        h = len(part) // 2
                        return ask(part[:h], tag) | ask(part[h:], tag)
                with ThreadPoolExecutor(run.WORKERS) as ex:
                    for x in ex.map(lambda k: ask(changed[k::40], p + m + str(k)), range(40)):
                        bad |= x
                sums, first = {}, {}
                for i, (short, q, v, n, l) in what.items():
                    s = sums.setdefault(short, [0, 0])
                    s[0] += i in bad
                    s[1] += 1
                    if i not in bad:
                        first.setdefault(short, (q, v, n, json.dumps(l)[:int(os.environ.get('SHOW', '0'))]))
                print('%s %s: %d of %d rejected' % (p, m, len(bad), len(what)), flush=True)
                for k in sorted(sums):
                    if sums[k][0] < sums[k][1]:
                        print('    %-30s %d of %d   %s' % (k, sums[k][0], sums[k][1], first[k]), flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == '__main__':
    main(sys.argv[1:])
