#!/usr/bin/env python3
"""check.py PROPERTY            checks a property (VERIF_SEED, VERIF_TIER)
   check.py PROPERTY --replay FILE   runs the cases of a replay file again"""
import json, os, random, shutil, sys, tempfile, time, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run
from run import VERIF, CheckError, Outcome
from props import PROPS

def text(cs):
    return ''.join(chr(c) if 0 <= c < 0x110000 and not 0xD800 <= c < 0xE000 else '?' for c in cs)

def readable(l, call):
    """a short description of a case"""
    d = {'id': l['id'], 'kind': l['kind']}
    if 'defs' in l:
        d['definitions'] = [text(x) for x in l['defs']]
    if l.get('crash'):
        d['crash'] = l['crash']
    if 'calls' in l and call and 0 < call <= len(l['calls']):
        c = dict(l['calls'][call - 1])
        for k in ('r', 'tx', 'def', 'nm', 'text'):
            if isinstance(c.get(k), list):
                c[k] = text(c[k])
        d['call'] = c
    return d

def short(x):
    """the same with what is long cut, for reading"""
    if isinstance(x, str) and len(x) > 300:
        return x[:280] + '... (%d chars)' % len(x)
    if isinstance(x, dict):
        return {k: short(v) for k, v in list(x.items())[:60]}
    if isinstance(x, list):
        return [short(v) for v in x[:40]] + (['... (%d)' % len(x)] if len(x) > 40 else [])
    return x

def known(prop):
    """known findings: lines `KNOWN-FINDING property=<id> key=<key> <what fails>`"""
    out = {}
    with open(os.path.join(VERIF, 'known_findings.txt')) as f:
        for s in f:
            p = s.split()
            if len(p) > 2 and p[0] == 'finding:' and p[1] == 'property=' + prop:
                out[p[2][4:]] = ' '.join(p[3:])
    return out

def main():
    prop = sys.argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    big = tier == 'thorough'
    start = time.time()
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        p = PROPS[prop]
        if len(sys.argv) > 3 and sys.argv[2] == '--replay':
            return replay(prop, p, sys.argv[3], tmp)
        found, cov = p.run(tmp, seed, big)
        return conclude(prop, p, found, cov, seed, tier, start)
    except CheckError as e:
        print('ERROR: ' + str(e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def conclude(prop, p, found, cov, seed, tier, start):
    ev = os.path.join(VERIF, 'evidence')
    rp = os.path.join(ev, 'replays')
    os.makedirs(rp, exist_ok=True)
    kn = known(prop)
    new = []
    for f in found:
        if f['key'] in kn:
            print('KNOWN-FINDING: property=%s %s' % (prop, kn[f['key']]))
        else:
            new.append(f)
    shown = 0
    for f in new[:5]:
        path = os.path.join(rp, '%s-%d.json' % (prop, shown))
        with open(path, 'w') as fh:
            json.dump(f, fh, indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('   ' + json.dumps(f.get('shown', {}), ensure_ascii=False)[:1500])
        shown += 1
    doc = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': short(cov),
           'assumptions': p.assumptions, 'wall_s': round(time.time() - start, 1), 'violations': len(new)}
    with open(os.path.join(ev, prop + '.json'), 'w') as fh:
        json.dump(doc, fh, indent=1, ensure_ascii=False)
    print('%s: %d traces, %d model states, %d violations, %.0f s' % (prop, cov.get('traces_validated_against_impl', 0),
          cov.get('states', 0), len(new), time.time() - start))
    if new:
        return 1
    if run.INCOMPLETE:
        print('ERROR: ' + run.INCOMPLETE[0])
        return 2
    return 0

def replay(prop, p, path, tmp):
    with open(path) as f:
        r = json.load(f)
    found = p.again(tmp, r)
    for f in found:
        print(json.dumps(f['shown'], ensure_ascii=False, indent=1))
    print('%d differences' % len(found))
    return 1 if found else 0

if __name__ == '__main__':
    sys.exit(main())
