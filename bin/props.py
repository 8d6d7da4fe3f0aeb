"""How each property is checked: its cases, the facets of a difference that concern it, and the
model checking runs on the specification alone."""
import json, os, random, time
from concurrent.futures import ThreadPoolExecutor
import run, work, work2, work3, cli
from run import CheckError, Outcome

BASE = ['TLC and the Java and Go toolchains work as documented',
        'cases are chosen with a seeded random generator and small exhaustive enumerations: nothing is said about texts and grammars not tried']

NOTE = ('The executable TLA+ specification gives the one result every recorded call of the real code must have; '
        'TLC compares them on generated and enumerated definitions, texts and ways of calling. Bounded: only what was generated is covered.')

def run_models(models, tmp, big):
    """model checking of specifications by themselves: (module, states, transitions)
    A name ending in ! is of a configuration in which something is wrong on purpose, which has to be found."""
    out = []
    with ThreadPoolExecutor(4) as ex:
        ts = []
        for m in models:
            if m.endswith('!'):
                mod, cfg = m.split('-')[0], m[:-1] + '.cfg'
                ts.append((m, cfg, ex.submit(run.tlc, mod + '.tla', cfg, tmp, 'mc-' + m[:-1], workers=2, args=('-deadlock',))))
                continue
            cfg = m + ('_big' if big and os.path.exists(os.path.join(run.SPEC, m + '_big.cfg')) else '') + '.cfg'
            ts.append((m, cfg, ex.submit(run.tlc, m.split('-')[0] + '.tla', cfg, tmp, 'mc-' + m, workers=3, args=('-deadlock',))))
        for m, cfg, t in ts:
            rc, o = t.result()
            if m.endswith('!'):
                if rc not in (12, 13):      # violation of safety, of liveness
                    raise CheckError('model %s finds nothing wrong (status %d): %s' % (m, rc, o[-2500:]))
            elif rc != 0:
                raise CheckError('model %s (%s) does not satisfy its properties (status %d): %s' % (m, cfg, rc, o[-2500:]))
            out.append((m,) + run.counts(o))
    return out

class Prop:
    """a property decided by validating traces of the real library with TLC"""
    technique = 'TLA+ specification; traces of the real code validated with TLC; model checking of the specification'
    def __init__(self, cases, facets, models=(), assumptions=(), race=False, timeout=None, note=NOTE):
        self.note = note
        self.cases, self.facets, self.models = cases, set(facets), models
        self.assumptions = BASE + list(assumptions)
        self.race, self.timeout = race, timeout

    def run(self, tmp, seed, big):
        env = {}
        driver = run.build(tmp, self.race)
        t0 = time.time()
        rnd = random.Random('%s/cases' % seed)
        jobs = self.cases(rnd, seed, big)
        o = run.run_all(driver, jobs, tmp, timeout=self.timeout)
        mods = {l['id']: m for m, ls in jobs for l in ls}
        found = []
        # one replay per line at most, the first ones confirmed on the real code again
        seen = set()
        for l, c, fs in sorted(o.mismatches, key=lambda m: (len(str(m[0]['calls'])) if 'calls' in m[0] else 0)):
            fs = fs & self.facets
            if not fs or l['id'] in seen or len(found) >= 5:
                continue
            seen.add(l['id'])
            found.append(self.finding(mods[l['id']], l, c, fs))
        if 'crash' in self.facets:
            for l in o.crashes[:5]:
                f = self.confirm_crash(driver, mods[l['id']], l, tmp)
                if f:
                    found.append(f)
                if time.time() - t0 > 200 or f and 'hang' in l['crash']:     # confirming takes long
                    break
        mc = ([] if found or run.INCOMPLETE else run_models(self.models, tmp, big)) + run.GENERATED
        cov = {'states': o.states + sum(m[1] for m in mc), 'transitions': o.transitions + sum(m[2] for m in mc),
               'traces_validated_against_impl': o.traces, 'calls_compared': o.calls, 'calls_by_kind': o.stats,
               'lines_skipped_as_too_slow_to_specify': o.slow,
               'models': [{'module': m, 'distinct_states': s, 'transitions': t} for m, s, t in mc],
               'samples': [shorten(s) for s in o.samples[:6]]}
        if o.traces == 0 and not found:
            raise CheckError(run.INCOMPLETE[0] if run.INCOMPLETE else 'nothing was checked')
        return found, cov

    def finding(self, module, l, c, fs):
        from check import readable
        f = {'key': str(l['id']), 'module': module, 'case': run.strip(l), 'call': c, 'facets': sorted(fs),
             'shown': dict(readable(l, c), differs_in=sorted(fs))}
        if 'hist' in l or module == 'TraceConc':     # what goroutines did may not happen again
            f['observed'] = l
        return f

    def confirm_crash(self, driver, module, l, tmp):
        """a crash counts if it happens again when the case is run alone, with more time"""
        case = run.strip(l)
        if self.race and l['crash'][:5] in ('race:', 'panic', 'fatal'):     # need not happen again to have happened
            return self.finding(module, l, 0, {'crash'})
        for k in range(4 if self.race else 2):
            try:
                obs, cr = run.drive(driver, [case], tmp, 'confirm-%s-%d' % (abs(hash(l['id'])), k), timeout=45)
            except CheckError:
                continue
            if cr:
                from check import readable
                return {'key': str(l['id']), 'module': module, 'case': case, 'call': 0, 'facets': ['crash'],
                        'shown': dict(readable(cr[0], 0), differs_in=['crash'])}
        if l['crash'].startswith('fatal') or l['crash'].startswith('panic'):
            run.INCOMPLETE.append('case %s crashed once (%s) but not again' % (l['id'], l['crash']))
        return None     # slow once, on a busy machine: nothing found

    def again(self, tmp, r):
        if 'observed' in r and not r['observed'].get('crash'):
            print('as observed then:')
            ms, _, _ = run.validate(r['module'] + '.tla', r['module'] + '.cfg', [r['observed']], tmp, 'observed')
            for _, c, fs in ms:
                print(json.dumps({'call': c, 'facets': sorted(fs)}))
            print('again:')
        driver = run.build(tmp, self.race)
        obs, cr = run.drive(driver, [r['case']], tmp, 'replay', timeout=60)
        if cr:
            return [self.finding(r['module'], cr[0], 0, {'crash'})]
        ms, _, _ = run.validate(r['module'] + '.tla', r['module'] + '.cfg', obs, tmp, 'replay')
        return [self.finding(r['module'], obs[0], c, fs) for _, c, fs in ms if fs & self.facets]

def shorten(l):
    from check import readable
    return readable(l, 1)

EV = {'match', 'error', 'used', 'define', 'crash'}
PROPS = {
    'C01': Prop(work.c01, EV, models=('MCRules-leaves',)),
    'C02': Prop(work.c02, {'read', 'match', 'used', 'tree', 'pos', 'sticky', 'crash'}, models=('MCPushback', 'MCPushback-order!', 'MCPushback-lost!', 'MCPushback-partial!')),
    'C03': Prop(work.c03, EV | {'tree'}, models=('MCRules-two',)),
    'C04': Prop(work.c04, EV | {'tree'}, models=('MCRules-deep',)),
    'C05': Prop(work.c05, {'match', 'used', 'sticky', 'nodest', 'tree', 'crash'}, models=('MCRules-leaves',)),
    'C06': Prop(work.c06, EV | {'tree'}, models=('MCRules-blocks',)),
    'C07': Prop(work.c07, {'match', 'error', 'tree', 'crash'}, models=('MCParse',)),
    'C08': Prop(work.c08, {'match', 'error', 'tree', 'crash'}, models=('MCParse',)),
    'C09': Prop(work.c09, {'tree', 'crash'}, models=('MCRules-two',)),
    'C10': Prop(work.c10, {'pos', 'crash'}, models=('MCRules-leaves',)),
    'C11': Prop(work.c11, {'mark', 'match', 'define', 'crash'}, models=('MCRules-leaves',)),
    'C12': Prop(work2.c12, {'pass', 'level', 'crash'}, models=('MCTree',)),
    'C13': Prop(work3.c13, {'ends', 'crash'}, models=('MCParse',)),
    'C14': Prop(work3.c14, {'again', 'concurrent', 'crash'}, race=True, models=('MCConc', 'MCConc-marks!', 'MCConc-chars!', 'MCConc-memo!')),
    'C15': Prop(work2.c15, {'char', 'cursor', 'pos', 'crash'}),
    'C16': Prop(work2.c16, {'order', 'crash'}, race=True, models=('MCLocked', 'MCLocked-next!', 'MCLocked-look!', 'MCLocked-cursor!')),
    'C17': Prop(work3.c17, {'define', 'valid', 'lookup', 'list', 'roots', 'crash'}),
    'C18': Prop(work3.c18, {'define', 'meaning', 'crash'}, models=('MCNotation-texts',)),
    'C19': Prop(work3.c19, {'print', 'again', 'list', 'crash'}, models=('MCNotation-rules',)),
    'C20': cli.CliProp(BASE),
    'C22': Prop(work3.c22, {'cause', 'error', 'crash'}, models=('MCErrors-leaves', 'MCErrors-two', 'MCErrors-blocks', 'MCErrors-deep')),
    'C21': Prop(work2.c21, {'text', 'count', 'dump', 'keep', 'crash'}, models=('MCTree',)),
}
