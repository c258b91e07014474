"""P13: inputs are never modified and only the requested outputs are touched."""
import time
import re
from frame import Outcome
from scenes import *
ID = 'P13'
COUNT = {'quick': 900, 'thorough': 12000}
RULE = ('Each case is a random scene of one of the six programs (about a quarter with a user mistake), usually with older versions of its outputs present, executed under 4 (thorough: 8) seeded histories: fault-free, failing opens/reads/'
        'seeks/allocations, failing writes, disk full, process kill and SIGINT at random points; MCMC scenes are also restarted in append mode under the same faults. After every history the write set is compared with the documented outputs. '
        'Distinct = (program, feature set, kind of history, outcome).')
ASSUMPTIONS = ['Scenes never name the same file as input and output.', 'Append runs start from chains with equally many complete records (unequal and torn ones are the subject of P07).']
STEPS = 6 * 10**7
INTERRUPTED = 'current_parameters_imfit.dat'
CURRENT = re.compile(r'current_parameters_(imfit\.dat|multimfit_(summary|refimage|imageinfo|image\d+)\.dat)$')
OLD_FITS = fits([7.25] * 20, 5, 4); OLD_TEXT = b'# older output\n1 2 3\n'
OUTOPTS = ('-o', '--output', '--save-params', '--save-params-root', '--save-model', '--save-residual', '--save-weights', '--save-bootstrap', '--save-fluxes', '--output-functions', '--save-expanded', '--save-currentparams')


def describe(c): return '%s %s [%s]; histories: %s' % (c['ref']['prog'], ' '.join(map(str, c['ref']['args'])), ' '.join(c['tags']), '; '.join(h['kind'] for h in c['hist']))


def make(rng, i, tier, ctx):
    sc = any_scene(rng, i); bad = None
    if rng.chance(0.25): bad = wrong(rng, sc)
    s = spec(sc['prog'], sc['args'], sc['files'], heapFill=1, stepLimit=STEPS)
    if rng.chance(0.8): s['rw'] = {n: OLD_FITS if is_image(n) else OLD_TEXT for n in sc['outs'] if rng.chance(0.85)}
    append = sc['prog'] == 'imfit-mcmc' and not bad and rng.chance(0.6)
    if append:
        r = ctx.run(dict(s, rw={}))
        if r.kind != 1 or r.code: return None
        s['rw'] = {n: r.files[n] for n in sc['outs']}
        a = s['args']; k = a.index('--max-chain-length'); a[k + 1] = str(int(a[k + 1]) + rng.rng(3, 25)); a.append('--append'); sc['tags'].append('append')
    t0 = time.time(); r = ctx.run(dict(s, set=dict(s['set'], logOps=1)))
    if time.time() - t0 > 2.5: return None        # NLopt occasionally spends a long time between two evaluations
    steps, ios, log = r.s['steps'], r.s['ioOps'], r.log()
    hist = [{'kind': 'none', 'set': {}, 'rules': []}]
    ins = sorted(sc['files']) or ['none']; outs = sorted(sc['outs'])
    for _ in range((3 if tier == 'quick' else 7) if r.kind == 1 and steps < 5 * 10**7 else 1):
        k = rng.choice(['in', 'in', 'in', 'out', 'cap', 'alloc', 'kill', 'kill', 'sigint', 'killio'])
        h = {'kind': k, 'set': {}, 'rules': []}
        if k == 'in':
            f = rng.choice(ins); ops = [x for x in ('OPEN_R', 'READ', 'READ', 'SEEK', 'STAT', 'CLOSE') if any(l[0] == x and l[1] == f for l in log)]
            if not ops: continue
            op = rng.choice(ops); n = len([1 for l in log if l[0] == op and l[1] == f])
            h['rules'] = [rule(op, f, rng.choice([1, n, rng.rng(1, n)]), 'ERR', rng.choice([5, 13, 2, 24] if op == 'OPEN_R' else [5]), rng.below(2))]
        elif k == 'out' and outs:
            op = rng.choice(['OPEN_W', 'WRITE', 'WRITE', 'CLOSE']); h['rules'] = [rule(op, rng.choice(outs), rng.choice([1, 1, 2, 3]), 'ERR' if op != 'WRITE' else rng.choice(['ERR', 'SHORT_ERR', 'CRASH_PARTIAL', 'CRASH']), rng.choice([5, 28]), rng.below(2), arg=1 + rng.below(4000))]
        elif k == 'cap': h['set'] = {'diskCap': sum(len(b) for b in s['files'].values()) + sum(len(b) for b in s['rw'].values()) + rng.below(8000)}
        elif k == 'alloc': h['rules'] = [rule('ALLOC', '*', rng.rng(1, 40), 'NULL', 12, rng.below(2), arg=rng.choice([300, 1000]))]
        elif k == 'kill': h['set'] = {'crashStep': 1 + rng.below(max(steps, 2))}
        elif k == 'killio': h['rules'] = [rule(rng.choice(['WRITE', 'OPEN_W', 'CLOSE', 'READ']), '*', rng.rng(1, max(ios // 3, 2)), 'CRASH', 5, 0)]
        elif k == 'sigint': h['set'] = {'sigStep': 1 + rng.below(max(steps, 2))}
        hist.append(h)
    if rng.chance(0.4): hist.insert(1, {'kind': 'readonly', 'set': {}, 'rules': [rule('OPEN_W', f, 1, 'ERR', rng.choice([13, 30]), 1) for f in sorted(sc['files'])]})
    return {'ref': s, 'hist': hist, 'outs': sc['outs'], 'tags': sc['tags'], 'bad': bad, 'append': append}


def documented(c):
    """Predicate: may this file be created or modified by the command line?"""
    a = [str(x) for x in c['ref']['args']]; given = [a[k + 1] for k in range(len(a) - 1) if a[k] in OUTOPTS]
    prog = c['ref']['prog']
    default = {'imfit': ['bestfit_parameters_imfit.dat', INTERRUPTED], 'makeimage': ['modelimage.fits'], 'makemultimages': ['modelimage_multi'], 'multimfit': ['bestfit_parameters_multimfit', INTERRUPTED], 'imfit-mcmc': ['mcmc_out', 'mcmc_out.1.txt'] + ['mcmc_out.%d.txt' % k for k in range(2, 40)]}.get(prog, [])
    def ok(n):
        if n in c['outs']: return True
        if '' in given and re.match(r'^(\d*_\w.*\.fits|_\d+\.fits|\.\d+\.txt|_\w+\.dat)$', n): return True      # an empty root name was asked for
        return any(n == g or g and (n.startswith(g + '_') or n.startswith(g + '.') or n.startswith(g)) for g in given) or any(n == g or n.startswith(g + '_') for g in default) and c['bad'] is not None or CURRENT.match(n) is not None
    return ok


def execute(c, ctx):
    o = Outcome(); prog = c['ref']['prog']; ok = documented(c); old = c['ref']['rw']; base = None
    for t in c['tags']: o.probe(t)
    for h in c['hist']:
        s = dict(c['ref'], rules=h['rules']); s['set'] = dict(s['set'], **h['set'])
        if base and base.kind == 1: s['set'] = dict(s['set'], stepLimit=base.s['steps'] * 3 + 10**6, ioLimit=base.s['ioOps'] * 20 + 20000)
        r = ctx.run(s); kind = h['kind']
        if base is None: base = r
        ended = 'killed' if kind.startswith('kill') and r.kind != 1 else r.how.split()[0] + ('+' if r.kind == 1 and r.code else '')
        o.key(prog, ' '.join(sorted(set(c['tags']))), kind, ended)
        what = 'history: %s %s %s (outcome: %s)' % (kind, h['set'], [(x['op'], x['glob'], x['nth'], x['act'], x['err']) for x in h['rules']] if h['rules'] else '', r.how)
        for n, b in c['ref']['files'].items():
            m = r.meta.get(n)
            if m and (m['used'] != 1 or m['size'] != len(b) or r.files.get(n, b) != b): o.bad('input-changed:%s' % prog, 'input %s was %s; %s' % (n, 'deleted' if m['used'] != 1 else 'changed', what)); break
            if m and (m['writes'] or m['unlinks']): o.bad('input-written:%s' % prog, 'input %s was written to; %s' % (n, what)); break
        if o.v: break
        if kind == 'readonly' and base.kind == 1:
            o.probe('inputs on a read-only disk')
            if (r.kind, r.code) != (base.kind, base.code): o.bad('needs-writable:%s' % prog, 'with input files that cannot be written to the program ends with %s instead of %s' % (r.how, base.how)); break
        for n in sorted(r.meta):
            m = r.meta[n]
            if n in c['ref']['files'] or not (m['wopens'] or m['writes'] or m['unlinks']): continue
            if not ok(n): o.bad('undocumented:%s' % prog, 'the program touched %s, which is not one of its documented outputs; %s' % (n, what)); break
            if CURRENT.match(n) and kind != 'sigint': o.bad('interrupted-file:%s' % prog, 'the interrupted-fit file was written without an interrupt; %s' % what); break
        if o.v: break
        # earlier outputs survive a run that fails before producing a result
        early = (r.kind == 1 and r.code != 0 and (kind == 'none' or (kind == 'in' and r.rulecounts and r.rulecounts[0][1]))) and not (prog == 'imfit-mcmc' and kind == 'none' and not c['bad'])
        if kind == 'kill' and prog in ('imfit', 'multimfit') and base.kind == 1 and base.code == 0 and '--bootstrap' not in c['ref']['args'] and '--fitstat-only' not in c['ref']['args'] and h['set']['crashStep'] < base.s['steps'] // 2: early = True
        if early and kind == 'in' and h['rules'][0]['op'] == 'CLOSE': early = False
        if early:
            o.probe('failed before a result')
            for n in sorted(old):
                if r.files.get(n) != old[n]: o.bad('lost-earlier:%s:%s' % (prog, c['outs'][n]), 'the run produced no result, but the earlier version of %s was %s; %s' % (n, 'deleted' if n not in r.files else 'changed', what)); break
            new = sorted(n for n in r.files if n not in c['ref']['files'] and n not in old)
            if new and not o.v: o.bad('stray:%s' % prog, 'the run produced no result but created %s; %s' % (new, what))
            if o.v: break
        if c['append']:
            for n in sorted(old):
                if not r.files.get(n, b'').startswith(old[n]): o.bad('append-rewrites', 'records of %s existing before the append run were changed; %s' % (n, what)); break
            if o.v: break
    return o


def shrink(c):
    if len(c['hist']) > 1:
        for h in c['hist']: yield dict(c, hist=[h] if h['kind'] == 'none' else [c['hist'][0], h] if len(c['hist']) > 2 else [h])
