"""P05: no program reports success for an output it failed to write."""
import re, time
from frame import Outcome
from scenes import *
from props.P02 import norm
ID = 'P05'
COUNT = {'quick': 420, 'thorough': 7000}
RULE = ('Each case is a random valid scene of one of the six programs; after a fault-free run, 6 (thorough: 12) fault plans are executed: one output file is chosen, then one kind of operation on it, then one occurrence of it, and that '
        'operation fails (EIO, ENOSPC, EACCES, ENOENT, EDQUOT, EROFS, EMFILE; once or from then on; whole, short or short-then-error writes), or the simulated disk fills up at a random byte. '
        'Distinct = (program, role of the output, operation, error kind, first/later/last occurrence) whose fault fired.')
ASSUMPTIONS = ['An output counts as written when its content is identical to the fault-free run apart from the time stamp.']
ERRS = [core_err for core_err in (5, 28, 13, 2, 122, 30, 24)]
NAMES = {5: 'EIO', 28: 'ENOSPC', 13: 'EACCES', 2: 'ENOENT', 122: 'EDQUOT', 30: 'EROFS', 24: 'EMFILE'}
STEPS = 3 * 10**8
BADWORD = re.compile(r'error|warning|fail|unable|could ?n.t|can ?not|can.t|not (be )?(saved|written|opened)|problem', re.I)


def describe(c): return '%s %s; plans: %s' % (c['ref']['prog'], ' '.join(map(str, c['ref']['args'])), '; '.join(plan_text(p) for p in c['plans']))


def plan_text(p): return 'disk holds %d bytes' % p['cap'] if 'cap' in p else '%s #%d of %s -> %s %s%s' % (p['op'], p['nth'], p['file'], p['act'], NAMES.get(p['err'], p['err']), ' (persistent)' if p['persistent'] else '')


def make(rng, i, tier, ctx):
    k = i % 12
    # sizes for which the last row (alone) starts the last FITS block, or just fills it
    size = rng.choice([(20, 37), (40, 19), (24, 31), (30, 25), (36, 21), (16, 46), (36, 20), (24, 30)]) if rng.chance(0.3) else None
    if k in (0, 2, 4, 8) and size: sc = makeimage_scene(rng, slow=0, over=0.1, size=size)
    elif k in (1, 6) and size: sc = imfit_scene(rng, solver='lm', boot=False, size=size)
    else: sc = any_scene(rng, i) if k != 5 else multimfit_scene(rng, unimplemented=rng.chance(0.15))
    if size: sc['tags'] = sc['tags'] + ['block-edge size']
    s = spec(sc['prog'], sc['args'], sc['files'], heapFill=1, logOps=1, stepLimit=STEPS)
    if rng.chance(0.3):       # older versions of the outputs exist already
        s['rw'] = {n: fits([7.0] * 20, 5, 4) if is_image(n) else b'# older output\n1 2 3\n' for n in sc['outs'] if rng.chance(0.7)}
    t0 = time.time(); r = ctx.run(s)
    if not r.ok or time.time() - t0 > 2.5: return None
    ops = {}; wclose = {}
    for op, f, a, act, err, step in r.log():
        if f in sc['outs'] and op in ('OPEN_W', 'OPEN_R', 'WRITE', 'CLOSE', 'SEEK', 'TRUNC', 'UNLINK', 'RENAME', 'STAT', 'READ'): ops.setdefault((f, op), 0); ops[(f, op)] += 1
        if f in sc['outs'] and op == 'CLOSE' and a: wclose[f] = ops[(f, op)]        # the last close of a descriptor opened for writing
    files = sorted(set(f for f, op in ops))
    if not files: return None
    plans = []
    for _ in range(2 if r.s['steps'] > 3 * 10**7 else 6 if tier == 'quick' else 12):
        if rng.chance(0.14):
            total = sum(len(r.files[f]) for f in files if f in r.files); before = sum(len(b) for b in s['files'].values()) + sum(len(b) for b in s['rw'].values())
            plans.append({'cap': max(1, before + rng.below(max(total, 2)))}); continue
        f = rng.choice(files); kinds = sorted(op for g, op in ops if g == f)
        kinds += [x for x in ('OPEN_W', 'WRITE', 'WRITE', 'CLOSE') if x in kinds]
        op = rng.choice(kinds); n = ops[(f, op)]
        nth = rng.choice([1, n, rng.rng(1, n)] + ([wclose[f]] * 2 if op == 'CLOSE' and f in wclose else []))
        act = 'ERR'
        if op == 'WRITE': act = rng.choice(['ERR', 'ERR', 'SHORT', 'SHORT_ERR'])
        plans.append({'file': f, 'op': op, 'nth': nth, 'act': act, 'err': rng.choice(ERRS if op in ('OPEN_W', 'UNLINK') else [5, 28, 122] if op != 'OPEN_R' else [5, 13, 24]), 'persistent': rng.below(2) if act != 'SHORT' else rng.below(2), 'last': nth == (wclose.get(f, 0) if op == 'CLOSE' else n), 'arg': 1 + rng.below(6000)})
    return {'ref': s, 'plans': plans, 'outs': sc['outs'], 'tags': sc['tags']}


def outcome_text(r): return (r.out + b'\n' + r.err).decode('latin1')


def execute(c, ctx):
    o = Outcome(); r0 = ctx.run(c['ref']); prog = c['ref']['prog']
    if not r0.ok: return o
    for f, role in c['outs'].items():
        if f not in r0.files or not r0.meta[f]['wopens']:
            t = outcome_text(r0)
            if not any(BADWORD.search(l) and f in l for l in t.split('\n')):
                o.bad('never-written:%s:%s' % (prog, role), 'the requested output %s was not written by a fault-free run that reported success' % f)
    lines0 = set(outcome_text(r0).split('\n'))
    for p in c['plans']:
        s = dict(c['ref']); s['set'] = dict(s['set'], stepLimit=r0.s['steps'] * 3 + 10**6, ioLimit=r0.s['ioOps'] * 20 + 20000)
        if 'cap' in p: s['set']['diskCap'] = p['cap']
        else: s['rules'] = [rule(p['op'], p['file'], p['nth'], p['act'], p['err'], p['persistent'], arg=p['arg'])]
        r = ctx.run(s)
        fired = r.s['capHits'] if 'cap' in p else r.rulecounts[0][1]
        role = c['outs'].get(p.get('file'), 'disk')
        if fired: o.key(prog, role, p.get('op', 'cap'), p.get('act', 'cap'), p.get('err', 'cap'), p.get('persistent', 0), 'first' if p.get('nth') == 1 else 'last' if p.get('last') else 'mid')
        where = '%s:%s:%s' % (prog, role, p.get('op', 'disk-full'))
        what = plan_text(p) + (' (outcome: %s)' % r.how)
        if r.kind != 1: o.bad('crash:' + where, '%s %s; %s' % (r.how, r.note, what)); break
        bad = [f for f in sorted(c['outs']) if f in r0.files and norm(r.files.get(f, b'\0missing')) != norm(r0.files[f])]
        fail = r.code != 0
        text = outcome_text(r); new = [l for l in text.split('\n') if l not in lines0]
        rep = lambda f: any(f in l for l in new) and any(BADWORD.search(l) for l in new if f in l or f in text)
        if not fired:
            if bad or fail: o.bad('nofault:' + where, 'no fault fired, but %s differ / status %d' % (bad, r.code)); break
            continue
        must = list(bad)
        if 'file' in p and p['op'] == 'CLOSE' and p['act'] == 'ERR' and p['file'] not in must and p['last']: must.append(p['file'])
        if not fail:
            for f in must:
                if not rep(f): o.bad('unreported:%s:%s:%s' % (prog, c['outs'][f], p.get('op', 'disk-full')), '%s is %s but the program exited with status 0 and said nothing about it; %s' % (f, 'missing' if f not in r.files else 'incomplete or stale' if f in bad else 'possibly incomplete (close failed)', what)); break
            if o.v: break
        for f in bad:
            if re.search(r'(?<!to be )saved (to|in)( file)? "?%s\b' % re.escape(f), text): o.bad('claims-saved:%s:%s' % (prog, c['outs'][f]), '%s is bad but the program says it was saved; %s' % (f, what)); break
        if o.v: break
        if 'file' in p and c['outs'][p['file']] not in ('params', 'chain', 'profile'):
            others = [f for f in bad if f != p['file']]
            if others: o.bad('isolation:%s:%s->%s' % (prog, role, c['outs'][others[0]]), 'a fault on %s kept %s from being written correctly; %s' % (p['file'], others, what)); break
            if fail and role in ('bootstrap', 'fluxes') and False: pass
        if must: o.probe('failure reported by ' + ('exit status' if fail else 'message'))
        else: o.probe('fault absorbed, output complete')
    return o


def shrink(c):
    if len(c['plans']) > 1:
        for p in c['plans']: yield dict(c, plans=[p])
        return
    a = c['ref']['args']
    for opt, n in (('--save-fluxes', 2), ('--output-functions', 2), ('--overpsf', 6), ('--psf', 2), ('--no-subsampling', 1), ('--save-model', 2), ('--save-residual', 2), ('--save-weights', 2), ('--noise', 2), ('--mask', 2)):
        if opt in a:
            k = a.index(opt); t = a[k + 1] if n == 2 else None
            if t and any(f.startswith(t) for f in c['outs']): 
                if any(f.startswith(t) and p.get('file') == f for f in c['outs'] for p in c['plans']): continue
                yield dict(c, ref=dict(c['ref'], args=a[:k] + a[k + n:]), outs={f: v for f, v in c['outs'].items() if not f.startswith(t)})
            else: yield dict(c, ref=dict(c['ref'], args=a[:k] + a[k + n:]))
