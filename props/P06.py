"""P06: damaged or unreadable input is never silently used."""
import re, time
from frame import Outcome
from scenes import *
from props.P02 import norm, RATE
ID = 'P06'
COUNT = {'quick': 620, 'thorough': 12000}
RULE = ('Each case is a random valid scene of one of the six programs (MCMC scenes also as append restarts reading chain files); after a fault-free run, 8 (thorough: 16) faults are injected one at a time into the reading of its input files: '
        'failing open (ENOENT, EACCES, EMFILE, EIO), failing read/seek/stat at the first, a middle or the last occurrence (once or persistently), a partial read followed by an error, short reads that go on to deliver everything, a file cut off '
        'inside its FITS data. Distinct = (program, role of the input, operation, action, error, position, outcome) whose fault fired.')
ASSUMPTIONS = ['A file whose content is damaged but still self-consistent cannot be noticed by any program and is not injected.',
               'A fault that leaves every output and message identical to the fault-free run counts as harmless.']
STEPS = 10**8
BADWORD = re.compile(r'error|warning|fail|unable|could ?n.t|can ?not|can.t|not found|problem|unknown|invalid|missing|no (valid )?(image|data|function)|incorrect|bad|\*\*\*', re.I)


def describe(c): return '%s %s [%s]; faults: %s' % (c['ref']['prog'], ' '.join(map(str, c['ref']['args'])), ' '.join(c['tags']), '; '.join(text(p) for p in c['plans']))


def text(p):
    if 'dmg' in p: return '%s damaged (%s)' % (p['file'], p['dmg'])
    return '%s cut to %d bytes' % (p['file'], p['cut']) if 'cut' in p else '%s #%d of %s -> %s %d%s' % (p['op'], p['nth'], p['file'], p['act'], p['err'], ' (persistent)' if p['persistent'] else '')


def role(n, args):
    a = [str(x) for x in args]
    for k in range(1, len(a)):
        if a[k] == n and a[k - 1].startswith('-'): return a[k - 1]
    if n.startswith('ch.'): return 'chain'
    if n.endswith('.fits') and a and a[0] == n: return 'image'
    return 'config' if n.endswith('.dat') else 'other-image' if n.endswith('.fits') else 'other'


def make(rng, i, tier, ctx):
    sc = any_scene(rng, i)
    s = spec(sc['prog'], sc['args'], sc['files'], heapFill=1, stepLimit=STEPS)
    if sc['prog'] == 'imfit-mcmc' and rng.chance(0.6):
        r = ctx.run(s)
        if not r.ok: return None
        s['rw'] = {n: r.files[n] for n in sc['outs']}
        a = s['args']; k = a.index('--max-chain-length'); a[k + 1] = str(int(a[k + 1]) + rng.rng(2, 12)); a.append('--append'); sc['tags'].append('append')
    t0 = time.time(); r = ctx.run(dict(s, set=dict(s['set'], logOps=1)))
    if not r.ok or time.time() - t0 > 2.5: return None
    ins = set(sc['files']) | set(s['rw']); ops = {}
    for op, f, a, act, err, step in r.log():
        if f in ins and op in ('OPEN_R', 'READ', 'SEEK', 'STAT'): ops[(f, op)] = ops.get((f, op), 0) + 1
    files = sorted(set(f for f, op in ops)); plans = []
    for _ in range(3 if r.s['steps'] > 2 * 10**7 else 8 if tier == 'quick' else 16):
        f = rng.choice(files)
        if f.endswith('.fits') and rng.chance(0.2):
            n = len(sc['files'][f])
            plans.append({'file': f, 'cut': rng.choice([n - 2880, n - 1, rng.below(n), 2880, 0])}); continue
        if f.endswith('.fits') and rng.chance(0.15): plans.append({'file': f, 'dmg': rng.choice(['NAXIS', 'NAXIS1', 'NAXIS0', 'END', 'SIMPLE', 'BITPIX', 'negative', 'zero', 'text'])}); continue
        if f.startswith('ch.') and rng.chance(0.35): plans.append({'file': f, 'dmg': 'record', 'arg': rng.below(1 << 20)}); continue
        kinds = sorted(op for g, op in ops if g == f); kinds += [x for x in ('OPEN_R', 'READ', 'READ', 'READ') if x in kinds]
        op = rng.choice(kinds); n = ops[(f, op)]; nth = rng.choice([1, n, rng.rng(1, n)])
        act = rng.choice(['ERR', 'ERR', 'SHORT_ERR', 'SHORT_ERR', 'SHORT']) if op == 'READ' else 'ERR'
        plans.append({'file': f, 'op': op, 'nth': nth, 'act': act, 'err': rng.choice([2, 13, 24, 5]) if op == 'OPEN_R' else 5, 'persistent': rng.below(2), 'arg': rng.below(100000), 'pos': 'first' if nth == 1 else 'last' if nth == n else 'mid'})
    return {'ref': s, 'plans': plans, 'outs': sc['outs'], 'tags': sc['tags']}


def damage(b, p):
    """the content of an input file made invalid: not a two-dimensional image, a malformed header, a chain record that is no list of numbers"""
    k = p['dmg']
    if k == 'record':
        L = b.split(b'\n'); rows = [j for j, l in enumerate(L) if l and not l.startswith(b'#')]
        if not rows: return None
        j = rows[p['arg'] % len(rows)]; w = L[j].split()
        if p['arg'] // 64 % 2: L[j] = b' '.join(w[:1 + p['arg'] // 128 % (len(w) - 2)])                 # fields are missing
        else: q = p['arg'] // 128 % len(w[:-1]); w[q] = w[q][:-1] + b'x'; L[j] = b' '.join(w)
        return b'\n'.join(L)
    if k == 'text': return b'no FITS file at all\n' * 200
    h, d = b[:2880], b[2880:]; cards = [h[q:q + 80] for q in range(0, 2880, 80)]
    at = {c[:8].strip(): q for q, c in enumerate(cards) if c[:3] != b'   '}
    card = lambda n, v: ('%-8s= %20s' % (n, v)).ljust(80).encode()
    n1, n2 = [int(cards[at[x]][10:30]) for x in (b'NAXIS1', b'NAXIS2')]
    if k == 'NAXIS':
        q = next((q for q in (2, 3, 5, 7) if n2 % q == 0), n2)      # the planes of a cube
        cards[at[b'NAXIS']] = card('NAXIS', 3); cards[at[b'NAXIS2']] = card('NAXIS2', n2 // q); cards.insert(at[b'NAXIS2'] + 1, card('NAXIS3', q)); cards.pop()
    elif k == 'NAXIS1': cards[at[b'NAXIS']] = card('NAXIS', 1); cards[at[b'NAXIS1']] = card('NAXIS1', n1 * n2); cards[at[b'NAXIS2']] = b' ' * 80
    elif k == 'NAXIS0': cards[at[b'NAXIS']] = card('NAXIS', 0); cards[at[b'NAXIS1']] = cards[at[b'NAXIS2']] = b' ' * 80; d = b''
    elif k == 'END': cards[at[b'END']] = b' ' * 80
    elif k == 'SIMPLE': cards[0] = b'X' + cards[0][1:]
    elif k == 'BITPIX': cards[at[b'BITPIX']] = card('BITPIX', 17)
    elif k == 'negative': cards[at[b'NAXIS2']] = card('NAXIS2', -n2)
    elif k == 'zero': cards[at[b'NAXIS2']] = card('NAXIS2', 0)
    return b''.join(cards) + d


def alltext(r): return (RATE.sub(b'', r.out) + b'\n' + r.err).decode('latin1')


def execute(c, ctx):
    o = Outcome(); r0 = ctx.run(c['ref']); prog = c['ref']['prog']
    if not r0.ok: return o
    t0 = alltext(r0); lines0 = set(t0.split('\n')); outs0 = {n: norm(r0.files[n]) for n in r0.files if n not in c['ref']['files']}
    for t in c['tags']: o.probe(t)
    for p in c['plans']:
        s = dict(c['ref']); s['set'] = dict(s['set'], stepLimit=r0.s['steps'] * 3 + 10**6, ioLimit=r0.s['ioOps'] * 20 + 20000)
        if 'cut' in p: s['files'] = dict(s['files'], **{p['file']: s['files'][p['file']][:p['cut']]})
        elif 'dmg' in p:
            rw = p['file'] in s['rw']; b = damage((s['rw'] if rw else s['files'])[p['file']], p)
            if b is None: continue
            s['rw' if rw else 'files'] = dict(s['rw' if rw else 'files'], **{p['file']: b})
        else: s['rules'] = [rule(p['op'], p['file'], p['nth'], p['act'], p['err'], p['persistent'], arg=p['arg'])]
        r = ctx.run(s); rl = role(p['file'], c['ref']['args']); op = p.get('op', p.get('dmg', 'cut'))
        fired = 1 if 'op' not in p else r.rulecounts[0][1]
        what = text(p) + ' (outcome: %s)' % r.how; where = '%s:%s' % (prog, rl)
        if r.kind in (4, 6, 20): o.bad('hang:' + where, 'the program does not stop: %s %s; %s' % (r.how, r.note, what)); break
        if r.kind != 1: o.bad('crash:' + where, '%s %s; %s' % (r.how, r.note, what)); break
        fail = r.code != 0
        outs = {n: norm(r.files[n]) for n in r.files if n not in c['ref']['files']}
        same = outs == outs0 and not fail and RATE.sub(b'', r.out) == RATE.sub(b'', r0.out)
        if fired: o.key(prog, rl, op, p.get('act'), p.get('err'), p.get('pos'), 'same' if same else 'fail' if fail else 'different')
        if not fired or p.get('act') == 'SHORT':
            if not same:
                diff = sorted(n for n in set(outs) | set(outs0) if outs.get(n) != outs0.get(n))
                o.bad(('short:' if fired else 'nofault:') + where, 'every byte was delivered, but the run differs (status %d, files %s, messages %s); %s' % (r.code, diff, [l for l in alltext(r).split('\n') if l not in lines0][:4], what)); break
            o.probe('short reads harmless'); continue
        if same: o.probe('harmless'); continue
        if not fail:
            diff = sorted(n for n in set(outs) | set(outs0) if outs.get(n) != outs0.get(n))
            o.bad('used:%s:%s' % (where, op), 'exit status 0 although %s could not be read; differing outputs: %s; new messages: %s; %s' % (p['file'], diff, [l for l in alltext(r).split('\n') if l not in lines0 and l.strip()][:4], what)); break
        new = [l for l in alltext(r).split('\n') if l not in lines0]
        if not any(BADWORD.search(l) for l in new): o.bad('silent:' + where, 'status %d without any error message; %s; new lines %s' % (r.code, what, new[:5])); break
        made = sorted(n for n in outs if outs.get(n) != (norm(s['rw'][n]) if n in s['rw'] else None) and outs.get(n) != outs0.get(n))
        if made: o.bad('result:' + where, 'failure reported, but a different %s was produced; %s' % (made, what)); break
        o.probe('refused')
    return o


def shrink(c):
    if len(c['plans']) > 1:
        for p in c['plans']: yield dict(c, plans=[p])
