"""P07: a killed MCMC run can be resumed without losing or corrupting its history."""
import math
from itertools import combinations_with_replacement
from frame import Outcome
from scenes import *
ID = 'P07'
COUNT = {'quick': 4500, 'thorough': 60000}
PROGS = ['imfit-mcmc', 'imfit']
RULE = ('Each case is a random MCMC problem (half of them on an image section, all statistics, 3-5 chains) executed as 2-5 successive processes: a fresh run and append restarts, all but the last killed at a seeded point (at a step, before a chain '
        'write, in the middle of a chain write, at an open, by a full disk or an interrupt); sometimes the last one is a plain extension. After every process the chain files are compared with those before it; in most cases the random offsets of '
        'DREAM are set to zero and every newly recorded move is checked against the DREAM proposal formula applied to the recorded states of the previous generation. '
        'Distinct = (number of processes, kill kinds, torn/unequal/equal state found, section or not, chains).')
ASSUMPTIONS = ['Process death, not power loss: writes the process completed are on disk.', 'A kill before every chain has its first record leaves nothing to resume: the restart may refuse (with the files untouched) or start the missing chains.']
STEPS = 10**8


def describe(c): return '%s %s; lengths %s; kills: %s' % (c['ref']['prog'], ' '.join(map(str, c['ref']['args'])), c['lens'], '; '.join(k['kind'] for k in c['kills']))


def make(rng, i, tier, ctx):
    sc = mcmc_scene(rng, length=rng.rng(8, 34)); n = sc['nchains']
    if 'section' not in sc['tags'] and rng.chance(0.3): return None
    if rng.chance(0.5): setarg(sc['args'], '--burnin-length', rng.rng(0, 8)); sc['tags'] = sc['tags'] + ['short burn-in']
    exact = rng.chance(0.75)
    if exact: sc['args'] += ['--uniform-offset', '0', '--gaussian-offset', '0']
    s = spec(sc['prog'], sc['args'], sc['files'], heapFill=1, stepLimit=STEPS)
    r = ctx.run(dict(s, set=dict(s['set'], logOps=1)))
    if not r.ok or r.s['steps'] > 3 * 10**7: return None
    L = int(sc['args'][sc['args'].index('--max-chain-length') + 1])
    chains = ['ch.%d.txt' % (k + 1) for k in range(n)]
    nw = {f: len([1 for l in r.log() if l[0] == 'WRITE' and l[1] == f]) for f in chains}
    kills, lens = [], []
    for k in range(rng.rng(1, 4) if tier == 'quick' else rng.rng(1, 6)):
        f = rng.choice(chains); w = rng.rng(1, max(2, nw[f] if k == 0 else nw[f] // 2)); kind = rng.choice(['write', 'torn', 'torn', 'step', 'step', 'open', 'disk', 'sigint', 'none'])
        h = {'kind': kind, 'set': {}, 'rules': []}
        if kind == 'write': h['rules'] = [rule('WRITE', f, w, 'CRASH', 5, 0)]
        elif kind == 'torn': h['rules'] = [rule('WRITE', f, w, 'CRASH_PARTIAL', 5, 0, arg=rng.below(400))]
        elif kind == 'step': h['set'] = {'crashStep': rng.rng(r.s['steps'] // 20, r.s['steps']) // (1 if k == 0 else 2)}
        elif kind == 'open': h['rules'] = [rule(rng.choice(['OPEN_W', 'OPEN_R', 'TRUNC']), 'ch.*', rng.rng(1, 2 * n), 'CRASH', 5, 0)]
        elif kind == 'disk': h['rules'] = [rule('WRITE', f, w, 'SHORT_ERR', 28, 0, arg=rng.below(400))]
        elif kind == 'sigint': h['set'] = {'sigStep': rng.rng(r.s['steps'] // 20, r.s['steps']) // (1 if k == 0 else 2)}
        kills.append(h); lens.append(L if rng.chance(0.6) else rng.rng(2, L + 10))
    lens.append(L + rng.rng(0, 12) if rng.chance(0.5) else L)
    seeds = [rng.rng(1, 99999) for _ in lens] if rng.chance(0.5) else None
    p0 = sc['scene']
    return {'ref': s, 'kills': kills, 'lens': lens, 'seeds': seeds, 'chains': chains, 'exact': exact, 'tags': sc['tags']}


def setarg(a, opt, v): k = a.index(opt); a[k + 1] = str(v)


def records(b):
    rows, tail = data_rows(b)
    return rows


def complete(b): return b[:b.rfind(b'\n') + 1]


def columns(text):
    """number of parameters, from the column-header comment; the other columns are fixed in number"""
    h = [l for l in text.decode('latin1').split('\n') if l.startswith('#') and ' likelihood' in l and 'burn-in' in l]
    if not h: return None
    w = h[0].lstrip('#').split()
    return w.index('likelihood'), len(w)


def explained(prev, new, i, free, tol):
    """is the move of chain i to `new` a DREAM proposal (without random offsets) from the states `prev` of the previous generation?"""
    n = len(prev); ch = [j for j in free if abs(new[j] - prev[i][j]) > tol[j]]
    if not ch: return True
    maxd = max(1, (len(free) - 1) // 2)
    if n ** (2 * maxd) > 70000: maxd_full = False
    pairs = [[prev[a][j] - prev[b][j] for j in ch] for a in range(n) for b in range(n) if a != b and a != i and b != i] + [[0.0] * len(ch)]
    step = [new[j] - prev[i][j] for j in ch]; t = [10 * tol[j] for j in ch]
    for d in range(1, maxd + 1):
        if d > 1 and math.comb(len(pairs) + d - 1, d) > 6000: return None
        gs = [1.0] + [2.38 / math.sqrt(2.0 * u * d) for u in range(len(ch), len(free) + 1)]
        for cb in combinations_with_replacement(range(len(pairs)), d):
            D = [sum(pairs[q][k] for q in cb) for k in range(len(ch))]
            for g in gs:
                if all(abs(step[k] - g * D[k]) <= t[k] for k in range(len(ch))): return True
    return False


def execute(c, ctx):
    o = Outcome(); files = {}; chains = c['chains']; n = len(chains); info = []
    for t in c['tags']: o.probe(t)
    steps = None
    for k, L in enumerate(c['lens']):
        kill = c['kills'][k] if k < len(c['kills']) else {'kind': 'none', 'set': {}, 'rules': []}
        last = k == len(c['lens']) - 1
        s = dict(c['ref'], rw=dict(files), rules=kill['rules'], args=list(c['ref']['args'])); s['set'] = dict(s['set'], **kill['set'])
        setarg(s['args'], '--max-chain-length', L)
        if c['seeds']: setarg(s['args'], '--seed', c['seeds'][k])
        if k: s['args'].append('--append')
        r = ctx.run(s)
        what = 'process %d of %d (%s, length %d, %s %s): %s' % (k + 1, len(c['lens']), 'append' if k else 'fresh', L, kill['kind'], [(x['op'], x['glob'], x['nth'], x['arg']) for x in kill['rules']] or kill['set'], r.how)
        if r.kind in (4, 6, 20): o.bad('hang', 'no progress (%s); %s' % (r.note, what)); return o
        killed = r.kind == 10 or r.kind == 3 or kill['kind'] != 'none' and (r.kind == 2 and 'crash' in r.how or r.how.startswith('crash'))
        after = {f: r.files[f] for f in chains if f in r.files}
        if r.kind == 10: o.bad('crash', '%s; %s' % (r.note, what)); return o
        info.append(kill['kind'])
        if k:
            missing = [f for f in chains if f not in files]; before = {f: records(files[f]) for f in chains if f in files}
            common = min(len(before[f]) for f in before) if not missing and before else 0
            state = 'missing' if missing else 'norecord' if not common else 'torn' if any(complete(files[f]) != files[f] for f in chains) else 'unequal' if len(set(len(before[f]) for f in chains)) > 1 else 'equal'
            o.probe('resumed from: ' + state); info.append(state)
            for f in files:
                if not after.get(f, b'').startswith(complete(files[f])):
                    o.bad('history-lost', 'the complete lines of %s before the restart are not a prefix of the file after it: %d records before, %d after; %s' % (f, len(before[f]), len(records(after.get(f, b''))), what)); return o
            if not common:
                if r.kind == 1 and r.code == 0: pass
                elif r.kind == 1 and any(after.get(f) != files[f] for f in files): o.bad('touched', 'the restart was refused but files were changed; %s' % what); return o
                if r.kind == 1 and r.code != 0: o.key(len(c['lens']), ' '.join(info), n); return o
        rec = {f: records(after[f]) for f in after}
        # every record complete and well-formed
        for f in after:
            cl = columns(after[f])
            if not cl:
                if rec[f]: o.bad('noheader', '%s has records but no column header; %s' % (f, what)); return o
                continue
            for g, l in enumerate(rec[f]):
                w = l.split()
                ok = len(w) == cl[1]
                if ok:
                    try: [float(x) for x in w]
                    except ValueError: ok = False
                if not ok: o.bad('mangled', 'record %d of %s is not a record: %r; %s' % (g, f, l[:300], what)); return o
        done = r.kind == 1 and r.code == 0
        if kill['kind'] == 'none' and not done: o.bad('failed', 'the run did not complete: %s %s; %s' % (r.how, r.err.decode('latin1')[-300:], what)); return o
        if done:
            lens = [len(rec.get(f, [])) for f in chains]; conv = b'Convergence detected' in r.out
            b0 = max([len(records(files[f])) for f in files] or [0]) if k else 0
            if len(set(lens)) != 1 and b0 <= L: o.bad('unequal', 'the chains end with %s records; %s' % (lens, what)); return o
            if not conv and b0 <= L and lens[0] != L: o.bad('length', 'the chains end with %d records instead of %d; %s' % (lens[0], L, what)); return o
            if conv: o.probe('converged')
        # moves recorded by this process start from the previous recorded generation
        if len(rec) == n and all(columns(after[f]) for f in chains):
            npar = columns(after[chains[0]])[0]
            val = [[[float(x) for x in l.split()] for l in rec[f]] for f in chains]; txt = [[l.split() for l in rec[f]] for f in chains]
            start = [len(records(files.get(f, b''))) for f in chains] if k else [0] * n
            allv = [v[:npar] for ch in val for v in ch]
            free = [j for j in range(npar) if len(set(v[j] for v in allv)) > 1]
            scale = [max(abs(v[j]) for v in allv) for j in range(npar)] if allv else []
            tol = [4e-9 * max(x, 1e-6) for x in scale]
            # scale by the digits of the file (10 significant digits)
            for i in range(n):
                for g in range(max(start[i], 1), len(val[i])):
                    if any(g - 1 >= len(val[b]) for b in range(n)): continue
                    prev = [val[b][g - 1][:npar] for b in range(n)]; new = val[i][g][:npar]
                    copied = any(g < len(val[b]) and b != i and val[b][g][:npar + 1] == val[i][g][:npar + 1] for b in range(n))
                    if copied: o.probe('record equal to another chain'); continue
                    if txt[i][g][-1] == '0':
                        la, lb = val[i][g - 1][npar], val[i][g][npar]
                        # (a process which resumes re-evaluates from the digits in the file)
                        if txt[i][g][:npar] == txt[i][g - 1][:npar] and math.isfinite(la) and not abs(la - lb) <= (1e-6 if k else 1e-9) * (1 + abs(la)):
                            from props import P08
                            st = P08.likelihood(c, ctx, txt[i][g], npar, [j not in free for j in range(npar)], Rng('pick', k, i, g), o) if k else 0.0
                            if st is not None:
                                o.bad('likelihood-jump', 'record %d of %s is marked "not accepted" and has the parameters of record %d, but likelihood %s instead of %s; %s' % (g, chains[i], g - 1, txt[i][g][npar], txt[i][g - 1][npar], what)); return o
                            o.probe('likelihood re-evaluated after the restart')
                        if txt[i][g][:npar] != txt[i][g - 1][:npar]:
                            o.bad('discontinuity', 'record %d of %s is marked "not accepted" but differs from record %d: %s -> %s; %s' % (g, chains[i], g - 1, txt[i][g - 1][:npar], txt[i][g][:npar], what)); return o
                    elif c['exact'] and g < max(start[i], 1) + (4 if k else 2):
                        e = explained(prev, new, i, free, tol)
                        if e is None: o.probe('move not checked (too many combinations)')
                        elif not e:
                            o.bad('unexplained-move', 'record %d of %s is not a DREAM move from the recorded states of generation %d: %s -> %s (all chains: %s); %s' % (g, chains[i], g - 1, val[i][g - 1][:npar], new, prev, what)); return o
                        else: o.probe('move verified')
        files = after
    o.key(len(c['lens']), ' '.join(info), n, 'section' in c['tags'])
    return o


def shrink(c):
    for k in range(len(c['kills'])):
        d = dict(c, kills=c['kills'][:k] + c['kills'][k + 1:], lens=c['lens'][:k] + c['lens'][k + 1:], seeds=c['seeds'] and c['seeds'][:k] + c['seeds'][k + 1:]); yield d
    for k in range(len(c['kills'])):
        if c['kills'][k]['kind'] != 'none': yield dict(c, kills=c['kills'][:k] + [{'kind': 'none', 'set': {}, 'rules': []}] + c['kills'][k + 1:])
