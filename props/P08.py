"""P08: every MCMC chain record is a valid accepted state with its own likelihood."""
import math, re
from frame import Outcome
from scenes import *
from props.P07 import columns, explained
ID = 'P08'
COUNT = {'quick': 700, 'thorough': 12000}
PROGS = ['imfit-mcmc', 'imfit']
RULE = ('Each case is a random MCMC problem (3-5 chains, all statistics, masks, noise maps, PSFs, image sections, fixed parameters, parameters on narrow limits) run under a seeded thread schedule with 1-4 threads to its end (length or convergence) or until '
        'killed at a seeded point. Every record is checked for shape, limits, fixed values and continuity; a sample of records is re-evaluated by separate imfit --fitstat-only runs. Distinct = (feature set, threads, schedule kind, stopping reason, chains).')
ASSUMPTIONS = ['Likelihoods are re-evaluated by imfit itself from the recorded parameters (10 significant digits), tolerance 5e-6 relative.',
               'Every tenth generation DREAM may replace an outlier chain by a copy of the best one; a record equal to another chain\'s record is accepted as that.',
               'The generation at which convergence is detected is not recorded by the program; counts are therefore checked against the number of generations before it.']
STEPS = 2 * 10**8


def describe(c): return 'imfit-mcmc %s; %s' % (' '.join(map(str, c['ref']['args'])), c['ref']['set'])


def make(rng, i, tier, ctx):
    narrow = rng.chance(0.25)
    sc = bimodal_scene(rng, length=rng.choice([None, None, 300])) if rng.chance(0.2) else mcmc_scene(rng, length=rng.rng(6, 45)); a = sc['args']
    if 'bimodal' in sc['tags']: narrow = False
    if narrow:        # proposals often leave the limits
        t = sc['files']['cfg.dat'].decode().split('\n')
        for k, l in enumerate(t):
            w = l.split()
            if len(w) == 3 and ',' in w[2]:
                lo, hi = map(float, w[2].split(',')); v = float(w[1]); t[k] = '%s   %s   %.6g,%.6g' % (w[0], w[1], v - (v - lo) * 0.04, v + (hi - v) * 0.04)
        sc['files']['cfg.dat'] = '\n'.join(t).encode(); sc['tags'].append('narrow')
    th = 1 if 'bimodal' in sc['tags'] else rng.choice([1, 1, 2, 3, 4]); a[a.index('--max-threads') + 1] = str(th)
    kw = dict(heapFill=rng.choice([1, 2, 3]), seedHeap=rng.below(1 << 30), cores=rng.rng(1, 8), stepLimit=STEPS)
    if th > 1: kw.update(schedMode=rng.choice([1, 2, 3, 5]), schedP=rng.choice([1, 5, 30]), seedSched=rng.below(1 << 40), accLimit=2 * 10**7)
    exact = rng.chance(0.5)
    if exact: a += ['--uniform-offset', '0', '--gaussian-offset', '0']
    if rng.chance(0.3): a[a.index('--gelman-evals') + 1] = '10'; a += ['--gelman-rubin-limit', rng.choice(['1.2', '3', '50'])]; a[a.index('--burnin-length') + 1] = str(rng.rng(2, 12))
    if rng.chance(0.6): a += ['--loud']; sc['tags'].append('loud')
    s = spec(sc['prog'], a, sc['files'], **kw); kill = None
    if rng.chance(0.25):
        kill = rng.choice(['step', 'write'])
        r = ctx.run(s)
        if not r.ok: return None
        if kill == 'step': s['set']['crashStep'] = rng.rng(r.s['steps'] // 4, r.s['steps'])
        else: s['rules'] = [rule('WRITE', rng.choice(sorted(sc['outs'])), rng.rng(1, 30), rng.choice(['CRASH', 'CRASH_PARTIAL']), 5, 0, arg=rng.below(300))]
    return {'ref': s, 'chains': ['ch.%d.txt' % (k + 1) for k in range(sc['nchains'])], 'tags': sc['tags'], 'kill': kill, 'exact': exact, 'nsample': 4 if tier == 'quick' else 12, 'pick': rng.u64()}


def evaluation(c, vals):
    """imfit --fitstat-only at the given parameter values"""
    t = c['ref']['files']['cfg.dat'].decode().split('\n'); k = 0; started = False; out = []
    for l in t:
        w = l.split()
        if w and w[0] == 'X0': started = True
        if not started or not w or w[0] == 'FUNCTION' or l.startswith('#'): out.append(l); continue
        out.append('%s   %s' % (w[0], vals[k])); k += 1
    if k != len(vals): raise RuntimeError('harness: %d parameters in the configuration, %d in the record' % (k, len(vals)))
    a = c['ref']['args']; args = []; skip = 0
    for x in a:
        if skip: skip -= 1; continue
        if x in ('-o', '--nchains', '--max-chain-length', '--burnin-length', '--gelman-evals', '--uniform-offset', '--gaussian-offset', '--gelman-rubin-limit', '--max-threads'): skip = 1; continue
        if x == '--loud': continue
        args.append(x)
    return spec('imfit', args + ['--nm', '--fitstat-only', '--max-threads', '1'], dict(c['ref']['files'], **{'cfg.dat': '\n'.join(out).encode()}), heapFill=1, stepLimit=STEPS)


def likelihood(c, ctx, words, npar, fixed, pick, o):
    """None if the likelihood of a record is that of the model at its parameters, otherwise the statistic at those parameters"""
    e = ctx.run(evaluation(c, words[:npar])); st = stat_from_stdout(e.out) if e.ok else None; lik = float(words[npar])
    if st is None: o.probe('statistic not available'); return None
    tol = 5e-6 * abs(st) + 1e-4
    if not (abs(-0.5 * st - lik) <= tol):      # is the statistic ill-conditioned at the precision of the file (e.g. logarithms of FFT noise)?
        for q in range(4):
            pv = ['%.10g' % (float(x) * (1 + pick.uni(-3e-10, 3e-10))) if not fixed[j] else x for j, x in enumerate(words[:npar])]
            e2 = ctx.run(evaluation(c, pv)); st2 = stat_from_stdout(e2.out) if e2.ok else None
            if st2 is not None: tol = max(tol, 20 * abs(st2 - st))
        o.probe('conditioning examined')
    if not (abs(-0.5 * st - lik) <= tol) and not (st != st and lik != lik) and not (abs(st) == float('inf')): return st
    o.probe('likelihood verified')
    return None


def constraints(c):
    out = []; started = False
    for l in c['ref']['files']['cfg.dat'].decode().split('\n'):
        w = l.split()
        if w and w[0] == 'X0': started = True
        if not started or not w or w[0] == 'FUNCTION' or l.startswith('#'): continue
        lim = w[2] if len(w) > 2 else ''
        out.append((w[0], float(w[1]), lim == 'fixed', tuple(map(float, lim.split(','))) if ',' in lim else None))
    return out


def decisions(c, o, r, rec, val, npar, lens, L):
    """the reported proposals (--loud): accepted as the Metropolis rule says, and recorded as reported"""
    n = len(rec); count = [0] * n; gen = 1; i = 0; num = den = 0.0; k = 0
    for l in r.out.decode('latin1').split('\n'):
        m = re.match(r'^(\d+) (\S+) <- ([01])\|(\d+) -> (\S+)$', l)
        if not m: continue
        t, acc = int(m.group(1)), int(m.group(3))
        try: old, new = float(m.group(2)), float(m.group(5))
        except ValueError: continue
        if t != gen or i >= n: gen, i = t, 0
        b, i = i, i + 1; k += 1
        if i == n: gen, i = t + 1, 0
        if new > old and not acc: o.bad('rejected-better', 'generation %d of chain %d: a proposal with likelihood %s was rejected from a state with %s' % (t, b + 1, m.group(5), m.group(2))); return
        if acc and not new >= old - 38 - 1e-5 * abs(old): o.bad('accepted-worse', 'generation %d of chain %d: a proposal with likelihood %s was accepted from a state with %s' % (t, b + 1, m.group(5), m.group(2))); return
        if new < old and abs(old) < 2e3 and abs(new) < 1e4:      # six digits are printed
            p = math.exp(new - old); num += acc - p; den += p * (1 - p)
        if t < lens[b]:
            w, v = rec[b][t], val[b][t]
            copied = t % 10 == 0 and any(q != b and t < lens[q] and rec[q][t][:npar + 1] == w[:npar + 1] for q in range(n))
            if int(w[-1]) != acc: o.bad('flag', 'record %d of chain %d has accept flag %s, the run reported %d' % (t, b + 1, w[-1], acc)); return
            if not copied:
                want = new if acc else old
                if not (abs(v[npar] - want) <= 1.1e-5 * abs(want) + 1e-9 or want != want): o.bad('other-state', 'record %d of chain %d has likelihood %s; the proposal with %s was %s (state before: %s)' % (t, b + 1, w[npar], m.group(5), 'accepted' if acc else 'rejected', m.group(2))); return
    if k: o.probe('acceptance decisions checked', k)
    if den > 4:
        o.probe('acceptance rate checked')
        if abs(num) > 6.5 * math.sqrt(den): o.bad('acceptance', 'the number of accepted worse proposals differs by %.1f from its expectation under the Metropolis rule (standard deviation %.1f)' % (num, math.sqrt(den)))


def convergence(c, o, r, val, cons, npar, lens, L, conv):
    """the convergence statistics on which the run decides to stop are those of the recorded chains"""
    n = len(val); out = r.out.decode('latin1'); limit = float(c['ref']['args'][c['ref']['args'].index('--gelman-rubin-limit') + 1]) if '--gelman-rubin-limit' in c['ref']['args'] else 1.01
    burn = int(c['ref']['args'][c['ref']['args'].index('--burnin-length') + 1]); first = burn
    free = [j for j in range(npar) if not cons[j][2]]; last = None
    for l in out.split('\n'):
        m = re.match(r'^\[(\d+)\] Outlier chain detected .* re-entering', l)
        if m: first = int(m.group(1)) + burn
        m = re.match(r'^\[(\d+)\] performing convergence diagnostics: GR \(it \d+\): (.*)$', l)
        if not m: continue
        t = int(m.group(1)); R = dict((int(a), float(b)) for a, b in re.findall(r'\[(\d+)\](\S+)', m.group(2))); last = R
        if sorted(R) != free: o.bad('convergence-parameters', 'the convergence test of generation %d reports parameters %s, the free ones are %s' % (t, sorted(R), free)); return
        t0 = (t + first) // 2; k = t - t0 - 1
        if k < 3 or min(lens) < t0 + k: continue
        for j in free:
            ch = [[val[b][g][j] for g in range(t0, t0 + k)] for b in range(n)]; mean = [sum(x) / k for x in ch]; var = [sum((y - mean[b]) ** 2 for y in x) / (k - 1) for b, x in enumerate(ch)]
            W = sum(var) / n; mm = sum(mean) / n; B = sum((x - mm) ** 2 for x in mean) / (n - 1); size = max(abs(x) for x in mean) + 1e-9
            if W < (1e-6 * size) ** 2: o.probe('convergence statistic not checked (no spread)'); continue
            V = (k - 1.0) / k * W + B + B / n; want = math.sqrt(V / W)
            if not abs(R[j] - want) <= 2e-3 * want + 2e-5: o.bad('convergence-statistic', 'generation %d: the reported convergence statistic of parameter %d is %.5f, that of the recorded chains is %.5f' % (t, j, R[j], want)); return
            o.probe('convergence statistic checked')
    if last and conv and any(x > limit + 2e-5 for x in last.values()): o.bad('not-converged', 'the run stopped with "Convergence detected" but the statistics are %s (limit %g)' % (last, limit))
    if conv and not last: o.bad('not-converged', 'convergence reported without a convergence test')


def execute(c, ctx):
    o = Outcome(); r = ctx.run(c['ref']); chains = c['chains']; n = len(chains)
    for t in c['tags']: o.probe(t)
    conv = b'Convergence detected' in r.out
    done = r.kind == 1 and r.code == 0
    if not done and not c['kill']:
        if r.kind == 4: o.probe('skipped: too long'); return o
        if r.kind == 1 and b'Start of MCMC' not in r.out and b'Cash statistic' not in r.err: o.probe('refused set-up'); return o
        o.bad('failed', 'the run did not complete: %s %s %s' % (r.how, r.note, r.err.decode('latin1')[-300:])); return o
    stop = 'converged' if conv else 'length' if done else 'killed'
    o.probe('stopped by: ' + stop); o.key(' '.join(sorted(set(c['tags']))), c['ref']['set'].get('schedMode', 0), r.s['maxTeam'], stop, n)
    cons = constraints(c); npar = len(cons); rec = []; tails = []
    for f in chains:
        rows, tail = data_rows(r.files.get(f, b'')); rec.append([l.split() for l in rows]); tails.append(tail)
        h = columns(r.files.get(f, b''))
        if rows and (not h or h[0] != npar): o.bad('header', '%s: column header names %s parameters, the model has %d' % (f, h and h[0], npar)); return o
        for g, w in enumerate(rec[-1]):
            try:
                v = [float(x) for x in w]
                if len(v) != h[1]: raise ValueError
            except ValueError: o.bad('shape', 'record %d of %s is not %d numbers: %r' % (g, f, h[1], w)); return o
    lens = [len(x) for x in rec]; L = int(c['ref']['args'][c['ref']['args'].index('--max-chain-length') + 1])
    if done:
        if len(set(lens)) != 1: o.bad('count', 'the chains hold %s records' % lens); return o
        if any(tails): o.bad('count', 'incomplete last record: %r' % tails); return o
        if not conv and lens[0] != L: o.bad('count', '%d records per chain after %d generations' % (lens[0], L)); return o
        if conv:
            t = [int(x) for x in re.findall(r'\[(\d+)\] performing convergence', r.out.decode('latin1'))]
            if lens[0] > L or t and lens[0] not in (t[-1], t[-1] + 1): o.bad('count', '%d records per chain, convergence detected at generation %s' % (lens[0], t[-1:])); return o
    elif lens != sorted(lens, reverse=True) or lens[0] - lens[-1] > 1: o.bad('count', 'a killed run left %s records in the chains (written in order, once per generation)' % lens); return o
    val = [[[float(x) for x in w] for w in ch] for ch in rec]
    allv = [v[:npar] for ch in val for v in ch]; scale = [max([abs(v[j]) for v in allv] + [1e-6]) for j in range(npar)]
    free = [j for j in range(npar) if not cons[j][2]]
    for i in range(n):
        for g in range(lens[i]):
            w, v = rec[i][g], val[i][g]
            for j, (name, start, fixed, lim) in enumerate(cons):
                eps = 2e-9 * scale[j]
                if fixed and abs(v[j] - start) > eps: o.bad('fixed', 'record %d of %s: fixed parameter %s is %s instead of %s' % (g, chains[i], name, w[j], start)); return o
                if not fixed and lim and not (lim[0] - eps <= v[j] <= lim[1] + eps): o.bad('limits', 'record %d of %s: %s = %s is outside its limits %s' % (g, chains[i], name, w[j], lim)); return o
            if w[-1] not in ('0', '1') or w[npar + 1] not in ('0', '1'): o.bad('flags', 'record %d of %s has accept flag %s, burn-in flag %s' % (g, chains[i], w[-1], w[npar + 1])); return o
            cr = v[npar + 2:-1]
            if not all(0 <= x <= 1 for x in cr) or abs(sum(cr) - 1) > 1e-6: o.bad('crossover', 'record %d of %s: crossover probabilities %s' % (g, chains[i], cr)); return o
            if g:
                copied = g % 10 == 0 and any(b != i and (g >= lens[b] or rec[b][g][:npar + 1] == w[:npar + 1]) for b in range(n))       # (a record which the kill prevented can't be compared)
                if w[-1] == '0' and not copied and w[:npar + 1] != rec[i][g - 1][:npar + 1]:
                    # in burn-in the likelihood of an unchanged state is evaluated afresh, so its last digits may differ between schedules
                    p = val[i][g - 1]
                    if w[:npar] != rec[i][g - 1][:npar] or abs(v[npar] - p[npar]) > 1e-9 * abs(p[npar]) + 1e-9:
                        o.bad('moved', 'record %d of %s is marked "not accepted" but differs from the record before it: %s -> %s' % (g, chains[i], rec[i][g - 1][:npar + 1], w[:npar + 1])); return o
                elif w[-1] == '1' and not copied and c['exact'] and g < 12 and all(g - 1 < x for x in lens):
                    e = explained([val[b][g - 1][:npar] for b in range(n)], v[:npar], i, free, [4e-9 * x for x in scale])
                    if e is False: o.bad('unexplained-move', 'record %d of %s is not a DREAM move from the states recorded for the previous generation: %s -> %s' % (g, chains[i], val[i][g - 1][:npar], v[:npar])); return o
                    o.probe('move verified' if e else 'move not checked (too many combinations)')
    decisions(c, o, r, rec, val, npar, lens, L)
    if o.v: return o
    convergence(c, o, r, val, cons, npar, lens, L, conv)
    if o.v: return o
    # likelihoods
    cand = [(i, g) for i in range(n) for g in range(lens[i]) if g == 0 or rec[i][g][:npar] != rec[i][g - 1][:npar]] + [(i, lens[i] - 1) for i in range(n) if lens[i]]
    pick = Rng('pick', c['pick'])
    # states moved to that of the best chain (outliers) are looked at first
    copies = [(i, g) for i in range(n) for g in range(10, lens[i], 10) if rec[i][g][:npar] != rec[i][g - 1][:npar] and any(b != i and g < lens[b] and rec[b][g][:npar] == rec[i][g][:npar] for b in range(n))]
    if copies: o.probe('outlier moved')
    todo = [pick.choice(copies) for _ in range(min(2, len(copies)))]
    for k in range(min(c['nsample'], len(cand))):
        i, g = todo[k] if k < len(todo) else pick.choice(cand); st = likelihood(c, ctx, rec[i][g], npar, [x[2] for x in cons], pick, o)
        if st is not None: o.bad('likelihood', 'record %d of %s has likelihood %s but the model gives %.9g at those parameters (%s)' % (g, chains[i], rec[i][g][npar], -0.5 * st, ' '.join(rec[i][g][:npar]))); return o
    return o


def shrink(c):
    s = c['ref']
    if 'schedMode' in s['set']:
        d = dict(s, set={k: v for k, v in s['set'].items() if k not in ('schedMode', 'schedP', 'seedSched')}, args=list(s['args'])); d['args'][d['args'].index('--max-threads') + 1] = '1'; yield dict(c, ref=d)
    k = s['args'].index('--max-chain-length') + 1; L = int(s['args'][k])
    for m in (L // 2, L - 5, L - 1):
        if 2 <= m < L: a = list(s['args']); a[k] = str(m); yield dict(c, ref=dict(s, args=a))
