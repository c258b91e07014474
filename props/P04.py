"""P04: interrupting a fit stops it promptly and leaves a valid, labelled result."""
import re, math, time
from frame import Outcome
from scenes import *
from multi import add_sections
from props.P12 import plainargs, restart, ulp, edit, listed, evaluate, multi_limits, info
ID = 'P04'
COUNT = {'quick': 420, 'thorough': 6000}
PROGS = ['imfit', 'multimfit']
RULE = ('Each case is a random fitting problem (imfit with each of its ten solvers and every statistic, multimfit with 2-3 images; masks, noise maps, PSFs, sections, fixed and limited parameters, start on/within limits) in which SIGINT is delivered at 3 seeded points '
        'between the installation of the handler and the end of the fit (any function entry of the whole program, also while worker threads run; sometimes twice), with output files of an earlier fit in place. The rest of the run is measured in simulated steps, the files and parameters it leaves are checked. '
        'Distinct = (program, solver, features, interrupt phase, threads, outcome).')
ASSUMPTIONS = ['Work is measured in function entries of the compiled program; one evaluation of the statistic costs what the uninterrupted fit needed on average.',
               'Differential evolution ignores the starting values and is exempt from the comparison with them.']
STEPS = 6 * 10**7
OLD = b'# results of an earlier fit\n'
SOLV = ['lm', 'nm', 'BOBYQA', 'lm', 'COBYLA', 'NEWUOA', 'NM', 'PRAXIS', 'lm', 'SBPLX', 'de', 'nm', 'de-lhs', 'lm']


def describe(c): return '%s %s; SIGINT at steps %s of %d..%d; %s' % (c['ref']['prog'], ' '.join(map(str, c['ref']['args'])), c['sig'], c['lo'], c['hi'], c['ref']['set'])


def make(rng, i, tier, ctx):
    if i % 5 == 4:
        sc = multimfit_scene(rng, boot=False); P = None; sol = 'nm' if 'nm' in sc['tags'] else 'lm'
        if rng.chance(0.3): add_sections(rng, sc)
    else:
        sol = SOLV[(i // 5 * 4 + i % 5) % len(SOLV)]; sc = imfit_scene(rng, solver=sol, boot=False); P = sc['scene']['P']
        start = rng.choice(['near', 'near', 'anywhere', 'limits'])
        if start != 'near': sc['files']['cfg.dat'] = restart(rng, sc['files']['cfg.dat'], P, start)
    a = sc['args']; th = rng.choice([1, 1, 1, 2, 4]); a[a.index('--max-threads') + 1] = str(th)
    kw = dict(heapFill=rng.choice([1, 2, 3]), seedHeap=rng.below(1 << 30), cores=rng.rng(1, 8), stepLimit=STEPS)
    if th > 1: kw.update(schedMode=rng.choice([0, 1, 2, 3, 5]), schedP=rng.choice([20, 200, 2000]), seedSched=rng.below(1 << 40), accLimit=4 * STEPS)
    s = spec(sc['prog'], a, sc['files'], **kw)
    t0 = time.time(); r = ctx.run(s)
    if not r.ok or time.time() - t0 > 2: return None
    f = ctx.run(spec(sc['prog'], plainargs(a) + ['--nm', '--fitstat-only', '--max-threads', '1'], sc['files'], heapFill=1, stepLimit=STEPS))
    m = re.search(r'NFEV = (\d+)', r.out.decode('latin1')) or re.search(r'(\d+) function evaluations', r.out.decode('latin1'))
    if not f.ok or not m: return None
    lo, hi, nfev = r.s['sigSetStep'], r.s['steps'], max(1, int(m.group(1)))
    if not 0 < lo < hi: return None
    span = hi - lo; sig = []
    for _ in range(3):
        w = rng.below(6)
        sig.append(lo + 1 + (rng.below(max(1, min(span, 400))) if w == 0 else rng.below(max(1, span // 20)) if w == 1 else rng.below(span)))
    c = dict(ref=s, outs=sc['outs'], P=P, sol=sol, tags=sc['tags'], lo=lo, hi=hi, nfev=nfev, fs=f.s['steps'], init=stat_from_stdout(f.out), dims=sc.get('dims'), old=rng.chance(0.6), sig=sorted(sig), second=rng.chance(0.2) and rng.rng(1, 3000), boot=0, reps=None)
    if P is not None and rng.chance(0.35) and not ({'over', 'psf'} & set(sc['tags'])):
        c['boot'] = rng.rng(2, 5); r = ctx.run(variant(c, 0))
        if not r.ok or r.s['steps'] > STEPS // 2 or not present(r, c, 'boot.txt'): c['boot'] = 0
        else:
            # interrupts after the fit itself has finished: while resampling, or while the output is written
            end = r.s['steps']
            c['sig'] = c['sig'][:2] + [hi + 1 + rng.below(max(1, end - hi)) for _ in range(2)]; c['rows'] = rows(r.files['boot.txt']); c['end'] = end
    return c


def rows(b): return [l for l in b.decode('latin1').splitlines() if l.strip() and not l.startswith('#')]


def best_files(c):
    if c['ref']['prog'] == 'imfit': return [k for k, v in c['outs'].items() if v == 'params']
    return [k for k, v in c['outs'].items() if v == 'params']


def variant(c, step):
    s = dict(c['ref'], set=dict(c['ref']['set']), files=dict(c['ref']['files']), args=list(c['ref']['args']), rw=dict(c['ref']['rw']))
    if step: s['set']['sigStep'] = step
    if step and c['second']: s['set']['sigStep2'] = step + c['second']
    if c['boot']: s['args'] += ['--bootstrap', str(c['boot']), '--save-bootstrap', 'boot.txt']
    if c['old']:
        for f in best_files(c): s['rw'][f] = OLD
        for f in c['outs']:
            if f.endswith('.fits'): s['rw'][f] = OLD
        if c['boot']: s['rw']['boot.txt'] = OLD
    return s


def present(r, c, f):
    """was the output written by this run?"""
    if f not in r.files: return False
    return not (c['old'] and r.files[f] == OLD)


def execute(c, ctx):
    o = Outcome()
    for t in c['tags']: o.probe(t)
    for step in c['sig']:
        one(o, c, ctx, step)
        if o.v: return o
    return o


def one(o, c, ctx, step):
    s = variant(c, step); prog = s['prog']; r = ctx.run(s); sol = c['sol']; err = r.err.decode('latin1')[-300:]
    if r.kind == 3 and not r.s['sigSetStep']: o.probe('interrupted before the handler was installed'); return
    if r.kind == 3: o.bad('killed:' + prog, 'interrupted at step %d (fit begun at %d), the program was killed; files %s' % (step, r.s['sigSetStep'], sorted(k for k in r.files if present(r, c, k)))); return
    if r.kind == 4 and r.s['sigDelivered'] and r.s['steps'] - r.s['sigStep'] < STEPS // 4: o.probe('skipped: too long'); return
    if not r.s['sigDelivered'] and r.kind == 1: o.probe('run ended before the interrupt'); return
    if r.kind != 1: o.bad('ended:' + sol, 'interrupted at step %d, the run ended with %s %s %s' % (step, r.how, r.note, err)); return
    after = r.s['steps'] - r.s['sigStep']; e = max(1.0, (c['hi'] - c['fs']) / c['nfev']); nf = len(c['P']) if c['P'] else len(listed(s['files']['cfg.dat'].decode())) + len(listed(s['files']['info.dat'].decode()))
    evals = {'lm': 3 * (nf + 1) + 30, 'de': 20 * nf + 60, 'de-lhs': 20 * nf + 60}.get(sol, 12 + nf); bound = evals * e * (2.5 if sol[:2] == 'de' else 1.5) + 2 * c['fs']
    if prog == 'multimfit': bound += c['fs']
    inter = [k for k in r.files if k.startswith('current_parameters') and k.endswith('.dat')]; normal = [f for f in best_files(c) if present(r, c, f)]
    phase = (step - c['lo']) * 4 // max(1, c['hi'] - c['lo'])
    remaining = c['hi'] - r.s['sigStep']
    o.probe('bound decisive' if remaining > 1.5 * bound else 'little was left to do')
    o.key(prog, sol, ' '.join(sorted(set(c['tags']))), phase, r.s['maxTeam'], bool(inter), c['boot'] > 0, c['old'])
    if r.code: o.bad('failure-status:' + sol, 'interrupted at step %d: exit status %d %s' % (step, r.code, err)); return
    fit_over = not inter and bool(normal)
    if inter and normal: o.bad('both:' + prog, 'interrupted fit wrote %s as well as %s' % (inter, normal)); return
    if not inter and not normal: o.bad('nothing:' + prog, 'interrupted at step %d of %d..%d, no parameters were written' % (step, c['lo'], c['hi'])); return
    if fit_over and c['boot'] and b'Now doing bootstrap' in r.out: return resampling(o, c, ctx, step, r, normal, after, bound)
    if after > bound and remaining > bound and not (fit_over and remaining < 2 * bound): o.bad('slow:' + sol, 'interrupted at step %d of %d..%d, the run went on for %d steps; %d evaluations need %d' % (step, c['lo'], c['hi'], after, evals, bound)); return
    if fit_over:
        if remaining > bound + 2 * c['fs'] + 0.2 * (c['hi'] - c['lo']): o.bad('unlabelled:' + prog, 'interrupted at step %d of %d..%d, the result is saved as that of a completed fit (%s)' % (step, c['lo'], c['hi'], normal)); return
        o.probe('interrupted after the fit'); return
    o.probe('interrupted fit, ' + sol)
    # interrupted fit: nothing that belongs to a completed one
    extra = sorted(f for f in list(c['outs']) + ['boot.txt'] if present(r, c, f))
    if extra: o.bad('images:' + prog, 'interrupted fit wrote %s' % extra); return
    if b'Now doing bootstrap' in r.out: o.bad('bootstrap', 'an interrupted fit was followed by bootstrap resampling'); return
    pf = [k for k in inter if k.endswith('_summary.dat')] or inter
    pl, hdr = parse_params(r.files[pf[0]])
    if pl is None or 'Best-fit value' not in hdr: o.bad('shape', 'malformed %s' % pf[0]); return
    fst = float(hdr['Best-fit value']); V = values(pl)
    if prog == 'imfit':
        if [n for n, _ in V] != [p['name'] for p in c['P']]: o.bad('shape', 'parameters %s in the file, %s in the configuration' % ([n for n, _ in V], [p['name'] for p in c['P']])); return
        for (n, v), p in zip(V, c['P']):
            q = ulp(v, n) * 1.02
            if v != v or abs(v) == math.inf: o.bad('nan:' + sol, '%s = %g' % (n, v)); return
            if p['mode'] == 'fixed' and abs(v - p['v']) > q: o.bad('fixed:' + sol, 'fixed parameter %s = %g became %g' % (n, p['v'], v)); return
            if p['mode'] in ('lim', 'onlim') and not p['lo'] - q <= v <= p['hi'] + q: o.bad('limits:' + sol, '%s = %g is outside its limits %g,%g' % (n, v, p['lo'], p['hi'])); return
        back = {'cfg.dat': '\n'.join(cfghead(s['files']['cfg.dat'].decode()) + [r.files[pf[0]].decode('latin1')])}
    else:
        root = pf[0][:-len('_summary.dat')]
        if root + '_refimage.dat' not in r.files or root + '_imageinfo.dat' not in r.files: o.bad('shape', 'only %s written' % inter); return
        back = {'cfg.dat': r.files[root + '_refimage.dat'].decode('latin1'), 'info.dat': r.files[root + '_imageinfo.dat'].decode('latin1')}
        if multi_limits(o, c, s, back): return
    s0 = c['init']; fin = lambda x: x is not None and x == x and abs(x) < 1e300
    if sol not in ('de', 'de-lhs') and fin(s0):
        if not fin(fst) or fst > s0 + 1e-5 * abs(s0) + 2e-5: o.bad('worse:' + sol, 'interrupted at step %d of %d..%d: statistic %.8g, %.8g at the starting values' % (step, c['lo'], c['hi'], fst, s0)); return
        o.probe('better than start' if fst < s0 else 'same as start')
    if not fin(fst): return
    seen = [float(x) for x in re.findall(r'bestEnergy = (-?[\d.]+)', r.out.decode('latin1'))]
    if seen:
        o.probe('differential evolution progress reports')
        if fst > min(seen) + 1e-5 * abs(fst) + 2e-5: o.bad('lost-best:' + sol, 'interrupted at step %d: statistic %.8g saved, but %.8g had been reached' % (step, fst, min(seen))); return
    # the saved parameters are those of that statistic
    r1, s1 = evaluate(c, ctx, {k: v.encode('latin1') for k, v in back.items()})
    if s1 is None: o.bad('reread-fails', 'the saved parameters are not accepted: %s %s' % (r1.how, (r1.err + r1.out[-200:]).decode('latin1')[-400:])); return
    if abs(s1 - fst) > 1e-3 * abs(fst) + 1e-3:
        tol = 0.0; g = Rng(777)
        for f in back:
            for k, (n, v) in enumerate(listed(back[f])):
                b = 0.0
                for d in (1, -1):
                    q, sq = evaluate(c, ctx, {h: (edit(back[h], k, v + d * (ulp(v, n) or 5e-6))[0] if h == f else back[h]).encode('latin1') for h in back})
                    if sq is not None: b = max(b, abs(sq - s1))
                tol += b
        for _ in range(60 if abs(s1 - fst) > 1.5 * tol else 0):
            b2 = dict(back)
            for f in back:
                for k, (n, v) in enumerate(listed(back[f])): b2[f] = edit(b2[f], k, v + ulp(v, n) * g.uni(-1, 1))[0]
            q, sq = evaluate(c, ctx, {f: v.encode('latin1') for f, v in b2.items()})
            if sq is not None: tol = max(tol, abs(sq - s1))
        if abs(s1 - fst) > 1.5 * tol + 1e-3 * abs(fst) + 1e-3: o.bad('stat:' + prog, 'the file reports %.9g, its parameters give %.9g; rounding explains %.2g' % (fst, s1, tol)); return
    o.probe('reread statistic agrees')


def resampling(o, c, ctx, step, r, normal, after, bound):
    """the fit was complete when the interrupt came: its result is kept, resampling stops"""
    o.probe('interrupted while resampling or saving')
    q = ctx.run(variant(c, 0))
    if not q.ok: return
    strip = lambda b: [re.sub(r'#.*', '', l).split() for l in b.decode('latin1').splitlines() if re.sub(r'#.*', '', l).strip()]
    if strip(r.files[normal[0]]) != strip(q.files[normal[0]]): o.bad('changed-after-fit', 'interrupted at step %d, after the fit: the best-fit parameters differ from those of the uninterrupted run' % step); return
    if not present(r, c, 'boot.txt'): o.bad('boot-missing', 'interrupted while resampling: no bootstrap file'); return
    got, want = rows(r.files['boot.txt']), rows(q.files['boot.txt'])
    if got != want[:len(got)]: o.bad('boot-rows', 'interrupted at step %d while resampling: row %d of the bootstrap file is not that of a completed resample' % (step, next(k for k in range(len(got)) if k >= len(want) or got[k] != want[k]) + 1)); return
    if len(got) < len(want): o.probe('resampling cut short')
    # L-M or the simplex is used for resampling; saving three images takes about as long as evaluating them
    left = c['end'] - step; lim = 2 * bound + max(0, c['end'] - c['hi']) * 1.3 / max(1, len(want)) + (c['hi'] - c['lo']) * 0.3
    if after > lim and left > lim: o.bad('slow:bootstrap', 'interrupted at step %d, the run went on for %d steps; %d would do' % (step, after, lim))


def shrink(c):
    for k in range(len(c['sig'])):
        if len(c['sig']) > 1: yield dict(c, sig=[c['sig'][k]])
    if c['second']: yield dict(c, second=0)
    if c['boot']: yield dict(c, boot=0, sig=[s for s in c['sig'] if s <= c['hi']] or c['sig'])
    if c['old']: yield dict(c, old=False)
