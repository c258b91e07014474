"""P12: a completed fit respects limits, fixed values and reports what it saved."""
import re, math, time
from frame import Outcome
from scenes import *
from multi import add_sections
ID = 'P12'
COUNT = {'quick': 420, 'thorough': 8000}
PROGS = ['imfit', 'multimfit']
RULE = ('Each case is a random fitting problem (imfit with every solver and statistic, or multimfit with 2-3 images and image sections; masks, noise maps, PSFs, sections, fixed and limited parameters, starting points near the truth, anywhere within the limits or exactly on them) '
        'run to its end under a seeded environment: heap garbage, 1-4 worker threads under a seeded schedule, jumping clocks. The saved parameters are checked against limits and fixed values, against the starting statistic, and are fed back to the program, '
        'whose statistic and images must agree with those of the fit; the saved images are checked against data, mask and noise map. Distinct = (program, solver, features, start kind, schedule, status class).')
ASSUMPTIONS = ['Saved parameters carry 6 digits (positions 4 decimals): comparisons allow the change that rounding of each parameter causes, which is measured by perturbing every parameter.',
               'Differential evolution ignores the starting values and is exempt from the comparison with them.']
STEPS = 10**8
SOLOPT = {'--nm': 0, '--de': 0, '--de-lhs': 0, '--nlopt': 1, '--ftol': 1, '--save-params': 1, '--save-params-root': 1, '--save-model': 1, '--save-residual': 1, '--save-weights': 1, '--quiet': 0, '--silent': 0, '--loud': 0, '--max-threads': 1, '--seed': 1, '--bootstrap': 1, '--save-bootstrap': 1}


def describe(c): return '%s %s; start %s; %s' % (c['ref']['prog'], ' '.join(map(str, c['ref']['args'])), c['start'], c['ref']['set'])


def plainargs(a):
    out = []; skip = 0
    for x in a:
        if skip: skip -= 1; continue
        if x in SOLOPT: skip = SOLOPT[x]; continue
        out.append(x)
    return out


def restart(rng, text, P, how):
    """new starting values within the limits"""
    k = 0; started = False; out = []
    for l in text.decode().split('\n'):
        w = l.split()
        if w and w[0] == 'X0': started = True
        if started and w and w[0] != 'FUNCTION' and not l.startswith('#'):
            p = P[k]; k += 1
            if p['mode'] in ('lim', 'onlim') and len(w) == 3 and rng.chance(0.7):
                lo, hi = map(float, w[2].split(',')); v = num(rng.uni(lo, hi) if how == 'anywhere' or rng.chance(0.4) else rng.choice([lo, hi]))
                if lo <= float(v) <= hi: p['v'] = float(v); l = '%s   %s   %s' % (w[0], v, w[2])
        out.append(l)
    return '\n'.join(out).encode()


def make(rng, i, tier, ctx):
    if i % 6 == 5:
        sc = multimfit_scene(rng, boot=False)
        if rng.chance(0.4): add_sections(rng, sc)
        P = None; sol = 'nm' if 'nm' in sc['tags'] else 'nlopt' if 'nlopt' in sc['tags'] else 'lm'; start = 'near'
        if '--save-model' not in sc['args']:
            sc['args'] += ['--save-model', 'mod']
            for k in range(sc['nim'] if 'nim' in sc else len(sc['dims'])): sc['outs']['mod_%d.fits' % k] = 'model'
    else:
        sol = ['lm', 'nm', 'BOBYQA', 'lm', 'COBYLA', 'NEWUOA', 'NM', 'PRAXIS', 'lm', 'SBPLX', 'de', 'nm', 'de-lhs'][(i // 6 * 5 + i % 6) % 13]
        sc = imfit_scene(rng, solver=sol, boot=False); P = sc['scene']['P']; a = sc['args']
        for o, f in (('--save-model', 'm.fits'), ('--save-residual', 'r.fits'), ('--save-weights', 'w.fits')):
            if o not in a and rng.chance(0.6): a += [o, f]; sc['outs'][f] = {'m': 'model', 'r': 'residual', 'w': 'weights'}[f[0]]
        if 'noise.fits' not in sc['files'] and rng.chance(0.6):
            for o, v in (('--gain', num(rng.uni(0.5, 5))), ('--readnoise', num(rng.uni(1, 8))), ('--sky', num(rng.uni(4, 30))), ('--exptime', num(rng.uni(1, 4))), ('--ncombined', str(rng.rng(2, 5)))):
                if o not in a and rng.chance(0.7): a += [o, v]
        start = rng.choice(['near', 'near', 'anywhere', 'limits'])
        if start != 'near': sc['files']['cfg.dat'] = restart(rng, sc['files']['cfg.dat'], P, start)
    a = sc['args']; th = rng.choice([1, 1, 2, 3, 4]); a[a.index('--max-threads') + 1] = str(th)
    kw = dict(heapFill=rng.choice([1, 1, 2, 3, 4]), seedHeap=rng.below(1 << 30), clockMode=rng.choice([0, 1, 2, 3]), seedClock=rng.below(1 << 30), seedEntropy=rng.below(1 << 30), cores=rng.rng(1, 8), stepLimit=STEPS)
    if th > 1: kw.update(schedMode=rng.choice([0, 1, 2, 3, 5]), schedP=rng.choice([20, 200, 2000]), seedSched=rng.below(1 << 40), accLimit=4 * STEPS)
    s = spec(sc['prog'], a, sc['files'], jumps=[[rng.rng(1, 12), rng.choice([-1, 1]) * rng.rng(1, 10**15)] for _ in range(rng.below(3))], **kw)
    t0 = time.time(); ctx.run(s)
    if time.time() - t0 > 2.5: return None
    return {'ref': s, 'outs': sc['outs'], 'P': P, 'sol': sol, 'start': start, 'tags': sc['tags'], 'scene': {k: sc['scene'][k] for k in ('nx', 'ny', 'sec', 'stat', 'mask', 'data', 'image')} if sc.get('scene') else None, 'dims': sc.get('dims')}


def ulp(v, name, xy4=True):
    """half a unit of the last printed digit"""
    if xy4 and name in ('X0', 'Y0'): return 0.5e-4
    return 0.0 if v == 0 else 0.5 * 10.0 ** (math.floor(math.log10(abs(v))) - 5)


def edit(text, k, v):
    """text of a parameter file with its k-th parameter set to v"""
    n = 0; out = []
    for l in text.split('\n'):
        w = l.split('#')[0].split()
        if w and w[0] not in ('FUNCTION', 'IMAGE_START') and re.match(r'^%s$' % FLOAT, w[1] if len(w) > 1 else '') and w[0] not in ('GAIN', 'READNOISE', 'ORIGINAL_SKY', 'NCOMBINED', 'WEIGHT', 'EXPTIME', 'OVERSAMPLE_SCALE'):
            if n == k: l = '%s   %r   %s' % (w[0], v, ' '.join(w[2:]))
            n += 1
        out.append(l)
    return '\n'.join(out), n


def listed(text):
    out = []
    for l in text.split('\n'):
        w = l.split('#')[0].split()
        if w and w[0] not in ('FUNCTION', 'IMAGE_START') and re.match(r'^%s$' % FLOAT, w[1] if len(w) > 1 else '') and w[0] not in ('GAIN', 'READNOISE', 'ORIGINAL_SKY', 'NCOMBINED', 'WEIGHT', 'EXPTIME', 'OVERSAMPLE_SCALE'): out.append((w[0], float(w[1])))
    return out


def evaluate(c, ctx, files):
    """statistic (and images) of the program at the values in the configuration files"""
    s = c['ref']; a = plainargs(s['args']) + ['--nm', '--fitstat-only', '--max-threads', '1']
    if s['prog'] == 'imfit' and 'm.fits' in c['outs']: a += ['--save-model', 'm.fits']
    r = ctx.run(spec(s['prog'], a, dict(s['files'], **files), heapFill=1, stepLimit=STEPS))
    return r, (stat_from_stdout(r.out) if r.ok else None)


finite = lambda x: x is not None and x == x and abs(x) < 1e300


def execute(c, ctx):
    o = Outcome(); s = c['ref']; prog = s['prog']; r = ctx.run(s)
    if r.kind == 4:      # longer than the documented limits on iterations and evaluations allow?
        e = ctx.run(spec(prog, plainargs(s['args']) + ['--nm', '--fitstat-only', '--max-threads', '1'], s['files'], heapFill=1, stepLimit=STEPS))
        n = len(c['P']) if c['P'] else len(listed(s['files']['cfg.dat'].decode())) + len(listed(s['files']['info.dat'].decode()))
        bound = e.s['steps'] * ((n + 2) * 5000 if c['sol'] == 'lm' else n * 5000 if c['sol'] in ('de', 'de-lhs') else n * 11000)
        if bound > STEPS and bound < 15 * STEPS: r = ctx.run(dict(s, set=dict(s['set'], schedMode=0, stepLimit=bound, accLimit=4 * bound)))
        if r.kind == 4 and bound < 15 * STEPS: o.bad('endless:' + c['sol'], 'the fit does not end within %d steps' % max(bound, STEPS)); return o
        if r.kind == 4: o.probe('cut off: too long'); return o
    if r.kind == 1 and r.code and (b'L-M' in r.err or b'Cash' in r.err or b'Levenberg' in r.err): o.probe('refused: statistic not possible with this solver'); return o
    if not r.ok: o.bad('failed:' + c['sol'], 'the fit ended with %s %s %s' % (r.how, r.note, r.err.decode('latin1')[-300:])); return o
    for t in c['tags']: o.probe(t)
    o.probe('start: ' + c['start'])
    st = stat_from_stdout(r.out); out = r.out.decode('latin1')
    pf = [k for k, v in c['outs'].items() if v == 'params']; pf = [k for k in pf if k.endswith('_summary.dat')] or pf
    if pf[0] not in r.files: o.bad('no-params', 'completed fit without %s' % pf[0]); return o
    pl, hdr = parse_params(r.files[pf[0]])
    if pl is None: o.bad('shape', 'malformed %s' % pf[0]); return o
    if 'Best-fit value' not in hdr: o.bad('no-stat', 'no best-fit statistic in %s' % pf[0]); return o
    fst = float(hdr['Best-fit value']); alg = hdr.get('Algorithm', '?')
    o.key(prog, c['sol'], ' '.join(sorted(set(c['tags']))), c['start'], s['set'].get('schedMode', 0), re.sub(r'[^A-Za-z ]', '', alg)[:40])
    V = values(pl)
    seen = [float(x) for x in re.findall(r'bestEnergy = (-?[\d.]+)', out)]
    if seen:
        o.probe('differential evolution progress reports')
        if fst > min(seen) + 1e-5 * abs(fst) + 2e-5: o.bad('lost-best:' + c['sol'], 'statistic %.8g saved, but the fit had reached %.8g' % (fst, min(seen))); return o
    if prog == 'imfit':
        if [n for n, _ in V] != [p['name'] for p in c['P']]: o.bad('shape', 'parameters %s in the best-fit file, %s in the configuration' % ([n for n, _ in V], [p['name'] for p in c['P']])); return o
        for (n, v), p in zip(V, c['P']):
            e = ulp(v, n) * 1.02
            if p['mode'] == 'fixed' and abs(v - p['v']) > e: o.bad('fixed:' + c['sol'], 'fixed parameter %s = %g became %g' % (n, p['v'], v)); return o
            if p['mode'] in ('lim', 'onlim') and not p['lo'] - e <= v <= p['hi'] + e: o.bad('limits:' + c['sol'], '%s = %g is outside its limits %g,%g' % (n, v, p['lo'], p['hi'])); return o
            if v != v or abs(v) == math.inf: o.bad('nan:' + c['sol'], '%s = %g' % (n, v)); return o
        back = {'cfg.dat': '\n'.join(cfghead(s['files']['cfg.dat'].decode()) + r.files[pf[0]].decode('latin1').split('\n'))}
    else:
        root = pf[0][:-len('_summary.dat')]; back = {'cfg.dat': r.files[root + '_refimage.dat'].decode('latin1'), 'info.dat': r.files[root + '_imageinfo.dat'].decode('latin1')}
        if multi_limits(o, c, s, back): return o
    # statistic in the file = statistic on the terminal
    if st is not None and abs(st - fst) > 2e-5 * abs(fst) + 2e-6 and not (st != st and fst != fst): o.bad('two-stats', 'terminal says %g, file says %g' % (st, fst)); return o
    # at least as good as the start
    r0, s0 = evaluate(c, ctx, {})
    if r0.ok and c['sol'] not in ('de', 'de-lhs') and finite(s0):
        if not finite(fst) or fst > s0 + 1e-5 * abs(s0) + 2e-5: o.bad('worse:' + c['sol'], 'statistic %.8g after the fit, %.8g at the starting values' % (fst, s0)); return o
        o.probe('better than start' if fst < s0 else 'same as start')
    if not finite(fst): o.probe('statistic not finite'); return o
    # saved images against each other, data and mask
    if prog == 'imfit': images(o, c, r, fst); totals(o, c, r, fst, hdr, counts(c)[1])
    else: multi_images(o, c, r, fst)
    if o.v: return o
    # re-reading the best-fit file reproduces the fit
    r1, s1 = evaluate(c, ctx, {k: v.encode('latin1') for k, v in back.items()})
    if s1 is None: o.bad('reread-fails', 'the saved parameters are not accepted: %s %s' % (r1.how, (r1.err + r1.out[-200:]).decode('latin1')[-400:])); return o
    if r0.ok and prog == 'imfit' and finite(s0): totals(o, c, r0, s0, {}, counts(c)[1])
    if o.v: return o
    if abs(s1 - fst) > 2e-6 * abs(fst) + 1e-5 or 'm.fits' in c['outs']:
        tol = 0.0; imt = None; m1 = None
        if 'm.fits' in r1.files and 'm.fits' in r.files: m1 = read_fits(r1.files['m.fits'])[3]; imt = [0.0] * len(m1)
        for f in back:
            for k, (n, v) in enumerate(listed(back[f])):
                e = ulp(v, n)
                if e == 0: e = 5e-6 if prog == 'multimfit' else 1e-9
                best = 0.0; bi = imt and [0.0] * len(imt)
                for d in (e, -e):
                    q, sq = evaluate(c, ctx, {g: (edit(back[g], k, v + d)[0] if g == f else back[g]).encode('latin1') for g in back})
                    if sq is None: continue
                    best = max(best, abs(sq - s1))
                    if imt and 'm.fits' in q.files: bi = [max(x, abs(y - z)) for x, y, z in zip(bi, read_fits(q.files['m.fits'])[3], m1)]
                tol += best
                if imt: imt = [x + y for x, y in zip(imt, bi)]
        mf = read_fits(r.files['m.fits'])[3] if imt else None; sc = max(abs(x) for x in mf) if imt else 0
        if not abs(s1 - fst) <= 1.5 * tol + 2e-6 * abs(fst) + 1e-5 or imt and any(not abs(x - y) <= 1.5 * z + 1e-6 * sc for x, y, z in zip(mf, m1, imt)):
            g = Rng(12345); o.probe('box of values with the printed digits sampled')       # image functions jump where pixel subsampling sets in
            for n in range(500):
                b2 = dict(back)
                for f in back:
                    for k, (nm, v) in enumerate(listed(back[f])): b2[f] = edit(b2[f], k, v + ulp(v, nm) * (g.choice([-1, 1]) if n % 3 else g.uni(-1, 1)))[0]
                q, sq = evaluate(c, ctx, {f: v.encode('latin1') for f, v in b2.items()})
                if sq is not None:
                    tol = max(tol, abs(sq - s1))
                    if imt and 'm.fits' in q.files: imt = [max(x, abs(y - z)) for x, y, z in zip(imt, read_fits(q.files['m.fits'])[3], m1)]
                if n > 30 and abs(s1 - fst) <= 1.5 * tol + 2e-6 * abs(fst) + 1e-5 and not (imt and any(not abs(x - y) <= 1.5 * z + 1e-6 * sc for x, y, z in zip(mf, m1, imt))): break
        if not abs(s1 - fst) <= 1.5 * tol + 2e-6 * abs(fst) + 1e-5: o.bad('reread-stat', 'the fit reports %.9g, the saved parameters give %.9g; rounding explains %.2g' % (fst, s1, tol)); return o
        o.probe('reread statistic agrees')
        if imt:
            for j, (x, y, t) in enumerate(zip(mf, m1, imt)):
                if not abs(x - y) <= 1.5 * t + 1e-6 * sc: o.bad('reread-image', 'pixel %d of the saved model is %.8g, the saved parameters give %.8g; rounding explains %.2g' % (j, x, y, t)); return o
            o.probe('reread model image agrees')
    else: o.probe('reread statistic agrees')
    return o


def crop(v, nx, sec): x1, y1, x2, y2 = sec; return [v[j * nx + i] for j in range(y1 - 1, y2) for i in range(x1 - 1, x2)]


def images(o, c, r, fst):
    sc = c['scene']; nx, sec = sc['nx'], sc['sec']; w, h = sec[2] - sec[0] + 1, sec[3] - sec[1] + 1
    d = crop(read_fits(c['ref']['files']['data.fits'])[3], nx, sec); mk = crop(sc['mask'], nx, sec) if sc['mask'] else None; im = {}
    for f, role in sorted(c['outs'].items()):
        if not f.endswith('.fits'): continue
        if f not in r.files: o.bad('no-image', '%s was not saved' % f); return
        X, Y, bp, v, _ = read_fits(r.files[f])
        if (X, Y) != (w, h): o.bad('image-size', '%s is %dx%d, data %dx%d' % (f, X, Y, w, h)); return
        im[role] = v
    if 'model' in im and 'residual' in im:
        sc_ = max(abs(x) for x in d if math.isfinite(x)) + 1
        for j in range(w * h):
            if mk and mk[j] and not math.isfinite(d[j]): continue
            if not abs(d[j] - im['model'][j] - im['residual'][j]) <= 1e-6 * sc_ + 2e-7 * (abs(im['model'][j]) + abs(im['residual'][j])): o.bad('residual', 'pixel %d: data %.8g - model %.8g, residual image %.8g' % (j, d[j], im['model'][j], im['residual'][j])); return
        o.probe('residual image agrees')
    if 'weights' in im and mk:
        for j in range(w * h):
            if (im['weights'][j] == 0) != bool(mk[j]): o.bad('weights', 'pixel %d is %smasked, its weight is %g' % (j, '' if mk[j] else 'not ', im['weights'][j])); return
    if 'model' in im and 'noise.fits' not in c['ref']['files']:
        g, sky, rv = noise(c['ref']['args'], c['ref']['files']['cfg.dat'].decode()); t = tol = 0.0; fft = 2e-15 * max(map(abs, im['model'])) if 'psf.fits' in c['ref']['files'] else 0.0
        for j, (x, y) in enumerate(zip(d, im['model'])):
            if mk and mk[j]: continue
            f = terms(sc['stat'], g, sky, rv, x); e = 1e-7 * abs(y) + fft + 1e-30; v = f(y); t += v; tol += max(abs(f(y + e) - v), abs(f(y - e) - v))
        if t == t and abs(t) < 1e300 and tol < 0.01 * abs(t) + 1:
            o.probe('statistic recomputed: ' + sc['stat'])
            if not abs(t - fst) <= tol + 1e-6 * abs(fst) + 1e-5: o.bad('images-stat:' + sc['stat'], 'data, mask and saved model give %.9g, reported %.9g (rounding explains %.2g)' % (t, fst, tol)); return
    res = im.get('residual') or ('model' in im and [a - b for a, b in zip(d, im['model'])])
    if res and 'weights' in im and sc['stat'] == 'chi':
        t = sum(x * x * y for j, (x, y) in enumerate(zip(res, im['weights'])) if not (mk and mk[j])); o.probe('chi-squared recomputed')
        if not abs(t - fst) <= 3e-5 * abs(fst) + 1e-4: o.bad('images-stat', 'saved images give chi^2 = %.8g, reported %.8g' % (t, fst)); return
    if res and sc['stat'] == 'chi' and 'noise.fits' in c['ref']['files']:
        a = c['ref']['args']; z = crop(read_fits(c['ref']['files']['noise.fits'])[3], nx, sec); k = 2 if '--errors-are-variances' in a else 1 if '--errors-are-weights' in a else 0
        t = sum(0 if mk and mk[j] else x * x * (y if k == 1 else 1 / y if k == 2 else 1 / (y * y)) for j, (x, y) in enumerate(zip(res, z))); o.probe('chi-squared recomputed from the noise map')
        if not abs(t - fst) <= 3e-5 * abs(fst) + 1e-4: o.bad('noise-stat', 'data, model and noise map give chi^2 = %.8g, reported %.8g' % (t, fst)); return


def noise(args, text):
    """effective gain, sky and readout variance per pixel from the options (those on the command line count more than those in the configuration file)"""
    cfg = {l.split()[0]: l.split()[1] for l in cfghead(text) if len(l.split()) > 1}
    v = lambda o, d: float(args[args.index(o) + 1] if o in args else cfg.get(CFGOPT[o], d))
    n = v('--ncombined', 1); g = v('--gain', 1) * v('--exptime', 1) * n; rn = v('--readnoise', 0)
    return g, v('--sky', 0), n * rn * rn / (g * g)


def terms(stat, g, sky, rv, d):
    """contribution of one pixel to the statistic, as a function of the model value"""
    if stat == 'chi': w = max(d + sky, 0.0) / g + rv; return lambda m: (d - m) ** 2 / w if w > 0 else math.inf
    if stat == 'model':
        def f(m): w = (m + sky) / g + rv; return (d - m) ** 2 / w if w > 0 else math.inf
        return f
    D = g * (d + sky); x = D * math.log(D) - D if D > 0 and stat == 'mlr' else 0.0

    def f(m): M = g * (m + sky); t = 2 * (M - D * (math.log(M) if M > 0 else 1e-25) + x); return abs(t) if stat == 'mlr' else t
    return f


def counts(c):
    sc = c['scene']; sec = sc['sec']; n = (sec[2] - sec[0] + 1) * (sec[3] - sec[1] + 1) - (sum(1 for x in crop(sc['mask'], sc['nx'], sec) if x) if sc['mask'] else 0)
    return n, sum(p['mode'] != 'fixed' for p in c['P'])


def totals(o, c, r, fst, hdr, k):
    """degrees of freedom, reduced value, AIC and BIC of the reported statistic; hdr: {} for a run without parameter file"""
    sc = c['scene']; n = counts(c)[0]
    if n - k - 1 <= 0: return
    want = {'AIC': fst + 2 * k + 2 * k * (k + 1.0) / (n - k - 1.0), 'BIC': fst + k * math.log(n)}
    if sc['stat'] != 'cash': want['Reduced value'] = fst / (n - k)
    out = r.out.decode('latin1'); got = {q: hdr.get(q) for q in want}; m = re.findall(r'AIC = (%s), BIC = (%s)' % (FLOAT, FLOAT), out)
    o.probe('degrees of freedom, AIC and BIC recomputed')
    for q, w in want.items() if hdr else ():
        v = got[q]
        if v is None: o.bad('totals', 'no %s in the parameter file' % q); return
        if not abs(float(v) - w) <= 3e-6 + 1e-6 * abs(w): o.bad('totals', '%s in the parameter file is %s, but statistic %g with %d free parameters and %d valid pixels gives %.8g' % (q, v, fst, k, n, w)); return
    if m and not (abs(float(m[-1][0]) - want['AIC']) <= 3e-5 * abs(fst) + 1e-5 and abs(float(m[-1][1]) - want['BIC']) <= 3e-5 * abs(fst) + 1e-5): o.bad('totals', 'terminal reports AIC, BIC = %s, expected %.8g, %.8g (%d free parameters, %d valid pixels)' % (m[-1], want['AIC'], want['BIC'], k, n)); return
    for w in re.findall(r'\((\d+) DOF\)', out):
        if int(w) != n - k: o.bad('totals', 'terminal reports %s degrees of freedom for %d valid pixels and %d free parameters' % (w, n, k)); return


def info(text):
    """per image of an image-description file: dict of its lines"""
    out = []
    for l in text.split('\n'):
        w = l.split('#')[0].split()
        if w[:1] == ['IMAGE_START']: out.append({})
        elif w and out: out[-1][w[0]] = w[1:]
    return out


def multi_limits(o, c, s, back):
    a, b = info(s['files']['info.dat'].decode()), info(back['info.dat'])
    if len(a) != len(b): o.bad('shape', '%d images in, %d images out' % (len(a), len(b))); return True
    for k, (x, y) in enumerate(zip(a, b)):
        for f in ('DATA', 'MASK', 'ERROR', 'PSF'):
            if x.get(f) != y.get(f): o.bad('info', 'image %d: %s %s became %s' % (k + 1, f, x.get(f), y.get(f))); return True
        for f in ('PIXEL_SCALE', 'IMAGE_PA', 'FLUX_SCALE', 'X0', 'Y0'):
            if f not in x: continue
            v, z = float(x[f][0]), float(y[f][0]); e = ulp(z, f) * 1.02; q = x[f][1] if len(x[f]) > 1 else ''
            if (q == 'fixed' or f in ('PIXEL_SCALE', 'IMAGE_PA')) and ',' not in q and abs(z - v) > e: o.bad('fixed:multi', 'image %d: fixed %s = %g became %g' % (k + 1, f, v, z)); return True
            if ',' in q:
                lo, hi = map(float, q.split(','))
                if not lo - e <= z <= hi + e: o.bad('limits:multi', 'image %d: %s = %g is outside its limits %g,%g' % (k + 1, f, z, lo, hi)); return True
    lines = []; started = False
    for l in s['files']['cfg.dat'].decode().split('\n'):
        w = l.split()
        if w and w[0] == 'X0': started = True
        if started and w and w[0] != 'FUNCTION' and not l.startswith('#'): lines.append(w)
    V = listed(back['cfg.dat'])
    if [w[0] for w in lines] != [n for n, _ in V]: o.bad('shape', 'parameters %s became %s' % ([w[0] for w in lines], [n for n, _ in V])); return True
    for w, (n, v) in zip(lines, V):
        e = ulp(v, n) * 1.02; q = w[2] if len(w) > 2 else ''
        if q == 'fixed' and abs(v - float(w[1])) > e: o.bad('fixed:multi', 'fixed %s = %s became %g' % (n, w[1], v)); return True
        if ',' in q:
            lo, hi = map(float, q.split(','))
            if not lo - e <= v <= hi + e: o.bad('limits:multi', '%s = %g is outside its limits %s' % (n, v, q)); return True
    return False


def section(name, files):
    m = re.match(r'([^\[]+)(?:\[(\d+):(\d+),(\d+):(\d+)\])?$', name); nx, ny, _, v, _ = read_fits(files[m.group(1)])
    return crop(v, nx, [int(m.group(2)), int(m.group(4)), int(m.group(3)), int(m.group(5))]) if m.group(2) else v


def multi_images(o, c, r, fst):
    """the statistic of all images recomputed; every saved model has the size of its data"""
    t = 0.0; a = c['ref']['args']; opt = [x for x in ('--cashstat', '--poisson-mlr', '--model-errors') if x in a]; stat = {'--cashstat': 'cash', '--poisson-mlr': 'mlr', '--model-errors': 'model'}[opt[0]] if opt else 'chi'; size = 0.0
    for k, x in enumerate(info(c['ref']['files']['info.dat'].decode())):
        f = 'mod_%d.fits' % k
        if f not in r.files: o.bad('no-image', '%s was not saved' % f); return
        m = read_fits(r.files[f])[3]; d = section(x['DATA'][0], c['ref']['files'])
        if len(m) != len(d): o.bad('image-size', '%s has %d pixels, its data %d' % (f, len(m), len(d))); return
        mk = section(x['MASK'][0], c['ref']['files']) if 'MASK' in x else [0] * len(d)
        if 'MASK_ZERO_IS_BAD' in x: mk = [int(v < 1) for v in mk]
        ok = [j for j in range(len(d)) if not mk[j]]
        if 'ERROR' in x and stat in ('chi', 'model'):
            e = section(x['ERROR'][0], c['ref']['files'])
            part = [(d[j] - m[j]) ** 2 / (e[j] if 'ERRORS_ARE_VARIANCES' in x else e[j] ** 2) for j in ok]
        else:
            v = lambda n, z: float(x[n][0]) if n in x else z
            n = v('NCOMBINED', 1); g = v('GAIN', 1) * v('EXPTIME', 1) * n; part = [terms(stat, g, v('ORIGINAL_SKY', 0), n * v('READNOISE', 0) ** 2 / (g * g), d[j])(m[j]) for j in ok]
            if stat in ('cash', 'mlr') and any(m[j] + v('ORIGINAL_SKY', 0) <= 0 for j in ok): return
        t += sum(part); size += sum(map(abs, part))
    if not math.isfinite(t): return
    o.probe('statistic of several images recomputed'); o.probe('statistic of several images recomputed, ' + stat)
    if not abs(t - fst) <= 3e-5 * abs(fst) + 1e-6 * size + 1e-4: o.bad('images-stat:multi', 'data, models and errors give %.8g for %s, reported %.8g' % (t, stat, fst))


def shrink(c):
    s = c['ref']
    for k, v in (('schedMode', 0), ('heapFill', 0), ('clockMode', 0)):
        if s['set'].get(k): yield dict(c, ref=dict(s, set=dict(s['set'], **{k: v})))
    if s.get('jumps'): yield dict(c, ref=dict(s, jumps=[]))
