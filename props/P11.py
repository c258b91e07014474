"""P11: a model evaluation does not depend on what was evaluated before it (histories of requests on live model objects vs fresh objects)."""
import math
from frame import Outcome
from scenes import *
ID = 'P11'
COUNT = {'quick': 2200, 'thorough': 24000}
PROGS = ['simlib']
RULE = ('Each case builds 1-3 live model objects (all image functions, PSFs, oversampled regions, masks, noise maps, every fit statistic, multi-image models) through the library interface and issues a random history of 8-40 requests on them (every second case: parameters changed one at a time) '
        '(images, component images, fluxes, statistics, deviates, residuals, weights, bootstrap resamples, repeated and interleaved, objects destroyed and recreated). Every answer is compared with the answer of a fresh object, in a fresh process, to that request alone. '
        'Distinct = (kind of object, features, request, kind of the request before it).')
ASSUMPTIONS = ['Answers are compared with a relative tolerance of 1e-11 of the largest value (FFT plans may differ between objects).', 'Objects are set up with the library calls the programs use.']
STEPS = 3 * 10**8


def describe(c): return '%d objects, %d requests: %s' % (len(c['obj']), len(c['ops']), '; '.join(' '.join(map(str, q)) for q in c['ops'][:12]))


def one(rng, i, tag, want=None):
    """a single-image object: dict(lines of k=v, files, functions, par sets)"""
    nx, ny = rng.rng(5, 16), rng.rng(5, 16)
    psf = rng.chance(0.5); first = list(FUNCS)[i % len(FUNCS)] if rng.chance(0.6) else None
    if first in NEEDS_PSF: psf = True
    model = rand_model(rng, nx, ny, psf=psf, slow=False, nsets=rng.choice([1, 1, 2]), nf=rng.choice([1, 2, 2]))
    if first: model[0]['f'][0] = rand_func(rng, first)
    if rng.chance(0.25) and len(model[0]['f']) > 1: model[0]['f'][1] = rand_func(rng, model[0]['f'][0]['name'])       # two instances of the same function
    if psf and rng.chance(0.35) and not any(f['name'] in NEEDS_PSF for s in model for f in s['f']): model[rng.below(len(model))]['f'].append(rand_func(rng, rng.choice(sorted(NEEDS_PSF))))
    slow = any(f['name'] in SLOW for s in model for f in s['f'])
    if slow: nx, ny = 5, 6; psf = psf and first in NEEDS_PSF; model = model[:1]; model[0]['f'] = model[0]['f'][:2]; model[0].update(x0=2.8, y0=3.4)
    if not psf: model = [dict(s, f=[f for f in s['f'] if f['name'] not in NEEDS_PSF] or [rand_func(rng, 'Gaussian')]) for s in model]
    files = {}; kv = {'nx': nx, 'ny': ny, 'cfg': tag + 'cfg.dat'}; tags = []
    ps = any(f['name'] in NEEDS_PSF for s in model for f in s['f'])
    if psf:
        pn = rng.choice([7, 9]) if ps else rng.choice([3, 5, 6]); files[tag + 'psf.fits'] = psf_image(rng, pn, pn if ps else rng.choice([pn, 3, 5])); kv['psf'] = tag + 'psf.fits'; tags.append('psf')
        if rng.chance(0.2): kv['nonorm'] = ''
    if rng.chance(0.45) and nx >= 8 and ny >= 8 and not slow:
        ov = []
        for k in range(rng.choice([1, 1, 2])):
            x1, y1 = rng.rng(1, nx - 4), rng.rng(1, ny - 4); f = '%sop%d.fits' % (tag, k)
            files[f] = psf_image(rng, rng.choice([5, 7]), rng.choice([5, 7])); ov.append('%s,%d,%d:%d/%d:%d' % (f, rng.choice([2, 3]), x1, min(nx, x1 + rng.rng(2, 5)), y1, min(ny, y1 + rng.rng(2, 5))))
        kv['over'] = ';'.join(ov); tags.append('over')
    if ps: tags.append('pointsource')
    if rng.chance(0.15): kv['nosub'] = ''
    kind = 'make'
    if rng.chance(0.6) or want == 'fit':
        kind = 'fit'; kv['fit'] = ''
        st = rng.choice(['chi', 'chi', 'model', 'cash', 'mlr']); kv['stat'] = st; tags.append(st)
        files[tag + 'data.fits'] = fits([max(0.0, float(round(rng.uni(0, 60)))) if st in ('cash', 'mlr') else rng.uni(1, 60) for _ in range(nx * ny)], nx, ny); kv['data'] = tag + 'data.fits'
        kv['sky'] = '8'
        if rng.chance(0.5): kv['gain'] = num(rng.uni(0.5, 4)); kv['rn'] = num(rng.uni(0.5, 4))
        if rng.chance(0.5): files[tag + 'mask.fits'] = fits([1 if rng.chance(0.15) else 0 for _ in range(nx * ny)], nx, ny, 16); kv['mask'] = tag + 'mask.fits'; tags.append('mask')
        if st == 'chi' and rng.chance(0.5): files[tag + 'err.fits'] = fits([rng.uni(0.5, 3) for _ in range(nx * ny)], nx, ny); kv['noise'] = tag + 'err.fits'; kv['etype'] = rng.choice(['', 'var', 'wt']); tags.append('noise')
    files[tag + 'cfg.dat'] = config(model)
    pars = [flat(model)]
    for _ in range(rng.rng(2, 4)):
        w = rng.below(4); base = list(rng.choice(pars))
        m2 = [{'x0': float(num(rng.uni(0.5, nx + 0.5))), 'y0': float(num(rng.uni(0.5, ny + 0.5))), 'f': [dict(rand_func(rng, f['name'])) for f in s['f']]} for s in model]
        new = flat(m2)
        if w == 0: base = new
        elif w == 1: k = rng.below(len(base)); base[k] = new[k]
        elif w == 2:
            for k in range(len(base)):
                if rng.chance(0.5): base[k] = new[k]
        else: base[0], base[1] = new[0], new[1]
        pars.append(base)
    return {'kind': kind, 'kv': kv, 'files': files, 'pars': pars, 'nf': sum(len(s['f']) for s in model), 'tags': tags, 'funcs': sorted({f['name'] for s in model for f in s['f']}), 'cost': nx * ny * (20 if slow else 1)}


def flat(model): return [float(num(v)) for _, _, _, v in params(model)]


def multi(rng, i, tag):
    n = rng.choice([2, 2, 3]); nx, ny = rng.rng(7, 11), rng.rng(7, 11)
    model = [{'x0': float(num(nx / 2 + 0.3)), 'y0': float(num(ny / 2 + 0.1)), 'f': [rand_func(rng, rng.choice(['Gaussian', 'Exponential', 'Sersic', 'Moffat', 'GaussianRing', 'FlatBar', 'BrokenExponential'])) for _ in range(rng.choice([1, 2]))]}]
    st = rng.choice(['chi', 'chi', 'mlr']); lines = []; files = {tag + 'cfg.dat': config(model)}; tags = ['multi', st]
    for k in range(n):
        w, h = (nx, ny) if k == 0 else (rng.rng(7, 11), rng.rng(7, 11)); kv = {'cfg': tag + 'cfg.dat', 'nx': w, 'ny': h, 'fit': '', 'data': '%sd%d.fits' % (tag, k), 'stat': st, 'sky': '8'}
        files[kv['data']] = fits([float(round(rng.uni(1, 60))) for _ in range(w * h)], w, h)
        if rng.chance(0.4): kv['psf'] = '%sp%d.fits' % (tag, k); files[kv['psf']] = psf_image(rng, rng.choice([3, 5]), rng.choice([3, 5])); tags.append('psf')
        if rng.chance(0.4): kv['mask'] = '%sm%d.fits' % (tag, k); files[kv['mask']] = fits([1 if rng.chance(0.12) else 0 for _ in range(w * h)], w, h, 16); tags.append('mask')
        if st == 'chi' and rng.chance(0.4): kv['noise'] = '%se%d.fits' % (tag, k); files[kv['noise']] = fits([rng.uni(0.5, 3) for _ in range(w * h)], w, h); tags.append('noise')
        lines.append(kv)
    pars = []
    for _ in range(rng.rng(3, 4)):
        v = []
        for k in range(1, n): v += [float(num(rng.uni(0.7, 1.4))), float(num(rng.uni(-40, 40))), float(num(rng.uni(0.5, 2))), float(num(nx / 2 + rng.uni(-1, 1))), float(num(ny / 2 + rng.uni(-1, 1)))]
        m2 = [{'x0': s['x0'] + rng.uni(-1, 1), 'y0': s['y0'] + rng.uni(-1, 1), 'f': [rand_func(rng, f['name']) for f in s['f']]} for s in model]
        new = v + flat(m2)
        if pars and rng.chance(0.5): base = list(rng.choice(pars)); k = rng.below(len(base)); base[k] = new[k]; new = base
        pars.append(new)
    return {'kind': 'multi', 'kv': lines, 'files': files, 'pars': pars, 'nf': len(model[0]['f']), 'tags': tags, 'funcs': sorted({f['name'] for f in model[0]['f']}), 'nim': n, 'cost': nx * ny * n}


REQ = {'make': ['img', 'img', 'img', 'single', 'single', 'flux', 'again'], 'fit': ['img', 'img', 'single', 'single', 'flux', 'stat', 'stat', 'dev', 'dev', 'resid', 'weight', 'data', 'again', 'resid2', 'bs'],
       'multi': ['stat', 'stat', 'dev', 'dev', 'img', 'img', 'bs']}


def make(rng, i, tier, ctx):
    if i % 2: return dict(sweep(rng, i // 2), heap=rng.choice([1, 2, 3]), seedHeap=rng.below(1 << 30))
    i //= 2
    obj = [multi(rng, i, 'a') if rng.chance(0.25) else one(rng, i, 'a')]
    if rng.chance(0.35): obj.append(multi(rng, i, 'b') if rng.chance(0.2) else one(rng, i, 'b'))
    cost = sum(o['cost'] for o in obj); ops = []; n = rng.rng(8, 40 if cost < 500 else 16); bs = {}
    last = {}; gen = {k: 0 for k in range(len(obj))}
    while len(ops) < n:
        k = rng.below(len(obj)); o = obj[k]
        if rng.chance(0.03): ops.append(('renew', k)); bs.pop(k, None); last.pop(k, None); continue
        r = rng.choice(REQ[o['kind']]); p = rng.below(len(o['pars']))
        if r == 'bs':
            if k in bs:
                if rng.chance(0.5): ops.append(('stopbs', k)); del bs[k]
                else: sd = rng.rng(1, 9999); ops.append(('sample', k, sd)); bs[k] = sd
            else: sd = rng.rng(1, 9999); ops.append(('usebs', k, sd)); bs[k] = sd
            last.pop(k, None) if k in bs else None
            continue
        if r in ('again', 'resid2'):
            if k not in last: continue
            ops.append((r, k, last[k])); continue
        if r == 'single': ops.append((r, k, p, rng.below(o['nf']))); last.pop(k, None)
        elif r == 'flux': ops.append((r, k, p, rng.rng(3, 14), rng.rng(3, 14)))
        elif r == 'img' and o['kind'] == 'multi': ops.append((r, k, p, rng.below(o['nim'])))
        elif r in ('stat', 'dev', 'weight') : ops.append((r, k, p)); last[k] = p
        elif r == 'data': ops.append((r, k, p))
        else: ops.append((r, k, p)); last[k] = p
        if o['kind'] == 'multi': last.pop(k, None)
        if rng.chance(0.1): ops.append(ops[-1])
    return {'obj': obj, 'ops': ops, 'heap': rng.choice([1, 2, 3]), 'seedHeap': rng.below(1 << 30)}


def sweep(rng, i):
    """one object, one parameter changed at a time (as a minimiser does when it computes derivatives), by large, small and tiny amounts"""
    ob = one(rng, i, 'a', 'fit' if rng.chance(0.3) else None); base = ob['pars'][0]; pars = [base]; ops = []
    other = [p for p in ob['pars'][1:]]; order = list(range(len(base))) * (2 if ob['cost'] < 500 and len(base) < 14 else 1); rng.shuffle(order)
    cur = list(base)
    for j in order[:26]:
        w = rng.below(4); cur = list(cur)
        if w < 2 and other: alt = rng.choice(other)[j]; cur[j] = alt if alt != cur[j] else cur[j] * 1.1
        elif w == 2: cur[j] *= 1 + rng.choice([1e-3, -1e-5, 1e-7])
        else: cur[j] *= rng.uni(0.8, 1.2)
        pars.append(cur)
    req = rng.choice(['img', 'img', 'stat', 'dev']) if ob['kind'] == 'fit' else 'img'
    if rng.chance(0.2): return dict(obj=[dict(ob, pars=pars)], ops=[('flux', 0, k, 9, 8) for k in range(len(pars))][:10])
    for k in range(len(pars)):
        ops.append((req, 0, k))
        if rng.chance(0.15) and k: ops.append((req, 0, rng.below(k)))
    return dict(obj=[dict(ob, pars=pars)], ops=ops)


def newline(k, o, g=0):
    kvs = lambda kv: ' '.join('%s=%s' % (a, b) if b != '' else a for a, b in kv.items())
    if o['kind'] == 'multi': return 'multi S%d %d\n' % (k, o['nim']) + '\n'.join(kvs(kv) for kv in o['kv'])
    return 'new S%d %s' % (k, kvs(o['kv']))


def lines(c, ops):
    """script text and, per answered request, its line number"""
    L = []; out = []; bs = {}
    used = sorted({q[1] for q in ops}); alive = set()
    for k in used:
        for j, p in enumerate(c['obj'][k]['pars']): L.append('par p%d_%d %s' % (k, j, ' '.join('%.17g' % v for v in p)))
    count = lambda: sum(x.count('\n') + 1 for x in L)
    for q in ops:
        k = q[1]
        if q[0] == 'renew':
            if k in alive: L.append('del S%d' % k); alive.discard(k)
            bs.pop(k, None)
        if k not in alive: L.append(newline(k, c['obj'][k])); alive.add(k)
        if q[0] == 'renew': continue
        if q[0] == 'usebs': L += ['seed %d' % q[2], 'usebs S%d' % k]; bs[k] = 1; continue
        if q[0] == 'sample': L += ['seed %d' % q[2], 'sample S%d' % k]; continue
        if q[0] == 'stopbs': L.append('stopbs S%d' % k); bs.pop(k, None); continue
        L.append('%s S%d p%d_%d %s' % (q[0], k, k, q[2], ' '.join(map(str, q[3:])) + (' b' if q[0] == 'dev' and k in bs else '')))
        out.append(count())
    return '\n'.join(L) + '\n', out


def run(c, ops, ctx):
    text, nums = lines(c, ops); files = {}
    for q in ops: files.update(c['obj'][q[1]]['files'])
    files['ops.txt'] = text.encode()
    r = ctx.run(spec('simlib', ['ops.txt'], files, heapFill=c['heap'], seedHeap=c['seedHeap'], stepLimit=STEPS))
    ans = {}
    for l in r.out.decode('latin1').split('\n'):
        w = l.split()
        if w and w[0] == 'R': ans[int(w[1])] = None if w[2] == 'none' else [float(x) for x in w[3:]]
        if w and w[0] == 'PARAMS-CHANGED': ans[('changed', int(w[1]))] = True
    return r, [ans.get(n) for n in nums], [('changed', n) in ans for n in nums]


def same(a, b, tol):
    if a is None or b is None or len(a) != len(b): return 'no answer' if a is None or b is None else 'lengths %d and %d' % (len(a), len(b))
    s = max([abs(x) for x in b if x == x and abs(x) != math.inf] + [0.0])
    for j, (x, y) in enumerate(zip(a, b)):
        if x == y or (x != x and y != y): continue
        if not (abs(x - y) <= tol * s): return 'value %d is %.12g, a fresh object gives %.12g' % (j, x, y)
    return None


def alone(c, i):
    """the shortest history that asks for the i-th request of a fresh object"""
    q = c['ops'][i]; k = q[1]; bs = None
    for z in c['ops'][:i]:
        if z[1] != k: continue
        if z[0] in ('usebs', 'sample'): bs = (z if z[0] == 'usebs' else ('usebs', k, None), z)
        elif z[0] in ('stopbs', 'renew'): bs = None
    pre = []
    if bs: pre = [('usebs', k, bs[1][2])]
    if q[0] == 'again': return pre + [('img', k, q[2])], q
    if q[0] == 'resid2': return pre + [('resid', k, q[2])], q
    return pre + [q], q


def execute(c, ctx):
    o = Outcome(); r, ans, chg = run(c, c['ops'], ctx)
    reqs = [i for i, q in enumerate(c['ops']) if q[0] not in ('renew', 'usebs', 'sample', 'stopbs')]
    if not (r.kind == 1 and r.code == 0 and b'END' in r.out):
        if r.kind == 4: o.probe('skipped: too long'); return o
        if r.kind == 1 and r.code == 9 and ans.count(None) == len(ans): o.probe('object refused by set-up'); return o
        o.bad('crash', 'the history ended with %s %s %s' % (r.how, r.note, r.err.decode('latin1')[-300:])); return o
    cache = {}; prev = {}
    for n, i in enumerate(reqs):
        q = c['ops'][i]; ob = c['obj'][q[1]]; ref, _ = alone(c, i); key = repr(ref)
        if key not in cache:
            rr, ra, _ = run(c, ref, ctx); cache[key] = ra[-1] if rr.kind == 1 and rr.code == 0 else 'failed'
        if cache[key] == 'failed': o.probe('request refused alone'); continue
        tags = ' '.join(sorted(set(ob['tags'])))
        o.key(ob['kind'], tags, q[0], prev.get(q[1], 'first')); o.probe('request ' + q[0])
        for f in ob['funcs']: o.probe('function ' + f)
        if q[0] in ('img', 'single', 'stat'): o.key(ob['funcs'], q[0], prev.get(q[1], 'first'))
        tol = 1e-11 if 'mlr' not in ob['tags'] and 'cash' not in ob['tags'] else 1e-6
        if q[0] in ('img', 'single', 'flux', 'again', 'resid', 'resid2', 'data'): tol = 1e-11
        e = same(ans[n], cache[key], tol)
        if chg[n]: o.bad('params:' + q[0], 'request %s changed the parameter vector it was given' % (q,)); return o
        if e: o.bad('%s:%s' % (q[0], ob['kind']), 'request %d (%s) on object %d (%s; %s) after %s: %s' % (n, ' '.join(map(str, q)), q[1], ob['kind'], tags + ' ' + ','.join(ob['funcs']), [' '.join(map(str, z)) for z in c['ops'][:i]][-6:], e)); return o
        prev[q[1]] = q[0]
    return o


def shrink(c):
    ops = c['ops']
    for n in (len(ops) // 2, len(ops) // 4, 4, 2, 1):
        for a in range(0, len(ops), max(1, n)):
            if n and n < len(ops): yield dict(c, ops=ops[:a] + ops[a + n:])
