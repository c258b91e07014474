"""P09: bootstrap output accounts for exactly the resamples performed."""
import math, re, time
from frame import Outcome
from scenes import *
from multi import add_sections
from props.P02 import norm
import props.P11 as P11
ID = 'P09'
COUNT = {'quick': 330, 'thorough': 6000}
PROGS = ['imfit', 'multimfit', 'simlib']
RULE = ('Two kinds of case. (a) imfit / multimfit bootstrap runs (L-M and simplex resampling, all statistics, masks, noise maps, PSFs, image sections, fixed and limited parameters, 3-9 resamples), compared with the same fit without bootstrap, with more resamples, '
        'with other values in the masked pixels, and executed with an interrupt or refused allocations during resampling; rows, counts and the printed summary are cross-checked. (b) live model objects resampled 20-60 times through the library interface: '
        'every drawn deviate is traced back to its pixel. Distinct = (program or object kind, solver, features, variant, outcome).')
ASSUMPTIONS = ['Rows carry 10 significant digits, the summary 6.', 'A resample whose memory request is refused counts as unsuccessful.']
STEPS = 10**8
def plain(b): return re.sub(rb'(?m)^# +\w*fit .*\n', b'', norm(b), flags=re.I)     # the command line is quoted in the header


def describe(c):
    if c['kind'] == 'lib': return 'library resampling: %s, %d samples' % (' '.join(c['obj']['tags'] + c['obj']['funcs']), c['n'])
    return '%s %s; variants: %s' % (c['ref']['prog'], ' '.join(map(str, c['ref']['args'])), [v['kind'] for v in c['var']])


def without(args):
    a = list(args)
    for o in ('--bootstrap', '--save-bootstrap'):
        if o in a: k = a.index(o); del a[k:k + 2]
    return a


def make(rng, i, tier, ctx):
    if i % 5 == 4:
        while True:
            ob = P11.multi(rng, i, 'a') if rng.chance(0.25) else P11.one(rng, i, 'a', 'fit')
            if not {'cash'} & set(ob['tags']): break
        return {'kind': 'lib', 'obj': ob, 'n': rng.rng(20, 60), 'par': rng.below(len(ob['pars'])), 'seed': rng.rng(1, 10**6), 'heap': rng.choice([1, 2, 3]), 'seedHeap': rng.below(1 << 30)}
    if i % 5 == 3:
        sc = multimfit_scene(rng, boot=True)
        if rng.chance(0.6): add_sections(rng, sc)
    else: sc = imfit_scene(rng, solver=rng.choice(['lm', 'lm', 'lm', 'nm', 'SBPLX', 'NM']), boot=False)
    a = without(sc['args']); n = rng.rng(3, 9)
    for q in ('--quiet', '--silent', '--loud'):
        if q in a: a.remove(q)
    s = spec(sc['prog'], a + ['--bootstrap', str(n), '--save-bootstrap', 'boot.txt'], sc['files'], heapFill=rng.choice([1, 2, 3]), seedHeap=rng.below(1 << 30), stepLimit=STEPS)
    t0 = time.time(); r0 = ctx.run(dict(s, args=a)); r1 = ctx.run(s)
    if time.time() - t0 > 1.5 or r0.kind != 1 or r0.code or r1.kind == 4: return None
    var = []
    opts = ['more', 'sigint', 'sigint', 'alloc', 'alloc']
    if sc.get('scene') and sc['scene']['mask'] and any(sc['scene']['mask']): opts += ['masked'] * 3
    for _ in range(2 if tier == 'quick' else 4):
        k = rng.choice(opts); v = {'kind': k}
        if k == 'more': v['n'] = n + rng.rng(1, 4)
        elif k == 'sigint': v['set'] = {'sigStep': rng.rng(r0.s['steps'], max(r1.s['steps'], r0.s['steps'] + 1))}
        elif k == 'alloc':
            sz = rng.choice([200, 400, 800, 2000]); ru = rule('ALLOC', '*', 10**9, 'NULL', 12, 0, arg=sz)
            n0 = ctx.run(dict(s, args=a, rules=[ru])).rulecounts[0][0]; n1 = ctx.run(dict(s, rules=[ru])).rulecounts[0][0]
            if n1 <= n0: continue
            v['rules'] = [rule('ALLOC', '*', rng.rng(n0, n1), 'NULL', 12, rng.below(2) if rng.chance(0.3) else 0, arg=sz) for _ in range(rng.choice([1, 1, 2]))]
        elif k == 'masked':
            m, d = sc['scene']['mask'], list(sc['scene']['data'])
            for j in range(len(d)):
                if m[j] and math.isfinite(d[j]): d[j] = rng.choice([3e5, -7.0, 12.5, 0.0, 1.0])
            v['data'] = fits(d, sc['scene']['nx'], sc['scene']['ny'])
        var.append(v)
    return {'kind': 'run', 'ref': s, 'base': a, 'n': n, 'var': var, 'tags': sc['tags'], 'outs': {k: v for k, v in sc['outs'].items() if v != 'bootstrap'}, 'P': sc['scene']['P'] if sc.get('scene') else None}


SUM = re.compile(r'^(\S+) = (%s)  \+(%s), -(%s)    \[(%s) -- (%s), (%s)\];  \((%s) \+/- (%s)\)$' % ((FLOAT,) * 8)); FIX = re.compile(r'^(\S+) = (%s)     \[fixed parameter\]$' % FLOAT)


def summary(out):
    t = out.decode('latin1'); m = re.search(r'\((\d+) successful iterations\)', t); f = re.search(r'Not enough successful bootstrap iterations \((-?\d+)\)', t)
    if f: return int(f.group(1)), None
    if not m: return None, None
    rows = []
    for l in t[m.end():].split('\n'):
        g = SUM.match(l)
        if g: rows.append([g.group(1), False] + [float(x) for x in g.groups()[1:]]); continue
        g = FIX.match(l)
        if g: rows.append([g.group(1), True, float(g.group(2))])
        elif rows and (l.startswith('Saving') or l.startswith('Bootstrap-resampling')): break
    return int(m.group(1)), rows


def interval(v):
    v = sorted(v); n = len(v); rnd = lambda x: int(math.floor(x + 0.5))
    lo, hi = max(rnd(0.1585 * n) - 1, 0), min(rnd(0.8415 * n), n - 1)
    return v[lo], v[hi]


def near(a, b, scale=0.0, tol=2e-5): return a == b or (a != a and b != b) or abs(a - b) <= tol * max(abs(a), abs(b)) + 3e-9 * scale + 1e-300


def best(c, files):
    """best-fit values in the order of the bootstrap columns"""
    p = c['ref']['prog']
    if p == 'imfit':
        f = [k for k, v in c['outs'].items() if v == 'params'][0]
        pl, _ = parse_params(files.get(f, b'')); return [(n, v, fl) for n, v, fl in pl if v is not None] if pl else None
    f = [k for k in c['outs'] if k.endswith('_summary.dat')]       # multimfit: image-description parameters of the further images come first in rows and summary
    if not f: return None
    ref, im, cur = [], [], None
    for l in files.get(f[0], b'').decode('latin1').split('\n'):
        if l.startswith('# Main model'): cur = ref
        elif l.startswith('# Image-description'): cur = im
        w = l.split('#')[0].split()
        if cur is not None and len(w) == 2 and w[0] != 'FUNCTION': cur.append((w[0], float(w[1]), None))
    return im + ref


def check_rows(o, c, r, what, r0):
    """internal consistency of one run; returns rows (lists of strings) or None"""
    n, rows = summary(r.out); b = r.files.get('boot.txt')
    if n is None: o.bad('no-summary', '%s: the run does not say how many iterations succeeded' % what); return None
    if b is None: o.bad('no-file', '%s: no bootstrap file' % what); return None
    data, tail = data_rows(b); R = [l.split() for l in data]
    if tail: o.bad('torn', '%s: incomplete last row %r' % (what, tail)); return None
    if len(R) != max(n, 0): o.bad('count', '%s: %d rows stored, %d successful iterations reported' % (what, len(R), n)); return None
    try: V = [[float(x) for x in w] for w in R]
    except ValueError: o.bad('shape', '%s: row is not numeric' % what); return None
    bf = best(c, r.files); P = c['P']; head = [l for l in b.decode('latin1').split('\n') if l.startswith('#')][-1].split()[1:]
    if any(len(w) != len(head) for w in R): o.bad('shape', '%s: rows of %s values under %d column names' % (what, sorted({len(w) for w in R}), len(head))); return None
    if bf is not None and len(head) != len(bf): o.bad('shape', '%s: %d columns for %d parameters' % (what, len(head), len(bf))); return None
    if P:
        for w in V:
            for p, x, z in zip(P, w, head):
                e = 2e-9 * max(abs(x), 1)
                if p['mode'] == 'fixed' and abs(x - p['v']) > e: o.bad('fixed', '%s: fixed parameter %s is %.10g in a row, %g in the configuration' % (what, z, x, p['v'])); return None
                if p['mode'] in ('lim', 'onlim') and not (p['lo'] - e <= x <= p['hi'] + e): o.bad('limits', '%s: %s = %.10g in a row, limits %g,%g' % (what, z, x, p['lo'], p['hi'])); return None
    if rows is not None:
        if len(rows) != len(head): o.bad('summary-shape', '%s: summary of %d parameters, %d columns stored' % (what, len(rows), len(head))); return None
        for j, s in enumerate(rows):
            col = [w[j] for w in V]; sc = max(abs(x) for x in col)
            if bf is not None:
                if s[0] != bf[j][0]: o.bad('summary-names', '%s: summary line %d is for %s, best-fit parameter is %s' % (what, j, s[0], bf[j][0])); return None
                if abs(s[2] - bf[j][1]) > 6e-5 + 2e-5 * abs(s[2]): o.bad('summary-best', '%s: summary gives best-fit %s = %g, the best-fit file %g' % (what, s[0], s[2], bf[j][1])); return None
            if s[1]:
                if P and P[j]['mode'] != 'fixed': o.bad('summary-fixed', '%s: %s is not fixed' % (what, s[0])); return None
                continue
            mean = sum(col) / len(col); sd = math.sqrt(sum((x - mean) ** 2 for x in col) / (len(col) - 1)); lo, hi = interval(col)
            got = s[3:]
            for nm, g, x in (('interval start', s[5], lo), ('interval end', s[6], hi), ('half-width', s[7], (hi - lo) / 2), ('mean', s[8], mean), ('standard deviation', s[9], sd)):
                if not near(g, x, sc * 3): o.bad('summary:%s' % nm, '%s: %s of %s (%s) is printed as %g, the %d stored rows give %.8g' % (what, nm, s[0], head[j], g, len(col), x)); return None
            for nm, g, x in (('+', s[3], hi - s[2]), ('-', s[4], s[2] - lo)):
                if abs(g - x) > 2e-5 * max(abs(s[2]), abs(hi), abs(lo)) + 1e-12: o.bad('summary:plusminus', '%s: %s%s is printed as %g, rows and best fit give %.8g' % (what, nm, s[0], g, x)); return None
    o.probe('rows verified', len(R))
    return R


def execute(c, ctx):
    return lib(c, ctx) if c['kind'] == 'lib' else runs(c, ctx)


def runs(c, ctx):
    o = Outcome(); s = c['ref']; prog = s['prog']; tg = ' '.join(sorted(set(c['tags'])))
    r0 = ctx.run(dict(s, args=c['base'])); r1 = ctx.run(s)
    if r0.kind == 4 or r1.kind == 4: o.probe('skipped: too long'); return o
    if not r0.ok: o.probe('fit refused'); return o
    for t in c['tags']: o.probe(t)
    if not r1.ok: o.bad('failed', 'the fit succeeds, with bootstrap it ends with %s %s %s' % (r1.how, r1.note, r1.err.decode('latin1')[-300:])); return o
    R = check_rows(o, c, r1, 'plain run', r0)
    if R is None: return o
    o.key(prog, tg, 'plain', len(R) == c['n'])
    if len(R) < c['n']: o.probe('resample without success')
    if len({' '.join(w) for w in R}) < len(R): o.probe('identical rows')
    for f in sorted(c['outs']):      # bootstrap never alters the fit's own outputs
        if plain(r0.files.get(f, b'')) != plain(r1.files.get(f, b'')): o.bad('altered:%s' % c['outs'][f], '%s differs from the run without bootstrap' % f); return o
    a, b = stat_from_stdout(r0.out), stat_from_stdout(r1.out)
    if a != b and not (a is not None and b is not None and a != a and b != b): o.bad('altered:statistic', 'printed statistic %s, without bootstrap %s' % (b, a)); return o
    for v in c['var']:
        k = v['kind']; q = dict(s)
        if k == 'more': a = list(s['args']); a[a.index('--bootstrap') + 1] = str(v['n']); q['args'] = a
        elif k == 'sigint': q['set'] = dict(s['set'], **v['set'])
        elif k == 'alloc': q['rules'] = v['rules']
        elif k == 'masked': q['files'] = dict(s['files'], **{'data.fits': v['data']})
        r = ctx.run(q); o.key(prog, tg, k, r.how.split()[0])
        if not r.ok:
            o.probe('%s: ended with %s' % (k, r.how))
            if r.kind == 4: o.probe('longer than the step limit'); continue
            if k in ('more', 'masked'): o.bad('failed:' + k, 'variant %s ended with %s %s' % (k, r.how, r.err.decode('latin1')[-300:])); return o
            continue
        if summary(r.out)[0] is None and k in ('sigint', 'alloc'): o.probe('%s: no resampling' % k); continue       # interrupted before resampling began, or resampling refused
        T = check_rows(o, c, r, k, r0)
        if T is None: return o
        if k == 'more':
            if T[:len(R)] != R: o.bad('history', 'the first %d rows of a run with %d resamples differ from those of a run with %d' % (len(R), v['n'], c['n'])); return o
        elif k == 'sigint':
            o.probe('interrupted after %s' % ('all' if len(T) == len(R) else 'some' if T else 'none'))
            if T != R[:len(T)]: o.bad('interrupted-row', 'after an interrupt at step %d the stored rows %s are not those of completed resamples %s' % (v['set']['sigStep'], T, R)); return o
        elif k == 'alloc':
            fired = sum(f for _, f in r.rulecounts); it = iter(R)
            o.probe('refused allocations: %s lost' % ('rows' if len(T) < len(R) else 'no rows'))
            if not all(any(w == x for x in it) for w in T): o.bad('refused-row', 'after %d refused allocations the stored rows are not a sub-sequence of the successful ones: %s vs %s' % (fired, T, R)); return o
        elif k == 'masked':
            for f in sorted(c['outs']):
                if c['outs'][f] not in ('residual',) and plain(r.files.get(f, b'')) != plain(r1.files.get(f, b'')): o.probe('masked pixels influence %s' % c['outs'][f])
            if T != R: o.bad('masked', 'changing the values of masked pixels changes the resampled parameters: %s -> %s' % (R, T)); return o
    return o


def lib(c, ctx):
    o = Outcome(); ob = c['obj']; k = 0; N = c['n']; p = c['par']
    L = ['par p %s' % ' '.join('%.17g' % v for v in ob['pars'][p]), 'par p2 %s' % ' '.join('%.17g' % v for v in ob['pars'][(p + 1) % len(ob['pars'])]), P11.newline(0, ob), 'info S0', 'dev S0 p', 'stat S0 p', 'seed %d' % c['seed'], 'usebs S0']
    for j in range(N):
        if j: L.append('sample S0')
        L += ['dev S0 p b', 'stat S0 p'] + (['stat S0 p2', 'dev S0 p b'] if j % 7 == 3 else [])
    L += ['stopbs S0', 'dev S0 p', 'stat S0 p']
    r = ctx.run(spec('simlib', ['ops.txt'], dict(ob['files'], **{'ops.txt': ('\n'.join(L) + '\n').encode()}), heapFill=c['heap'], seedHeap=c['seedHeap'], stepLimit=STEPS))
    if not (r.kind == 1 and r.code == 0 and b'END' in r.out):
        if r.kind == 1 and r.code == 9 or r.kind == 4: o.probe('object refused by set-up'); return o
        o.bad('lib-crash', 'resampling ended with %s %s' % (r.how, r.err.decode('latin1')[-300:])); return o
    A = []
    for l in r.out.decode('latin1').split('\n'):
        w = l.split()
        if w and w[0] == 'R': A.append([float(x) for x in w[3:]])
    info, dev, stat = A[0], A[1], A[2][0]; ndata, nvalid = int(info[2]), int(info[3]); tags = ' '.join(sorted(set(ob['tags'])))
    chi = 'mlr' not in ob['tags']; tol = 1e-9 if chi else 2e-4
    o.key('lib', ob['kind'], tags, ndata == nvalid)
    # which pixels are unmasked: those whose weight is not zero
    masked = set(); off = 0; bounds = []
    for kv in (ob['kv'] if ob['kind'] == 'multi' else [ob['kv']]):
        n = int(kv['nx']) * int(kv['ny']); bounds.append((off, off + n))
        if 'mask' in kv:
            _, _, _, m, _ = read_fits(ob['files'][kv['mask']])
            masked |= {off + j for j, x in enumerate(m) if x > 0}
        off += n
    if off != len(dev) or nvalid != off - len(masked): o.bad('lib-count', '%d deviates, %d valid pixels for %d pixels of which %d are masked' % (len(dev), nvalid, off, len(masked))); return o
    good = [j for j in range(off) if j not in masked]
    groups = [[j for j in good if a <= j < b] for a, b in bounds]; scale = max(abs(x) for x in dev) or 1.0
    if dev != dev or any(x != x for x in dev): o.probe('lib: NaN deviates'); return o
    cnt = {j: 0 for j in good}; q = 3; prev = None
    import bisect
    srt = [sorted((dev[j], j) for j in g) for g in groups]
    for t in range(N):
        bd, bst = A[q], A[q + 1][0]; q += 2
        if len(bd) != nvalid: o.bad('lib-size', 'a resample holds %d values for %d valid pixels' % (len(bd), nvalid)); return o
        pos = 0
        for g, sg in zip(groups, srt):
            keys = [x for x, _ in sg]
            for x in bd[pos:pos + len(g)]:
                z = bisect.bisect_left(keys, x - tol * scale)
                if z >= len(sg) or abs(keys[z] - x) > tol * scale: o.bad('lib-foreign', 'resample %d contains deviate %.12g, which no unmasked pixel (of that image) has' % (t, x)); return o
                hit = [sg[z][1]]; z += 1
                while z < len(sg) and abs(keys[z] - x) <= tol * scale: hit.append(sg[z][1]); z += 1
                for h in hit: cnt[h] += 1.0 / len(hit)
            pos += len(g)
        want = sum(x * x for x in bd)
        if not (abs(want - bst) <= (1e-9 if chi else 1e-5) * abs(want) + (0 if chi else 1e-5 * scale * scale * len(bd))): o.bad('lib-stat', 'statistic of resample %d is %.12g, its deviates give %.12g' % (t, bst, want)); return o
        if bd == prev and nvalid > 8: o.bad('lib-same', 'resample %d is identical to the one before it' % t); return o
        prev = bd
        if t % 7 == 3:
            if A[q + 1] != bd: o.bad('lib-drift', 'resample %d changed although no new one was made' % t); return o
            q += 2
    for g in groups:       # with replacement, uniformly: each pixel is drawn about N times
        for j in g:
            if abs(cnt[j] - N) > 7.5 * math.sqrt(N) + 3: o.bad('lib-uniform', 'in %d resamples of %d pixels pixel %d was drawn %g times' % (N, len(g), j, cnt[j])); return o
    if nvalid > 30:
        o.probe('lib: draws traced', N * nvalid)
    d2, s2 = A[q], A[q + 1][0]
    if any(abs(x - y) > 1e-11 * scale for x, y in zip(d2, dev)) or abs(s2 - stat) > 1e-11 * abs(stat): o.bad('lib-after', 'after resampling the statistic is %.12g, before it was %.12g' % (s2, stat)); return o
    return o


def shrink(c):
    if c['kind'] == 'lib':
        for n in (c['n'] // 2, 3, 1):
            if 0 < n < c['n']: yield dict(c, n=n)
        return
    for v in c['var']:
        if len(c['var']) > 1: yield dict(c, var=[v])
