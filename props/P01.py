"""P01: results do not depend on worker-thread schedule or thread count."""
import re
from frame import Outcome
from scen import *
ID = 'P01'
PROGS = ['makeimage', 'imfit', 'makeimage@0']
COUNT = {'quick': 1000, 'thorough': 20000}
RULE = ('Each case is a random model (all image functions, 1-3 function sets), image size, PSF / oversampled-PSF regions and output options; it is executed once single-threaded and then under '
        'several seeded schedules (serial, random preemption at memory accesses, round-robin, random run-to-completion, race-directed, random priorities) with 2-8 threads. '
        'A schedule counts as non-trivial and distinct when more than one thread took part and its complete switch sequence hashes differently.')
ASSUMPTIONS = ['Sequentially consistent interleavings at the granularity of instrumented memory accesses of imfit code; weak-memory effects and races inside third-party libraries are not explored.']


def describe(c): return '%s %s; %d schedules x %d threads' % (c['ref']['prog'], ' '.join(map(str, c['ref']['args'])), len(c['runs']), c['runs'][0]['cores'])


def sched(rng, cores):
    m = rng.choice([1, 1, 1, 2, 3, 4, 4, 5])
    return dict(schedMode=m, schedP=rng.choice([3, 10, 30, 100, 400, 2000]), seedSched=rng.u64() % (1 << 60))


def make(rng, i, tier, ctx):
    if i % 6 == 5: return make_fit(rng, i)
    nx, ny = rng.rng(4, 26), rng.rng(4, 26)
    if rng.chance(0.1): nx, ny = rng.choice([(1, 20), (20, 1), (2, 30), (33, 3)])
    usepsf = rng.chance(0.5); args = ['cfg.dat', '-o', 'out.fits']; files = {}
    names = list(FUNCS)
    first = names[(i - i // 6) % len(names)]           # walk through every function
    model = rand_model(rng, nx, ny, psf=usepsf or first in NEEDS_PSF, slow=rng.chance(0.15))
    usepsf = usepsf or first in NEEDS_PSF
    model[0]['f'][0] = rand_func(rng, first)
    if first in SLOW: nx, ny = min(nx, 9), min(ny, 9); model = [{'x0': 4.5, 'y0': 4.0, 'f': [model[0]['f'][0]]}]
    if usepsf:
        pn = rng.choice([3, 5, 6, 7]); files['psf.fits'] = psf_image(rng, pn, rng.choice([pn, 3, 5])); args += ['--psf', 'psf.fits']
        if any(f['name'] in NEEDS_PSF for s in model for f in s['f']):
            pn = rng.choice([7, 9]); files['psf.fits'] = psf_image(rng, pn, pn)
    over = 0
    if rng.chance(0.35) and nx >= 8 and ny >= 8 and first not in SLOW:
        for k in range(rng.choice([1, 1, 2])):
            x1, y1 = rng.rng(1, nx - 4), rng.rng(1, ny - 4); x2, y2 = min(nx, x1 + rng.rng(2, 6)), min(ny, y1 + rng.rng(2, 6)); sc = rng.choice([2, 3])
            files['opsf%d.fits' % k] = psf_image(rng, rng.choice([5, 7]), rng.choice([5, 7]))
            args += ['--overpsf', 'opsf%d.fits' % k, '--overpsf_scale', str(sc), '--overpsf_region', '%d:%d,%d:%d' % (x1, x2, y1, y2)]; over += 1
    if rng.chance(0.4): args += ['--output-functions', 'single']
    flux = 0
    if rng.chance(0.3):
        flux = rng.rng(3, 25) if first not in SLOW else 6
        args += ['--save-fluxes', 'fluxes.txt', '--estimation-size', str(flux)] + (['--zero-point', '25'] if rng.chance(0.5) else [])
    if rng.chance(0.2): args += ['--no-subsampling']
    files['cfg.dat'] = config(model, ['NCOLS %d' % nx, 'NROWS %d' % ny])
    cores = rng.choice([2, 2, 3, 4, 5, 8])
    runs = []
    for k in range(3):
        d = sched(rng, cores); d['cores'] = cores
        if rng.chance(0.3): d['threadLimit'] = rng.rng(1, cores)
        runs.append(d)
    mt = rng.choice([None, None, cores, max(1, cores - 1)])
    prog = 'makeimage@0' if rng.chance(0.4) else 'makeimage'
    return {'ref': spec(prog, args, files, heapFill=1, seedHeap=7), 'runs': runs, 'mt': mt, 'tags': ['psf%d' % usepsf, 'over%d' % over, 'flux%d' % (flux > 0), 'single%d' % ('single' in args), 'first:' + first]}


def make_fit(rng, i):
    sc = fit_scene(rng, nx=rng.rng(7, 12), ny=rng.rng(7, 12), allow=('mask', 'noise', 'psf', 'section', 'gain', 'fixed', 'model'), positive=rng.chance(0.4))
    args = [sc['image'], '-c', 'cfg.dat'] + sc['args']
    if rng.chance(0.5): args += ['--fitstat-only']
    else: args += ['--save-model', 'm.fits', '--save-residual', 'r.fits', '--save-weights', 'w.fits', '--ftol', '1e-5'] + (['--nm'] if rng.chance(0.1) else [])
    cores = rng.choice([2, 3, 4, 6])
    runs = [dict(sched(rng, cores), cores=cores) for k in range(2)]
    for d in runs:
        if d['schedMode'] in (1, 2): d['schedP'] = max(d['schedP'], 100)
    return {'ref': spec('imfit', args, sc['files'], heapFill=1, seedHeap=7), 'runs': runs, 'mt': None, 'tags': ['fit'] + sc['tags']}


def near(a, b, scale):
    if a != a and b != b: return True
    if a == b: return True
    return abs(a - b) <= 3e-6 * max(abs(a), abs(b)) + 2e-7 * scale


def close_img(a, b):
    A, B = read_fits(a), read_fits(b)
    if A[:2] != B[:2]: return 'dimensions %s vs %s' % (A[:2], B[:2])
    fin = [abs(v) for v in A[3] if v == v and abs(v) != float('inf')]; sc = max(fin) if fin else 0.0
    bad = [k for k in range(len(A[3])) if not near(A[3][k], B[3][k], sc)]
    if bad: k = bad[0]; return '%d of %d pixels differ, first (%d,%d): %r vs %r' % (len(bad), len(A[3]), k % A[0] + 1, k // A[0] + 1, A[3][k], B[3][k])
    return None


NUM = re.compile(r'[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf')


def close_text(a, b, rel):
    a, b = a.decode('latin1'), b.decode('latin1')
    if a == b: return None
    if NUM.sub('#', a) != NUM.sub('#', b): return 'text differs'
    for x, y in zip(NUM.findall(a), NUM.findall(b)):
        if x != y:
            fx, fy = float(x), float(y)
            if fx == fy or (fx != fx and fy != fy): continue
            d = len(x.split('e')[0].replace('.', '').lstrip('-0'))
            if abs(fx - fy) > rel * max(abs(fx), abs(fy)) + 1.01 * 10 ** (-max(0, len(x.split('e')[0].split('.')[1]) if '.' in x else 0)) * (10 ** int(x.split('e')[1]) if 'e' in x else 1): return '%s vs %s' % (x, y)
    return None


SKIP = re.compile(rb'^.*(Elapsed time|seconds|threads|Generated on|#    ).*$', re.M)


def compare(o, r0, r, what):
    if r.how != r0.how: o.bad('outcome:' + r.how.split()[0], '%s: single-threaded run: %s; this run: %s %s' % (what, r0.how, r.how, r.note)); return
    if sorted(r.files) != sorted(r0.files): o.bad('files', '%s: output files %s vs %s' % (what, sorted(r0.files), sorted(r.files))); return
    for n in r0.files:
        if n.startswith('/'): continue
        if is_image(n):
            d = close_img(r0.files[n], r.files[n]); kind = 'function-image' if n.startswith('single') else n.split('.')[0]
            if d: o.bad('image:' + kind, '%s: %s: %s' % (what, n, d))
        else:
            d = close_text(SKIP.sub(b'', r0.files[n]), SKIP.sub(b'', r.files[n]), 1e-5)
            if d: o.bad('table:' + n.split('.')[0], '%s: %s: %s' % (what, n, d))
    d = close_text(SKIP.sub(b'', r0.out), SKIP.sub(b'', r.out), 1e-5)
    if d: o.bad('stdout', '%s: standard output: %s' % (what, d))


def sensitive(c, ctx, r0):
    """whether the single-threaded fit itself amplifies differences of the size of rounding errors"""
    from core import Rng
    g = Rng(91)
    for _ in range(4):
        L = []
        for l in c['ref']['files']['cfg.dat'].decode().split('\n'):
            w = l.split()
            if len(w) > 1 and w[0] not in ('FUNCTION', '#') and re.match(r'[-+.\d]', w[1]): l = l.replace(w[1], repr(float(w[1]) * (1 + g.uni(-1, 1) * 1e-13)), 1)
            L.append(l)
        q = Outcome(); compare(q, r0, ctx.run(dict(c['ref'], files=dict(c['ref']['files'], **{'cfg.dat': '\n'.join(L).encode()}))), '')
        if q.v: return True
    return False


def execute(c, ctx):
    o = Outcome()
    r0 = ctx.run(c['ref'])
    for t in c['tags']: o.probe(t)
    if not r0.ok: o.probe('reference-run-failed'); return o
    for k, d in enumerate(c['runs']):
        s = dict(c['ref']); s['set'] = dict(s['set'], **d); s['args'] = s['args'] + (['--max-threads', str(c['mt'])] if c['mt'] else [])
        s['set']['stepLimit'] = r0.s['steps'] * 4 + 100000
        r = ctx.run(s)
        what = '%d threads, schedule mode %d seed %d' % (d['cores'], d['schedMode'], d['seedSched'])
        if r.s['maxTeam'] > 1: o.key(r.s['schedHash'])
        if r.s['races']: o.probe('unsynchronised conflicting accesses seen')
        if r.s['fftJobs']: o.probe('threaded FFT')
        r.out = re.sub(rb'', b'', r.out)
        compare(o, r0, r, what)
        if o.v and r.how == r0.how and c['ref']['prog'].startswith('imfit') and '--fitstat-only' not in c['ref']['args'] and sensitive(c, ctx, r0): o.v.clear(); o.probe('ill-conditioned fit'); break
        if o.v: break
    return o


def shrink(c):
    import copy
    if len(c['runs']) > 1:
        for k in range(len(c['runs'])): yield dict(c, runs=[c['runs'][k]])
        return
    d = c['runs'][0]
    for nc in (2, 3):
        if nc < d['cores']: yield dict(c, runs=[dict(d, cores=nc)], mt=None)
    for P in (2000, 400, 100, 30):
        if P > d['schedP']: yield dict(c, runs=[dict(d, schedP=P)])
    a = c['ref']['args']
    for opt, n in (('--save-fluxes', 4), ('--output-functions', 2), ('--overpsf', 6), ('--psf', 2), ('--no-subsampling', 1)):
        if opt in a:
            k = a.index(opt); yield dict(c, ref=dict(c['ref'], args=a[:k] + a[k + n:]))
