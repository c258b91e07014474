"""P14: equivalent requests give equal answers: the programs agree about the same model."""
import math, re
from frame import Outcome
from scenes import *
ID = 'P14'
COUNT = {'quick': 2700, 'thorough': 30000}
PROGS = ['makeimage', 'imfit', 'makemultimages', 'multimfit']
RULE = ('Each case states one request in two or more ways - makeimage against the model saved by imfit; the total against the sum of the component images and each component against its own model; an image section against a mask over the rest of the full image; different spellings of options, '
        'noise, masks and configuration text; permuted and split function sets; every image of makemultimages against makeimage with the parameters converted by hand; multimfit against its own per-image parameter files and against imfit on each image - and runs every one under its own seeded environment '
        '(heap fill, 1-4 worker threads under a seeded schedule, interrupted and short reads). The answers must be equal. Distinct = (kind, features, threads, heap fill).')
ASSUMPTIONS = ['Where two routes compute the same coordinate or parameter by different arithmetic, differences as large as those caused by moving every number of the configuration by 1e-9 are accepted (pixel subsampling switches at thresholds).']
STEPS = 3 * 10**8
LENGTHS = {'h', 'h1', 'h2', 'r_break', 'h_z', 'z_0', 'r_e', 'r_b', 'r', 'sigma', 'sigma_r', 'sigma_z', 'sigma_r_in', 'sigma_r_out', 'R_ring', 'a_ring', 'a_bar', 'R_bar', 'R_bar_x', 'R_peanut', 'A_peanut', 'sigma_peanut', 'r_c', 'r_t', 'fwhm'}
LEVELS = {'I_0', 'I_e', 'I_b', 'I_sky', 'I_tot', 'A', 'A_maj', 'J_0', 'J0_bar', 'L_0'}
BROKEN = {'BrokenExponential', 'BrokenExponential2D', 'BrokenExponentialDisk3D', 'FlatBar'}


def describe(c): return '%s (%s): ' % (c['kind'], ', '.join(c['tags'])) + ' | '.join('%s %s' % (s['prog'], ' '.join(map(str, s['args']))) for s in c['runs'])


def env(rng):
    th = rng.choice([1, 1, 2, 3, 4]); kw = dict(heapFill=rng.choice([0, 1, 2, 3, 4, 5]), seedHeap=rng.below(1 << 30), seedEntropy=rng.below(1 << 30), cores=th, stepLimit=STEPS, accLimit=STEPS)
    if th > 1: kw.update(schedMode=rng.choice([0, 1, 2, 3, 5]), schedP=rng.choice([20, 200, 2000]), seedSched=rng.below(1 << 40))
    if rng.chance(0.3): kw['rules'] = [rule('READ', '*', rng.rng(1, 4), 'SHORT', persistent=1, arg=rng.rng(1, 4000))]
    return kw


def run(rng, prog, args, files, **kw):
    e = env(rng)
    if rng.chance(0.6) and '--max-threads' not in args: args = args + ['--max-threads', str(e['cores'])]
    return spec(prog, args, files, **dict(e, **kw))


def precise(model, head=(), lim=None):
    """configuration with all digits"""
    L = list(head)
    for s in model:
        L += ['X0 %r%s' % (s['x0'], lim or ''), 'Y0 %r%s' % (s['y0'], lim or '')]
        for f in s['f']:
            L.append('FUNCTION ' + f['name']); L += ['%s %r%s' % (n, v, lim or '') for (n, _, _), v in zip(FUNCS[f['name']], f['p'])]
            if f.get('opt'): L += ['OPTIONAL_PARAMS_START'] + ['%s %s' % kv for kv in f['opt'].items()] + ['OPTIONAL_PARAMS_END']
    return ('\n'.join(L) + '\n').encode()


def conv(model, ps, pa, fs, x0=None, y0=None):
    """the model as it applies to an image whose pixels are ps reference pixels, rotated by pa, with intensities times fs; first set at x0,y0"""
    out = []; t = math.radians(-pa); c, s = math.cos(t), math.sin(t)
    for m in model:
        if not out: p = {'x0': m['x0'] if x0 is None else x0, 'y0': m['y0'] if y0 is None else y0}
        else:
            dx, dy = m['x0'] - model[0]['x0'], m['y0'] - model[0]['y0']
            p = {'x0': out[0]['x0'] + (dx * c - dy * s) / ps, 'y0': out[0]['y0'] + (dx * s + dy * c) / ps}
        p['f'] = []
        for f in m['f']:
            q = []
            for (n, _, _), v in zip(FUNCS[f['name']], f['p']):
                if n in ('PA', 'PA_lon'): v = v - pa
                elif n in LEVELS: v *= fs
                elif n in LENGTHS: v /= ps
                elif n == 'alpha' and f['name'] in BROKEN: v *= ps
                q.append(v)
            if f['name'] == 'TiltedSkyPlane':
                a, b = f['p'][1:]; q[1], q[2] = (a * c - b * s) * fs * ps, (a * s + b * c) * fs * ps
            p['f'].append(dict(f, p=q))
        out.append(p)
    return out


def strip(a, opts):
    out = []; skip = 0
    for x in a:
        if skip: skip -= 1
        elif x in opts: skip = opts[x]
        else: out.append(x)
    return out


MKOUT = {'-o': 1, '--output-functions': 1, '--estimation-size': 1, '--zero-point': 1, '--save-fluxes': 1, '--print-fluxes': 0, '--nosave': 0, '--save-expanded': 0, '--refimage': 1, '--ncols': 1, '--nrows': 1, '--debug': 1, '--max-threads': 1}


def base(rng, i, **kw):
    """a makeimage scene: its model, size, PSF options and files"""
    names = list(FUNCS); sc = makeimage_scene(rng, i, first=names[(i // 7) % len(names)] if rng.chance(0.6) else None, **kw)
    cfg = sc['files']['cfg.dat'].decode(); m = [re.search(r'(?m)^%s\s+(\d+)' % k, cfg) for k in ('NCOLS', 'NROWS')]; a = sc['args']
    if m[0]: nx, ny = int(m[0].group(1)), int(m[1].group(1))
    elif '--ncols' in a: nx, ny = int(a[a.index('--ncols') + 1]), int(a[a.index('--nrows') + 1])
    else: nx, ny = read_fits(sc['files']['ref.fits'])[:2]
    if any(f['name'] in NEEDS_PSF for s in sc['model'] for f in s['f']) and rng.chance(0.5): rng.choice(sc['model'])['f'].append(rand_func(rng, rng.choice(sorted(NEEDS_PSF))))
    args = strip(a, MKOUT)[1:]; files = {k: v for k, v in sc['files'].items() if k.startswith(('psf', 'opsf'))}
    return sc['model'], nx, ny, args, files, [t for t in sc['tags'] if t in ('psf', 'over', '3d')]


def mk(rng, model, nx, ny, args, files, out='out.fits', cfg=None):
    """makeimage, with the size given in one of the possible ways"""
    f = dict(files); a = ['cfg.dat'] + args + ['-o', out]; how = rng.below(4); head = []
    if how == 0: head = ['NCOLS %d' % nx, 'NROWS %d' % ny]
    elif how == 1: a += ['--ncols=%d' % nx, '--nrows=%d' % ny]
    elif how == 2: a += ['--ncols', str(nx), '--nrows', str(ny)]; head = ['NCOLS %d' % (nx + 3), 'NROWS %d' % (ny + 1)] if rng.chance(0.3) else []
    else: f['ref.fits'] = fits([float('nan') if rng.chance(0.1) else 1.0] * (nx * ny), nx, ny, rng.choice([-32, -64])); a += ['--refimage', 'ref.fits']
    f['cfg.dat'] = cfg if cfg is not None else precise(model, head)
    if cfg is not None and head: f['cfg.dat'] = ('\n'.join(head) + '\n').encode() + cfg
    return run(rng, 'makeimage', a, f)


def make(rng, i, tier, ctx):
    k = i % 9
    if k == 0: return routes(rng, i)
    if k == 1: return components(rng, i)
    if k == 2: return sections(rng, i)
    if k == 3: return spellings(rng, i)
    if k == 4: return multi_images(rng, i)
    if k == 5: return order(rng, i)
    if k == 6: return multi_stat(rng, i)
    return refeed(rng, i, k == 8)


def refeed(rng, i, multi):
    """the saved parameters given to makeimage reproduce the saved model"""
    if not multi:
        over = rng.chance(0.25); sc = imfit_scene(rng, solver=rng.choice(['lm', 'lm', 'nm', 'BOBYQA', 'NM']), boot=False); a = list(sc['args']) + (['--nm'] if 'cash' in sc['tags'] and 'lm' in sc['tags'] else []); s = sc['scene']; nx, ny = s['nx'], s['ny']
        if s['sec'] != [1, 1, nx, ny] and '--overpsf' in a: return None
        for o, f in (('--save-params', 'best.dat'), ('--save-model', 'm.fits')):
            if o in a: a[a.index(o) + 1] = f
            else: a += [o, f]
        b = []; k = 1
        while k < len(a):
            if a[k] in ('--psf', '--overpsf', '--overpsf_scale', '--overpsf_region'): b += a[k:k + 2]; k += 1
            elif a[k] in ('--no-normalize', '--no-subsampling'): b.append(a[k])
            k += 1
        feed = [['best.dat', 'm.fits', s['sec'], b, nx, ny]]
        return {'kind': 'refeed', 'tags': sc['tags'], 'runs': [run(rng, 'imfit', a, sc['files'])], 'feed': feed, 'env': env(rng)}
    sc = multi_scene(rng); L = sc['files']['info.dat'].decode().split('\n'); feed = []; k = -1
    for l in L:
        w = l.split()
        if l.startswith('IMAGE_START'): k += 1; feed.append(['best_image%d.dat' % (k + 1) if k else 'best_refimage.dat', 'fit_%d.fits' % k, [1, 1] + list(sc['dims'][k]), [], *sc['dims'][k]])
        elif w[:1] == ['PIXEL_SCALE'] and rng.chance(0.6): L[L.index(l)] = '@PIXEL_SCALE %s fixed' % num(rng.uni(0.8, 1.25))
        o = {'PSF': '--psf', 'OVERSAMPLED_PSF': '--overpsf', 'OVERSAMPLE_SCALE': '--overpsf_scale', 'OVERSAMPLED_REGION': '--overpsf_region'}.get(w[0] if w else '')
        if o: feed[k][3] += [o, w[1]]
    L = [l.lstrip('@') if not l.startswith('IMAGE_PA') or rng.chance(0.4) else 'IMAGE_PA %s fixed' % num(rng.uni(-30, 30)) for l in L]
    f = dict(sc['files'], **{'info.dat': '\n'.join(L).encode()})
    a = ['-c', 'cfg.dat', '--image-info', 'info.dat'] + rng.choice([[], ['--nm']]) + ['--save-model', 'fit', '--save-params-root', 'best', '--ftol', rng.choice(['1e-2', '1e-4'])]
    if rng.chance(0.3): a.append('--fitstat-only')
    return {'kind': 'refeed', 'tags': ['multi'] + sorted(set(sc['tags'])), 'runs': [run(rng, 'multimfit', a, f)], 'feed': feed, 'env': env(rng)}


def x_refeed(o, c, ctx, R):
    r = R[0]; e = dict(c['env'])
    for par, img, box, args, nx, ny in c['feed']:
        if par not in r.files or img not in r.files: o.bad('missing', '%s or %s was not written' % (par, img)); return
        nsk = [x for x in args]; m = spec('makeimage', [par] + nsk + ['-o', 'out.fits', '--ncols', str(nx), '--nrows', str(ny)], dict({k: v for k, v in c['runs'][0]['files'].items() if k.endswith('.fits')}, **{par: r.files[par]}), **e)
        q = ctx.run(m)
        if q.kind in (4, 6, 20): o.probe('cut off'); return
        if not q.ok or 'out.fits' not in q.files: o.bad('refused', 'makeimage does not accept %s: %s %s' % (par, q.how, q.err.decode('latin1')[-200:])); return
        a = read_fits(r.files[img])[3]; full = read_fits(q.files['out.fits'])[3]; cut = lambda v: [v[(y - 1) * nx + x - 1] for y in range(box[1], box[3] + 1) for x in range(box[0], box[2] + 1)]; b = cut(full)
        if len(a) != len(b): o.bad('refeed:size', '%s has %d pixels instead of %d' % (img, len(a), len(b))); return
        sc = max(abs(x) for x in b)
        if not all(map(math.isfinite, a)) or not math.isfinite(sc): o.probe('not finite'); continue
        slack = [0.0] * len(b); L = r.files[par].decode().split('\n')
        for n, l in enumerate(L):
            w = l.split('#')[0].split()
            if len(w) < 2 or not re.match(r'^%s$' % FLOAT, w[1]): continue
            v = float(w[1]); d = 0.5e-4 if w[0] in ('X0', 'Y0') else 0.5e-6 * abs(v) if v == 0 else 0.5 * 10.0 ** (math.floor(math.log10(abs(v))) - 5)
            if d == 0: continue
            best = [0.0] * len(b)
            for sgn in (-1, 1):
                t = ctx.run(dict(m, files=dict(m['files'], **{par: '\n'.join(L[:n] + ['%s %r' % (w[0], v + sgn * d)] + L[n + 1:]).encode()})))
                if t.ok and 'out.fits' in t.files: best = [max(x, abs(y - z)) for x, y, z in zip(best, cut(read_fits(t.files['out.fits'])[3]), b)]
            slack = [x + y for x, y in zip(slack, best)]
        for k, (x, y) in enumerate(zip(a, b)):
            if not abs(x - y) <= 1e-5 * abs(x) + 1e-7 * sc + 1.5 * slack[k]: o.bad('refeed:%s' % ('multi' if 'multi' in c['tags'] else 'imfit'), '%s made from %s: pixel %d is %.9g, in %s %.9g (rounding of the parameters explains %.2g)' % ('model', par, k, y, img, x, slack[k])); return
        o.probe('saved parameters give the saved model')


def routes(rng, i):
    model, nx, ny, args, files, tags = base(rng, i)
    f = dict(files, **{'cfg.dat': precise(model, lim=rng.choice(['', '', ' fixed'])), 'data.fits': fits([rng.uni(1, 200) for _ in range(nx * ny)], nx, ny, rng.choice([-32, -64]))})
    a = ['data.fits', '-c', 'cfg.dat'] + args + rng.choice([['--fitstat-only'], ['--chisquare-only']]) + ['--save-model', 'm.fits', '--nm']
    return {'kind': 'routes', 'tags': tags, 'runs': [mk(rng, model, nx, ny, args, files), mk(rng, model, nx, ny, args, files, out='b.fits'), run(rng, 'imfit', a, f)], 'files': ['out.fits', 'b.fits', 'm.fits'], 'size': [nx, ny]}


def components(rng, i):
    model, nx, ny, args, files, tags = base(rng, i); fl = rng.rng(3, 14) if '3d' not in tags else 5; zp = rng.choice([None, 25.0, 20.5])
    runs = [mk(rng, model, nx, ny, args + ['--output-functions', 'single', '--save-fluxes', 'fl.txt', '--estimation-size', str(fl)] + (['--zero-point', str(zp)] if zp else []), files)]; names = []; n = 0
    for s in model:
        for f in s['f']:
            n += 1; names.append('single%d_%s.fits' % (n, f['name']))
            if n <= 3: runs.append(mk(rng, [dict(s, f=[f])], nx, ny, args, files))
    return {'kind': 'components', 'tags': tags + ['%d functions' % n], 'runs': runs, 'files': names, 'size': [nx, ny], 'zp': zp}


def sections(rng, i):
    """part of an image: as a section, or as the full image with everything else masked, or cut out by hand"""
    sc = fit_scene(rng, nx=rng.rng(12, 20), ny=rng.rng(12, 20), positive=rng.chance(0.3), allow=('mask', 'noise', 'gain', 'model', 'nonfinite')); nx, ny = sc['nx'], sc['ny']; d = sc['data']
    x1, x2 = sorted([rng.rng(1, nx), rng.rng(1, nx)]); y1, y2 = sorted([rng.rng(1, ny), rng.rng(1, ny)])
    if rng.chance(0.15): x1, x2 = 1, nx
    if rng.chance(0.15): y1, y2 = 1, ny
    if x2 - x1 < 4: x1, x2 = 2, nx - 2
    if y2 - y1 < 4: y1, y2 = 3, ny - 1
    sec = '[%d:%d,%d:%d]' % (x1, x2, y1, y2); cut = lambda v: [v[(y - 1) * nx + x - 1] for y in range(y1, y2 + 1) for x in range(x1, x2 + 1)]; w, h = x2 - x1 + 1, y2 - y1 + 1
    if rng.chance(0.4): sec = '[%s,%s]' % tuple('*' if z == '1:%d' % n else z for z, n in zip(sec[1:-1].split(','), (nx, ny)))
    a = ['-c', 'cfg.dat'] + strip(sc['args'], {'--mask': 1, '--mask-zero-is-bad': 0, '--noise': 1}) + ['--nm', '--fitstat-only', '--save-model', 'm.fits', '--save-residual', 'r.fits']
    cfg = precise(sc['model'], head=cfghead(sc['files']['cfg.dat'].decode())); mask = sc['mask'] or [0] * (nx * ny); F = {'cfg.dat': cfg}
    one = {'data.fits': fits(d, nx, ny)}; aone = ['data.fits' + sec]; full = dict(one); afull = ['data.fits']; c = {'data.fits': fits(cut(d), w, h)}; ac = ['data.fits']
    if sc['hasnoise']:
        v = read_fits(sc['files']['noise.fits'])[3]; one['noise.fits'] = full['noise.fits'] = fits(v, nx, ny); c['noise.fits'] = fits(cut(v), w, h); aone += ['--noise', 'noise.fits' + sec]; afull += ['--noise', 'noise.fits']; ac += ['--noise', 'noise.fits']
    inside = set((y - 1) * nx + x - 1 for y in range(y1, y2 + 1) for x in range(x1, x2 + 1)); m2 = [int(k not in inside or mask[k] > 0) for k in range(nx * ny)]
    full['mask.fits'] = fits(m2, nx, ny, rng.choice([16, 8, -32])); afull += ['--mask', 'mask.fits']
    if sc['mask']: one['mask.fits'] = fits(mask, nx, ny, 16); c['mask.fits'] = fits(cut(mask), w, h); aone += ['--mask', 'mask.fits' + sec]; ac += ['--mask', 'mask.fits']
    if all(m2): return None
    shifted = [dict(s, x0=s['x0'] - x1 + 1, y0=s['y0'] - y1 + 1) for s in sc['model']]
    R = [run(rng, 'imfit', aone + a, dict(one, **F)), run(rng, 'imfit', afull + a, dict(full, **F)), run(rng, 'imfit', ac + a, dict(c, **{'cfg.dat': precise(shifted, head=cfghead(sc['files']['cfg.dat'].decode()))}))]
    return {'kind': 'sections', 'tags': sc['tags'], 'runs': R, 'box': [x1, x2, y1, y2], 'size': [nx, ny]}


def reword(rng, a):
    """the same command line, written differently"""
    out = []; k = 0; tail = []
    while k < len(a):
        x = a[k]; nxt = a[k + 1] if k + 1 < len(a) else None; has = x in TAKES
        if x == '-c': out += rng.choice([['-c', nxt], ['--config', nxt], ['--config=' + nxt]]); k += 2; continue
        if x in ('--mlr', '--poisson-mlr'): out.append(rng.choice(['--mlr', '--poisson-mlr'])); k += 1; continue
        if x in ('--fitstat-only', '--chisquare-only'): out.append(rng.choice(['--fitstat-only', '--chisquare-only'])); k += 1; continue
        if has:
            g = [x + '=' + nxt] if x.startswith('--') and rng.chance(0.5) else [x, nxt]; k += 2
        else: g = [x]; k += 1
        (tail if x.startswith('--') and rng.chance(0.4) else out).extend(g)
    return out + tail


TAKES = {'--overpsf', '--overpsf_scale', '--overpsf_region', '--estimation-size', '--zero-point', '--mask', '--noise', '--psf', '--gain', '--readnoise', '--sky', '--exptime', '--ncombined', '--ftol', '--seed', '--save-params', '--save-model', '--save-residual', '--save-weights', '--max-threads', '--nlopt', '--bootstrap', '--save-bootstrap'}


def garnish(rng, text):
    """comments, blank lines, blanks and tabs"""
    out = []
    for l in text.decode().split('\n'):
        if rng.chance(0.15): out.append(rng.choice(['', '   ', '# a comment', '#FUNCTION Nonsense', '#', '\t']))
        if l.strip() and not l.startswith('#') and not l.startswith('FUNCTION'):
            body = re.split(r'\s+', l.strip()); l = rng.choice(['', ' ', '\t', '   ']) + rng.choice([' ', '\t', '    ', ' \t ']).join(body) + rng.choice(['', ' ', '\t', '    # comment', '  # fixed 3,4'])
        elif l.startswith('FUNCTION'): l = rng.choice(['', ' ', '  ']) + l + ('' if 'LABEL' in l else rng.choice(['', '  ', '   # something']))
        out.append(l)
    return '\n'.join(out).encode()


def spellings(rng, i):
    sc = imfit_scene(rng, solver=rng.choice(['lm', 'lm', 'nm', 'BOBYQA', 'NM']), boot=rng.chance(0.2)); a = list(sc['args']) + (['--nm'] if 'cash' in sc['tags'] and 'lm' in sc['tags'] else []); t = sc['tags']; f = dict(sc['files']); s = sc['scene']; tags = list(t)
    if rng.chance(0.4) and not '--bootstrap' in a: a.append('--fitstat-only')
    g = dict(f); b = list(a)
    if 'mask.fits' in f:
        if '--mask-zero-is-bad' in b and rng.chance(0.7): b.remove('--mask-zero-is-bad'); inv = True
        elif '--mask-zero-is-bad' not in b and rng.chance(0.5): b.append('--mask-zero-is-bad'); inv = True
        else: inv = False
        nx, ny, _, v, _ = read_fits(f['mask.fits']); u = [1 - int(x) for x in v] if inv else [int(x) for x in v]
        badhigh = '--mask-zero-is-bad' not in b
        if badhigh and rng.chance(0.4): u = [x * rng.choice([1, 2, 9, 250]) for x in u]; tags.append('mask levels')
        g['mask.fits'] = fits(u, nx, ny, rng.choice([8 if max(u) < 256 else 16, 16, 32, -32, -64])); tags.append('mask inverted' if inv else 'mask rewritten')
    if 'noise.fits' in f and rng.chance(0.6) and not '--errors-are-weights' in a:      # (zero weight has no sigma)
        nx, ny, _, v, _ = read_fits(f['noise.fits'])
        if '--errors-are-variances' in b: b.remove('--errors-are-variances'); v = [math.sqrt(x) for x in v]
        else: b.append('--errors-are-variances'); v = [x * x for x in v]
        g['noise.fits'] = fits(v, nx, ny, -64); tags.append('noise converted')
    h = cfghead(g['cfg.dat'].decode()); rest = g['cfg.dat'].decode().split('\n')[len(h):]; names = {v: k for k, v in CFGOPT.items()}
    for k, (o, n) in enumerate(CFGOPT.items()):
        line = [l for l in h if l.split()[:1] == [n]]
        if line and o not in b and rng.chance(0.5): h = [l for l in h if l not in line]; b += [o, line[0].split()[1]]; tags.append('option moved')
        elif o in b and rng.chance(0.4):
            p = b.index(o); h = [l for l in h if l not in line] + ['%s %s' % (n, b[p + 1])]; del b[p:p + 2]; tags.append('option moved')
    g['cfg.dat'] = garnish(rng, '\n'.join(h + rest).encode()) if rng.chance(0.8) else '\n'.join(h + rest).encode()
    img = b[0]; b = reword(rng, b[1:]); b.insert(0, img)
    return {'kind': 'spellings', 'tags': tags, 'runs': [run(rng, 'imfit', a, f), run(rng, 'imfit', b, g)], 'outs': sc['outs'], 'exact': 'noise converted' not in tags, 'only': '--fitstat-only' in a}


def order(rng, i):
    """sets and functions in another order; sets split and joined"""
    model, nx, ny, args, files, tags = base(rng, i); m2 = [dict(s, f=list(s['f'])) for s in model]
    if len(m2) > 1 and rng.chance(0.7): m2 = m2[1:] + m2[:1] if rng.chance(0.5) else m2[::-1]; tags = tags + ['sets permuted']
    for s in m2:
        if len(s['f']) > 1 and rng.chance(0.7): s['f'].reverse(); tags = tags + ['functions permuted']
    out = []
    for s in m2:
        if len(s['f']) > 1 and rng.chance(0.6): out += [dict(s, f=s['f'][:1]), dict(s, f=s['f'][1:])]; tags = tags + ['set split']
        else: out.append(s)
    if out == model:
        f0 = model[0]['f'][0]; k = next((k for k, (n, _, _) in enumerate(FUNCS[f0['name']]) if n in LEVELS), None)
        if k is None: return None
        p, q = list(f0['p']), list(f0['p']); n = 3 if f0['name'] == 'TiltedSkyPlane' else 1; p[k:k + n] = [0.25 * x for x in p[k:k + n]]; q[k:k + n] = [0.75 * x for x in q[k:k + n]]; out = [dict(model[0], f=[dict(f0, p=p), dict(f0, p=q)] + model[0]['f'][1:])] + model[1:]; tags = tags + ['function split']
    return {'kind': 'order', 'tags': tags, 'runs': [mk(rng, model, nx, ny, args, files), mk(rng, out, nx, ny, args, files)], 'files': ['out.fits', 'out.fits'], 'size': [nx, ny]}


def imspec(rng, k, w, h, model, fit):
    """parameters of one image of a multi-image problem"""
    if k == 0: return {'ps': 1.0, 'pa': 0.0, 'fs': 1.0, 'x0': None, 'y0': None}
    return {'ps': float(num(rng.choice([1.0, rng.uni(0.5, 2)]))), 'pa': float(num(rng.choice([0.0, rng.uni(-180, 180)]))), 'fs': float(num(rng.choice([1.0, rng.uni(0.2, 4)]))),
            'x0': float(num(rng.uni(0.3 * w, 0.8 * w))), 'y0': float(num(rng.uni(0.3 * h, 0.8 * h)))}


def multi_images(rng, i):
    model, nx, ny, _, _, tags = base(rng, i, over=0)
    if not any(f['name'] in NEEDS_PSF for s in model for f in s['f']) and rng.chance(0.4): tags = [t for t in tags if t != 'psf']; ps = False
    else: ps = True
    big = any(f['name'] in NEEDS_PSF for s in model for f in s['f']); L = []; files = {}; R = []; P = []
    for k in range(rng.choice([1, 2, 2, 3])):
        w, h = (nx, ny) if k == 0 or '3d' in tags else (rng.rng(6, 18), rng.rng(6, 18)); p = imspec(rng, k, w, h, model, False); a = []; f = {}
        L.append('IMAGE_START')
        if rng.chance(0.6): L += ['NCOLS %d' % w, 'NROWS %d' % h]
        else: files['data%d.fits' % k] = fits([0.0] * (w * h), w, h); L.append('DATA data%d.fits' % k)
        if ps and (big or rng.chance(0.7)):
            n = rng.choice([7, 9]) if big else rng.choice([3, 5]); f['psf%d.fits' % k] = psf_image(rng, n, n if big else rng.choice([3, n])); L.append('PSF psf%d.fits' % k); a += ['--psf', 'psf%d.fits' % k]
        if w >= 8 and h >= 8 and '3d' not in tags and rng.chance(0.25):
            x1, y1 = rng.rng(1, w - 4), rng.rng(1, h - 4); box = '%d:%d,%d:%d' % (x1, min(w, x1 + rng.rng(2, 5)), y1, min(h, y1 + rng.rng(2, 5))); sc = rng.choice([2, 3])
            f['opsf%d.fits' % k] = psf_image(rng, 5, rng.choice([5, 7])); L += ['OVERSAMPLED_PSF opsf%d.fits' % k, 'OVERSAMPLE_SCALE %d' % sc, 'OVERSAMPLED_REGION ' + box]; a += ['--overpsf', 'opsf%d.fits' % k, '--overpsf_scale', str(sc), '--overpsf_region', box]; tags = tags + ['over']
        if k: L += ['PIXEL_SCALE %r fixed' % p['ps'], 'IMAGE_PA %r fixed' % p['pa'], 'FLUX_SCALE %r fixed' % p['fs'], 'X0 %r' % p['x0'], 'Y0 %r' % p['y0']]
        files.update(f); P.append(p); R.append(mk(rng, conv(model, **p), w, h, a, f, out='out%d.fits' % k))
    info = ('\n'.join(L) + '\n').encode(); root = rng.choice(['mm', 'x'])
    mm = run(rng, 'makemultimages', ['cfg.dat', '--image-info', 'info.dat', '-o', root], dict(files, **{'cfg.dat': precise(model, ['NCOLS %d' % nx, 'NROWS %d' % ny]), 'info.dat': info}))
    return {'kind': 'multi images', 'tags': tags + ['%d images' % len(P)], 'runs': [mm] + R, 'files': ['%s_%d.fits' % (root, k) for k in range(len(P))], 'size': None, 'P': P}


def multi_stat(rng, i):
    """statistic of multimfit = sum over images of the statistic of imfit"""
    pos = rng.chance(0.3); sc = fit_scene(rng, nx=rng.rng(8, 12), ny=rng.rng(8, 12), allow=(), positive=pos, stat='chi'); model = sc['model']; nx, ny = sc['nx'], sc['ny']
    st = rng.choice(['', '', '', '--model-errors'] + (['--poisson-mlr', '--cashstat'] if pos else [])); L = []; files = {}; R = []; P = []; tags = [st or 'chi']
    for k in range(rng.choice([2, 2, 3])):
        w, h = (nx, ny) if k == 0 else (rng.rng(7, 13), rng.rng(7, 13)); p = imspec(rng, k, w, h, model, True); m = conv(model, **p); t = eval_truth(m, w, h)
        d = [max(0.0, round(v + math.sqrt(v) * rng.gauss())) for v in t] if pos else [v + rng.gauss() for v in t]; f = {'data%d.fits' % k: fits(d, w, h)}; a = ['data%d.fits' % k]; L += ['IMAGE_START', 'DATA data%d.fits' % k]
        if rng.chance(0.4):
            inv = rng.chance(0.4); mk_ = [int(rng.chance(0.15)) for _ in range(w * h)]; f['mask%d.fits' % k] = fits([1 - z for z in mk_] if inv else mk_, w, h, 16); L.append('MASK mask%d.fits' % k); a += ['--mask', 'mask%d.fits' % k]; tags.append('mask')
            if inv: L.append('MASK_ZERO_IS_BAD'); a.append('--mask-zero-is-bad')
        if not st and rng.chance(0.4):
            var = rng.chance(0.4); f['err%d.fits' % k] = fits([rng.uni(0.5, 4) for _ in range(w * h)], w, h); L.append('ERROR err%d.fits' % k); a += ['--noise', 'err%d.fits' % k]; tags.append('err')
            if var: L.append('ERRORS_ARE_VARIANCES'); a.append('--errors-are-variances')
        for n, o, v in (('ORIGINAL_SKY', '--sky', num(rng.uni(10, 60))), ('GAIN', '--gain', num(rng.uni(1, 4))), ('READNOISE', '--readnoise', num(rng.uni(0.5, 4))), ('EXPTIME', '--exptime', num(rng.uni(0.5, 6))), ('NCOMBINED', '--ncombined', str(rng.rng(2, 5)))):
            if n == 'ORIGINAL_SKY' or rng.chance(0.6): L.append('%s %s' % (n, v)); a += [o, v]
        if not (st in ('--poisson-mlr', '--cashstat')) and rng.chance(0.35):
            f['psf%d.fits' % k] = psf_image(rng, rng.choice([3, 5]), rng.choice([3, 5])); L.append('PSF psf%d.fits' % k); a += ['--psf', 'psf%d.fits' % k]; tags.append('psf')
        if k: L += ['PIXEL_SCALE %r fixed' % p['ps'], 'IMAGE_PA %r fixed' % p['pa'], 'FLUX_SCALE %r %s' % (p['fs'], rng.choice(['fixed', ''])), 'X0 %r' % p['x0'], 'Y0 %r' % p['y0']]
        files.update(f); P.append(p); R.append(run(rng, 'imfit', a + ['-c', 'cfg.dat', '--nm', '--fitstat-only', '--save-model', 'm.fits', '--save-residual', 'r.fits'] + ([st] if st else []), dict(f, **{'cfg.dat': precise(m)})))
    mm = run(rng, 'multimfit', ['-c', 'cfg.dat', '--image-info', 'info.dat', '--nm', '--fitstat-only', '--save-model', 'mod', '--save-residual', 'res'] + ([st] if st else []), dict(files, **{'cfg.dat': precise(model), 'info.dat': ('\n'.join(L) + '\n').encode()}))
    return {'kind': 'multi statistic', 'tags': tags, 'runs': [mm] + R, 'P': P, 'n': len(P)}


# ---------------------------------------------------------------- judging
def jiggle(s, e):
    """the same run with every number of the model moved by e (relative)"""
    out = []; started = False
    for l in s['files']['cfg.dat'].decode().split('\n'):
        w = l.split('#')[0].split(); started = started or w[:1] == ['X0']
        if started and len(w) >= 2 and w[0] not in ('FUNCTION', 'method') and re.match(r'^%s$' % FLOAT, w[1]): w[1] = repr(float(w[1]) * (1 + e)); l = ' '.join(w)
        out.append(l)
    return dict(s, files=dict(s['files'], **{'cfg.dat': '\n'.join(out).encode()}))


def image(o, r, name, size, what):
    if name not in r.files: o.bad('missing', '%s: %s was not written' % (what, name)); return None
    nx, ny, _, v, _ = read_fits(r.files[name])
    if size and [nx, ny] != list(size): o.bad('size', '%s: %s is %dx%d instead of %dx%d' % (what, name, nx, ny, size[0], size[1])); return None
    return v


def same(a, b, tol, scale=None):
    s = scale if scale is not None else max([abs(x) for x in a if math.isfinite(x)] + [1e-30])
    for k, (x, y) in enumerate(zip(a, b)):
        if x == y or (x != x and y != y): continue
        if not abs(x - y) <= tol * abs(x) + 1e-9 * s: return k
    return None


def judge(o, ctx, sig, msg, a, b, spec_a, name, tol=2e-6, scale=None, pick=None):
    """images a and b must agree, except for what a tiny change of all parameters does to a"""
    k = same(a, b, tol, scale)
    if k is None: return True
    slack = [0.0] * len(a)
    for e in (1e-9, -1e-9, 3e-9):
        r = ctx.run(jiggle(spec_a, e))
        if not r.ok or name not in r.files: continue
        v = read_fits(r.files[name])[3]; v = pick(v) if pick else v
        slack = [max(s, abs(x - y)) if math.isfinite(x - y) else s for s, x, y in zip(slack, a, v)]
    s = scale if scale is not None else max([abs(x) for x in a if math.isfinite(x)] + [1e-30])
    for k, (x, y) in enumerate(zip(a, b)):
        if x == y or (x != x and y != y): continue
        if not abs(x - y) <= tol * abs(x) + 1e-9 * s + 3 * slack[k]: o.bad(sig, '%s: pixel %d is %.9g in one and %.9g in the other' % (msg, k, x, y)); return False
    o.probe('difference explained by subsampling threshold'); return True


def stats(out):
    t = out.decode('latin1'); g = {}
    for n, pat in (('aic', r'AIC = (%s)' % FLOAT), ('bic', r'BIC = (%s)' % FLOAT), ('reduced', r'[Rr]educed [^=\n]*= (%s)' % FLOAT), ('valid', r'(\d+) (?:good|valid) pixels')):
        m = re.search(pat, t)
        if m: g[n] = float(m.group(1))
    g['stat'] = stat_from_stdout(out)
    return g


def execute(c, ctx):
    o = Outcome(); R = [ctx.run(s) for s in c['runs']]; kind = c['kind']; o.probe(kind)
    for t in c['tags']: o.probe(kind + ': ' + t)
    for s in c['runs']: o.key(kind, tuple(sorted(set(c['tags']))), s['prog'], s['set']['cores'], s['set'].get('schedMode', 0), s['set']['heapFill'])
    for s, r in zip(c['runs'], R):
        if r.kind in (4, 6, 20): o.probe('cut off'); return o
    if len(set(r.ok for r in R)) > 1 or not R[0].ok:
        k = next(k for k, r in enumerate(R) if not r.ok)
        if kind in ('spellings', 'refeed') and not any(r.ok for r in R): o.probe('refused in both forms'); o.probe('refused: ' + R[0].err.decode('latin1').strip()[-80:]); return o
        o.bad('failed:' + kind, '%s %s: %s %s' % (c['runs'][k]['prog'], ' '.join(map(str, c['runs'][k]['args'])), R[k].how, R[k].err.decode('latin1')[-300:])); return o
    {'routes': x_routes, 'order': x_routes, 'components': x_components, 'sections': x_sections, 'spellings': x_spellings, 'multi images': x_multi, 'refeed': x_refeed, 'multi statistic': x_multistat}[kind](o, c, ctx, R)
    return o


def x_routes(o, c, ctx, R):
    V = [image(o, r, f, c['size'], s['prog']) for r, f, s in zip(R, c['files'], c['runs'])]
    if any(v is None for v in V): return
    for k in range(1, len(V)):
        if c['kind'] == 'order':
            if not judge(o, ctx, 'order', 'the model with its functions in another order', V[0], V[k], c['runs'][0], c['files'][0]): return
        elif not judge(o, ctx, 'routes:%s' % c['runs'][k]['prog'], 'the same model from makeimage and %s' % c['runs'][k]['prog'], V[0], V[k], c['runs'][0], c['files'][0]): return
    if c['kind'] == 'routes':
        # and the statistic refers to that image
        g = stats(R[2].out)
        if g['stat'] is None: o.bad('no-statistic', 'no fit statistic in the output'); return


def x_components(o, c, ctx, R):
    tot = image(o, R[0], 'out.fits', c['size'], 'makeimage'); V = [image(o, R[0], f, c['size'], 'makeimage') for f in c['files']]
    if tot is None or any(v is None for v in V): return
    sm = [sum(z) for z in zip(*V)]; scale = max(max(abs(x) for x in v) for v in V if v)
    if not judge(o, ctx, 'sum', 'the total and the sum of the component images', tot, sm, c['runs'][0], 'out.fits', tol=5e-6 * max(1, len(V)), scale=1e3 * scale): return
    for k, r in enumerate(R[1:]):
        v = image(o, r, 'out.fits', c['size'], 'makeimage')
        if v is None or not judge(o, ctx, 'component', 'component %d of the model and the model of that component alone' % (k + 1), v, V[k], c['runs'][k + 1], 'out.fits', scale=scale): return
    fl = R[0].files.get('fl.txt')
    if fl is None: o.bad('missing', 'no file of fluxes'); return
    rows = [l.split() for l in fl.decode().split('\n') if l.strip() and not l.startswith('#')]; names = [n[n.index('_') + 1:-5] for n in c['files']]
    comp = [w for w in rows if w[0] in FUNCS]; total = [w for w in rows if w[0] == 'Total']
    if [w[0] for w in comp] != names or len(total) != 1: o.bad('fluxes', 'rows %s for functions %s' % ([w[0] for w in rows], names)); return
    o.probe('flux table')
    F = [float(w[1]) for w in comp]; t = float(total[0][1])
    if not all(map(math.isfinite, F + [t])): o.probe('non-finite flux'); return
    if not abs(sum(F) - t) <= 1e-4 * sum(abs(x) for x in F) + 1e-30: o.bad('fluxes:sum', 'component fluxes %s, total %g' % (F, t)); return
    num_ = lambda w, k: float(w[k]) if len(w) > k and re.match(r'^%s$' % FLOAT, w[k]) else None
    for w, x in zip(comp + total, F + [t]):
        cols = w[2:]
        if c['zp'] and x > 0:
            m = num_(w, 2)
            if m is None or not abs(m - (c['zp'] - 2.5 * math.log10(x))) <= 2e-4 + 1e-4: o.bad('fluxes:magnitude', 'flux %g with zero point %g is listed with magnitude %s' % (x, c['zp'], w[2:])); return
        fr = num_(w, 3)
        if w[0] in FUNCS and fr is not None and t > 0 and not abs(fr - x / t) <= 1.1e-4 + 1e-4 * abs(x / t): o.bad('fluxes:fraction', 'flux %g of %g is listed as fraction %s' % (x, t, w[3])); return


def x_sections(o, c, ctx, R):
    nx, ny = c['size']; x1, x2, y1, y2 = c['box']; w, h = x2 - x1 + 1, y2 - y1 + 1; g = [stats(r.out) for r in R]
    cut = lambda v: [v[(y - 1) * nx + x - 1] for y in range(y1, y2 + 1) for x in range(x1, x2 + 1)]
    for n in ('m.fits', 'r.fits'):
        a, b, d = image(o, R[0], n, [w, h], 'section'), image(o, R[1], n, [nx, ny], 'full image'), image(o, R[2], n, [w, h], 'cut-out image')
        if a is None or b is None or d is None: return
        sc = max(abs(x) for x in read_fits(R[1].files['m.fits'])[3]) * (1 if n == 'm.fits' else 100)
        if not judge(o, ctx, 'section:' + n, '%s of an image section and of the same pixels of the full image' % n, cut(b), a, c['runs'][1], n, scale=sc, pick=cut): return
        if not judge(o, ctx, 'cutout:' + n, '%s of an image section and of an image of these pixels' % n, cut(b), d, c['runs'][1], n, scale=sc, pick=cut): return
    statistic(o, c, ctx, R, g, 'section')


def statistic(o, c, ctx, R, g, sig):
    for k in range(1, len(g)):
        for n in g[0]:
            if n not in g[k] or g[0][n] is None or g[k][n] is None:
                if n in g[k] and g[0][n] is g[k][n]: continue
                o.bad(sig + ':' + n, '%s is %s in one and %s in the other' % (n, g[0][n], g[k].get(n))); return
            x, y = g[0][n], g[k][n]
            if x == y or (x != x and y != y): continue
            tol = 2e-5 * max(abs(x), abs(g[0]['stat'] or 0) * (1e-2 if n == 'reduced' else 1)) + 1e-5
            if not abs(x - y) <= tol:
                for e in (1e-9, -1e-9, 3e-9):
                    r = ctx.run(jiggle(c['runs'][0], e)); z = stats(r.out).get(n) if r.ok else None
                    if z is not None: tol = max(tol, 3 * abs(z - x))
                if not abs(x - y) <= tol: o.bad(sig + ':' + n, '%s is %.9g in one and %.9g in the other (%s)' % (n, x, y, c['tags'])); return


def x_spellings(o, c, ctx, R):
    if c['only']: statistic(o, c, ctx, R, [stats(r.out) for r in R], 'spelling')
    if o.v: return
    for f, role in sorted(c['outs'].items()):
        if (f in R[0].files) != (f in R[1].files): o.bad('spelling:files', '%s was written in one form only' % f); return
        if f not in R[0].files: continue
        if role in ('model', 'residual', 'weights'):
            a, b = (read_fits(r.files[f])[3] for r in R); tol = 0 if c['exact'] else 1e-3
            if c['exact'] and a != b and not all(x == y or (x != x and y != y) for x, y in zip(a, b)): o.bad('spelling:' + role, '%s differs' % f); return
            if c['only'] and same(a, b, 1e-5, max(map(abs, a)) * 1e3) is not None: o.bad('spelling:' + role, '%s differs' % f); return
        elif role in ('params', 'bootstrap') and c['exact']:
            x, y = ([l for l in r.files[f].decode('latin1').split('\n') if not l.startswith('#')] for r in R)
            if [l.split('#')[0].split() for l in x] != [l.split('#')[0].split() for l in y]: o.bad('spelling:' + role, '%s differs: %s' % (f, next((p, q) for p, q in zip(x + [''], y + ['']) if p.split('#')[0].split() != q.split('#')[0].split()))); return


def x_multi(o, c, ctx, R):
    for k, f in enumerate(c['files']):
        v = image(o, R[k + 1], 'out%d.fits' % k, None, 'makeimage'); m = image(o, R[0], f, None, 'makemultimages')
        if v is None or m is None: return
        if len(v) != len(m): o.bad('multi:size', 'image %d has %d pixels, its description asks for %d' % (k + 1, len(m), len(v))); return
        if not judge(o, ctx, 'multi:image', 'image %d of makemultimages and the converted model of makeimage (%s)' % (k + 1, c['P'][k]), v, m, c['runs'][k + 1], 'out%d.fits' % k, tol=1e-5): return


def x_multistat(o, c, ctx, R):
    t = 0.0; scale = 0.0
    for k in range(c['n']):
        v, m = image(o, R[k + 1], 'm.fits', None, 'imfit'), image(o, R[0], 'mod_%d.fits' % k, None, 'multimfit')
        if v is None or m is None: return
        if len(v) != len(m): o.bad('multi:size', 'image %d' % k); return
        if not judge(o, ctx, 'multistat:image', 'image %d of multimfit and the converted model of imfit (%s)' % (k + 1, c['P'][k]), v, m, c['runs'][k + 1], 'm.fits', tol=1e-5): return
        s = stats(R[k + 1].out)['stat']
        if s is None: o.bad('no-statistic', 'imfit reports no statistic'); return
        t += s; scale += abs(s)
    s = stats(R[0].out)['stat']
    if s is None: o.bad('no-statistic', 'multimfit reports no statistic'); return
    if s != s and t != t: return
    if not abs(s - t) <= 3e-5 * scale + 1e-5: o.bad('multistat', 'multimfit reports %.9g, the statistics of its images add up to %.9g' % (s, t))


def shrink(c):
    for k, s in enumerate(c['runs']):
        for n, v in (('schedMode', 0), ('heapFill', 0), ('rules', None)):
            if n == 'rules':
                if s.get('rules'): yield dict(c, runs=c['runs'][:k] + [dict(s, rules=[])] + c['runs'][k + 1:])
            elif s['set'].get(n): yield dict(c, runs=c['runs'][:k] + [dict(s, set=dict(s['set'], **{n: v}))] + c['runs'][k + 1:])
