"""Program-level scenes (program, arguments, input files, documented outputs) shared by the I/O-, memory- and fault-oriented properties."""
from scen import *
from multi import multi_scene


def S(prog, args, files, tags, outs, **kw):
    """outs: {file: role} of the outputs that a successful run must create."""
    return dict({'prog': prog, 'args': args, 'files': files, 'tags': tags, 'outs': outs}, **kw)


def makeimage_scene(rng, i=0, small=False, first=None, slow=0.1, over=0.35, size=None):
    nx, ny = (rng.rng(4, 12), rng.rng(4, 12)) if small else (rng.rng(4, 22), rng.rng(4, 22))
    if rng.chance(0.1): nx, ny = rng.choice([(1, 20), (20, 1), (2, 30), (33, 3)])
    if size: nx, ny = size
    args = ['cfg.dat']; files = {}; outs = {}; tags = ['makeimage']
    usepsf = rng.chance(0.45)
    model = rand_model(rng, nx, ny, psf=usepsf, slow=rng.chance(slow), nsets=None if not small else rng.rng(1, 2), nf=None if not small else rng.rng(1, 2))
    if first:
        usepsf = usepsf or first in NEEDS_PSF
        model[0]['f'][0] = rand_func(rng, first)
    if any(f['name'] in SLOW for s in model for f in s['f']):
        nx, ny = min(nx, 8), min(ny, 8); tags.append('3d')
        model = [{'x0': 4.5, 'y0': 4.0, 'f': [next(f for s in model for f in s['f'] if f['name'] in SLOW)]}]
    if usepsf:
        ps = any(f['name'] in NEEDS_PSF for s in model for f in s['f'])
        pn = rng.choice([7, 9]) if ps else rng.choice([3, 5, 6, 7])
        if size and rng.chance(0.3): pn = 35
        files['psf.fits'] = psf_image(rng, pn, pn if ps else rng.choice([pn, 3, 5])); args += ['--psf', 'psf.fits']; tags.append('psf')
        if rng.chance(0.2): args += ['--no-normalize']
    if rng.chance(over) and nx >= 8 and ny >= 8 and '3d' not in tags:
        for k in range(rng.choice([1, 1, 2])):
            x1, y1 = rng.rng(1, nx - 4), rng.rng(1, ny - 4); sc = rng.choice([2, 3]); lo, hi = (10, 18) if size and nx >= 30 and rng.chance(0.6) else (2, 6); x2, y2 = min(nx, x1 + rng.rng(lo, hi)), min(ny, y1 + rng.rng(lo, hi))
            files['opsf%d.fits' % k] = psf_image(rng, rng.choice([5, 7]), rng.choice([5, 7]))
            args += ['--overpsf', 'opsf%d.fits' % k, '--overpsf_scale', str(sc), '--overpsf_region', '%d:%d,%d:%d' % (x1, x2, y1, y2)]; tags.append('over')
    k = 0
    if rng.chance(0.4):
        args += ['--output-functions', 'single']; tags.append('single')
        for s in model:
            for f in s['f']: k += 1; outs['single%d_%s.fits' % (k, f['name'])] = 'function'
    if rng.chance(0.35):
        fl = rng.rng(3, 20) if '3d' not in tags else 5
        args += ['--estimation-size', str(fl)] + (['--zero-point', '25'] if rng.chance(0.5) else [])
        if rng.chance(0.75): args += ['--save-fluxes', 'fluxes.txt']; outs['fluxes.txt'] = 'fluxes'; tags.append('savefluxes')
        else: args += ['--print-fluxes']; tags += ['printfluxes', 'nosave']        # documented: estimates fluxes, saves no image
    if rng.chance(0.15): args += ['--no-subsampling']
    if rng.chance(0.1): args += rng.choice([['--debug', '1'], ['--max-threads', '2']])
    head = ['NCOLS %d' % nx, 'NROWS %d' % ny]
    if rng.chance(0.25) and 'printfluxes' not in tags:
        files['ref.fits'] = fits([0.0] * (nx * ny), nx, ny); args += ['--refimage', 'ref.fits']; head = []; tags.append('refimage')
    elif rng.chance(0.25): args += ['--ncols', str(nx), '--nrows', str(ny)]; head = []
    if 'nosave' not in tags and rng.chance(0.07): args += ['--nosave']; tags.append('nosave')
    name = 'modelimage.fits'
    if rng.chance(0.8): name = 'out.fits'; args += ['-o', name]
    outs[name] = 'model'
    if 'psf' in tags and 'nosave' not in tags and rng.chance(0.15): args += ['--save-expanded']; tags.append('expanded'); outs['expanded_' + name] = 'expanded'
    if 'nosave' in tags: outs = {k: v for k, v in outs.items() if v == 'fluxes'}
    if 'nosave' in tags and 'savefluxes' in tags: args.remove('--nosave'); tags.remove('nosave'); outs[name] = 'model'; outs.update({'single%d_%s.fits' % (j + 1, f['name']): 'function' for j, f in enumerate(f for s in model for f in s['f'])} if 'single' in tags else {})
    files['cfg.dat'] = config(model, head)
    return S('makeimage', args, files, tags, outs, model=model)


def makemulti_scene(rng, size=None):
    sc = multi_scene(rng, fit=False, size=size); tags = ['makemultimages'] + sc['tags']
    root = rng.choice(['mm', None]); outs = {}
    args = ['cfg.dat', '--image-info', 'info.dat'] + (['-o', root] if root else [])
    for k in range(sc['nim']): outs['%s_%d.fits' % (root or 'modelimage_multi', k)] = 'model'
    if rng.chance(0.3): args += ['--output-functions', 'single']; tags.append('single')
    return S('makemultimages', args, sc['files'], tags, outs, dims=sc['dims'])


def imfit_scene(rng, solver=None, boot=None, small=True, need=None, size=None, **kw):
    sol = solver or rng.choice(['lm', 'lm', 'lm', 'lm', 'nm', 'nm', 'BOBYQA', 'NEWUOA', 'PRAXIS', 'COBYLA', 'NM', 'SBPLX', 'de', 'de-lhs'])
    heavy = sol in ('de', 'de-lhs')
    nx, ny = size or ((rng.rng(4, 6), rng.rng(4, 6)) if heavy else (rng.rng(6, 12), rng.rng(6, 12)))
    sc = fit_scene(rng, nx=nx, ny=ny, maxsets=1 if heavy else kw.pop('maxsets', 2), need_limits=heavy or sol in ('PRAXIS', 'BOBYQA', 'SBPLX'),
                   positive=rng.chance(0.35), maxf=1 if heavy else 2, **kw)
    args = [sc['image'], '-c', 'cfg.dat'] + sc['args'] + SOLVERS[sol]; outs = {}
    files = sc['files']; tags = ['imfit', sol] + sc['tags']
    args += ['--ftol', '1e-2' if heavy else rng.choice(['1e-3', '1e-5']), '--seed', str(rng.rng(1, 99999)), '--max-threads', '1']
    if rng.chance(0.7): args += ['--save-params', 'best.dat']; outs['best.dat'] = 'params'
    else: outs['bestfit_parameters_imfit.dat'] = 'params'
    for o, f, p in (('--save-model', 'm.fits', 0.6), ('--save-residual', 'r.fits', 0.6), ('--save-weights', 'w.fits', 0.5)):
        if rng.chance(p): args += [o, f]; outs[f] = {'m': 'model', 'r': 'residual', 'w': 'weights'}[f[0]]
    nx, ny = sc['nx'], sc['ny']
    if 'psf' in sc['tags'] and not heavy and rng.chance(0.3) and sc['sec'] == [1, 1, nx, ny]:
        e = 16 if size and nx >= 30 else 0; x1, y1 = rng.rng(1, nx - 3 - e), rng.rng(1, ny - 3 - e); files['opsf.fits'] = psf_image(rng, 5, rng.choice([5, 7]))
        args += ['--overpsf', 'opsf.fits', '--overpsf_scale', '2', '--overpsf_region', '%d:%d,%d:%d' % (x1, x1 + 2 + e, y1, y1 + 3 + e)]; tags.append('over')
    if boot if boot is not None else rng.chance(0.3):
        if sol in ('lm', 'nm', 'NM', 'SBPLX') and not ('over' in tags or ('psf' in tags and sol != 'lm')):
            n = rng.rng(2, 5); args += ['--bootstrap', str(n)]; tags.append('boot')
            if rng.chance(0.8): args += ['--save-bootstrap', 'boot.txt']; outs['boot.txt'] = 'bootstrap'
    if rng.chance(0.1): args += [rng.choice(['--quiet', '--silent', '--loud'])]
    return S('imfit', args, files, tags, outs, scene=sc, solver=sol)


def fitstat_scene(rng, size=None):
    sc = imfit_scene(rng, solver='lm', boot=False, size=size); sc['args'].append('--fitstat-only'); sc['tags'].append('fitstat'); sc['outs'] = {k: v for k, v in sc['outs'].items() if v != 'params'}
    return sc


def mcmc_scene(rng, length=None, size=None, **kw):
    nx, ny = size or (rng.rng(6, 10), rng.rng(6, 10))
    sc = fit_scene(rng, nx=nx, ny=ny, need_limits=True, maxsets=1, positive=rng.chance(0.35), **kw)
    n = rng.rng(3, 5); nx, ny = sc['nx'], sc['ny']
    if 'psf' in sc['tags'] and rng.chance(0.4) and sc['sec'] == [1, 1, nx, ny]:
        x1, y1 = rng.rng(1, nx - 3), rng.rng(1, ny - 3); sc['files']['opsf.fits'] = psf_image(rng, 5, rng.choice([5, 7])); sc['tags'].append('over')
        sc['args'] += ['--overpsf', 'opsf.fits', '--overpsf_scale', '2', '--overpsf_region', '%d:%d,%d:%d' % (x1, x1 + 2, y1, y1 + 3)]
    args = [sc['image'], '-c', 'cfg.dat'] + sc['args'] + ['-o', 'ch', '--nchains', str(n), '--max-chain-length', str(length or rng.rng(20, 60)), '--burnin-length', str(rng.rng(5, 40)), '--gelman-evals', str(rng.choice([5, 10, 20])), '--seed', str(rng.rng(1, 99999)), '--max-threads', '1']
    return S('imfit-mcmc', args, sc['files'], ['imfit-mcmc'] + sc['tags'], {'ch.%d.txt' % (k + 1): 'chain' for k in range(n)}, scene=sc, nchains=n)


def bimodal_scene(rng, length=None):
    """two sources, one of them fainter: some chains get stuck at the fainter one and become outliers"""
    n = rng.rng(16, 22); x1, y1 = rng.rng(4, 6), rng.rng(4, n - 4); x2, y2 = rng.rng(n - 6, n - 4), rng.rng(4, n - 4); amp = rng.choice([40, 60, 80]); sg = 1.7
    g = lambda k, x, y, a: a * math.exp(-((k % n + 1 - x) ** 2 + (k // n + 1 - y) ** 2) / (2 * sg * sg))
    data = [g(k, x1, y1, 100) + g(k, x2, y2, amp) + rng.gauss() for k in range(n * n)]
    cfg = 'X0   %d   2,%d\nY0   %d   2,%d\nFUNCTION Gaussian\nPA   30   fixed\nell   0   fixed\nI_0   100   50,150\nsigma   %g   fixed\n' % (n // 2, n - 1, n // 2, n - 1, sg)
    files = {'cfg.dat': cfg.encode(), 'data.fits': fits(data, n, n, -64), 'noise.fits': fits([rng.choice([6.0, 12.0])] * (n * n), n, n, -64)}
    nc = rng.rng(7, 12)
    args = ['data.fits', '-c', 'cfg.dat', '--noise', 'noise.fits', '-o', 'ch', '--nchains', str(nc), '--max-chain-length', str(length or rng.rng(60, 180)), '--burnin-length', str(rng.choice([20, 60, 150])), '--gelman-evals', '20', '--seed', str(rng.rng(1, 99999)), '--max-threads', '1']
    return S('imfit-mcmc', args, files, ['imfit-mcmc', 'bimodal'], {'ch.%d.txt' % (k + 1): 'chain' for k in range(nc)}, nchains=nc)


def multimfit_scene(rng, boot=None, unimplemented=False, size=None):
    sc = multi_scene(rng, fit=True, size=size); tags = ['multimfit'] + sc['tags']; outs = {}
    args = ['-c', 'cfg.dat', '-i', 'info.dat', '--seed', str(rng.rng(1, 99999)), '--max-threads', '1', '--ftol', '1e-4']
    if rng.chance(0.25): args += ['--nm']; tags.append('nm')
    elif rng.chance(0.15): args += ['--nlopt', rng.choice(['NEWUOA', 'SBPLX', 'NM'])]; tags.append('nlopt')
    if sc['positive'] and rng.chance(0.5): args += ['--cashstat'] if tags[-1] in ('nm', 'nlopt') and rng.chance(0.5) else ['--poisson-mlr']; tags.append('poisson')
    elif rng.chance(0.15): args += ['--model-errors']; tags.append('modelerrors')
    for o, f, p in (('--save-model', 'mod', 0.7),) + ((('--save-residual', 'res', 0.5), ('--save-weights', 'wt', 0.5)) if unimplemented else ()):
        if rng.chance(p):
            args += [o, f]
            for k in range(sc['nim']): outs['%s_%d.fits' % (f, k)] = {'mod': 'model', 'res': 'residual', 'wt': 'weights'}[f]
    root = 'bestfit_parameters_multimfit'
    if rng.chance(0.4): root = 'bp'; args += ['--save-params-root', root]
    outs[root + '_summary.dat'] = outs[root + '_refimage.dat'] = outs[root + '_imageinfo.dat'] = 'params'
    for k in range(1, sc['nim']): outs['%s_image%d.dat' % (root, k + 1)] = 'params'
    if boot if boot is not None else rng.chance(0.3):
        args += ['--bootstrap', str(rng.rng(2, 3))]; tags.append('boot')
        if rng.chance(0.7): args += ['--save-bootstrap', 'boot.txt']; outs['boot.txt'] = 'bootstrap'
    return S('multimfit', args, sc['files'], tags, outs, dims=sc['dims'])


def profile_scene(rng):
    n, m = rng.rng(8, 60), rng.choice([3, 5, 7, 9])
    cm = '# profile\n' if rng.chance(0.5) else ''
    a = cm + ''.join('%d %.4f\n' % (k, 100 * math.exp(-k / 9.0) + rng.uni(0, 1)) for k in range(n))
    b = ''.join('%d %.5f\n' % (k - m // 2, math.exp(-(k - m // 2) ** 2 / 3.0)) for k in range(m))
    return S('psfconvolve1d', ['prof.txt', 'psf.txt', 'conv.txt'], {'prof.txt': a.encode(), 'psf.txt': b.encode()}, ['psfconvolve1d'], {'conv.txt': 'profile'})


GEN = [('makeimage', makeimage_scene), ('imfit', imfit_scene), ('imfit-mcmc', mcmc_scene), ('multimfit', multimfit_scene), ('makemultimages', makemulti_scene), ('psfconvolve1d', profile_scene), ('fitstat', fitstat_scene)]
CYCLE = ['makeimage', 'imfit', 'makeimage', 'imfit-mcmc', 'makeimage', 'multimfit', 'imfit', 'makemultimages', 'makeimage', 'psfconvolve1d', 'imfit', 'fitstat']
PROGS = ['imfit', 'makeimage', 'imfit-mcmc', 'multimfit', 'makemultimages', 'psfconvolve1d']


def any_scene(rng, i, cycle=CYCLE): return dict(GEN)[cycle[i % len(cycle)]](rng)


def wrong(rng, sc):
    """A user mistake: a damaged configuration, a missing file, contradictory options. Returns a tag."""
    f, a = sc['files'], sc['args']; cfgs = [n for n in f if n.endswith('.dat')]
    kind = rng.choice(['cfgline', 'cfgline', 'cfgfunc', 'missing', 'option', 'dims', 'notfits', 'cfgempty', 'value'])
    if not cfgs and kind.startswith('cfg'): kind = 'missing'
    if kind == 'cfgline':
        n = rng.choice(cfgs); L = f[n].split(b'\n'); k = rng.below(len(L))
        w = rng.below(11)
        if w == 0: del L[k]
        elif w == 5: L = L[:k + 1]
        elif w == 6: j = rng.below(len(L)); L[j], L[k] = L[k], L[j]
        elif w == 7: L.insert(rng.below(len(L) + 1), L[k])
        elif w == 8: L.insert(k, b'OPTIONAL_PARAMS_START'); L.insert(k + 2, b'OPTIONAL_PARAMS_END')
        elif w == 9: L[k] = L[k].replace(b',', rng.choice([b', ', b' ', b',,', b'']))
        elif w == 10: L[k] = L[k].replace(b' ', b' # ', 1)
        elif w == 1: L[k] = L[k].split(b' ')[0]
        elif w == 2: L[k] = L[k] + b' 3,1'
        elif w == 3: L.insert(k, b'BOGUS 1.0')
        else: L[k] = L[k][:max(1, len(L[k]) // 2)]
        f[n] = b'\n'.join(L)
    elif kind == 'cfgfunc': n = rng.choice(cfgs); f[n] = f[n].replace(b'FUNCTION ', b'FUNCTION X', 1)
    elif kind == 'cfgempty': f[rng.choice(cfgs)] = rng.choice([b'', b'# nothing\n', b'X0 1\nY0 1\n'])
    elif kind == 'missing': del f[rng.choice(sorted(f))]
    elif kind == 'option': a.append(rng.choice(['--bogus', '--psf', '--max-threads', '--noise', '--seed']))
    elif kind == 'dims':
        c = [n for n in f if n.endswith('.fits')]
        if c: f[rng.choice(c)] = fits([1.0] * 42, 6, 7)
    elif kind == 'notfits':
        c = [n for n in f if n.endswith('.fits')]
        if c: f[rng.choice(c)] = b'this is not a FITS file\n' * 10
    elif kind == 'value':
        k = [j for j in range(1, len(a)) if str(a[j - 1]).startswith('--') and not str(a[j]).startswith('--')]
        if k: a[rng.choice(k)] = rng.choice(['x', '-3', '0', '1e9', ''])
    sc['tags'] = sc['tags'] + ['wrong:' + kind]
    return kind


def inspec(sc, **kw): return spec(sc['prog'], sc['args'], sc['files'], **kw)
