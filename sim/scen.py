"""Scenario vocabulary shared by all properties: models, images, configurations, parsers of the programs' outputs."""
import math, re
from core import fits, read_fits, BadFits, spec, rule, Rng

# name -> [(parameter, low, high)] : ranges of sane values (scaled for images of ~10-40 pixels)
FUNCS = {
 'BrokenExponential': [('PA', 0, 180), ('ell', 0.05, 0.8), ('I_0', 5, 200), ('h1', 3, 12), ('h2', 1, 4), ('r_break', 3, 10), ('alpha', 0.5, 20)],
 'BrokenExponential2D': [('PA', 0, 180), ('I_0', 5, 200), ('h1', 3, 12), ('h2', 1, 4), ('r_break', 3, 10), ('alpha', 0.5, 20), ('h_z', 0.5, 4)],
 'BrokenExponentialDisk3D': [('PA', 0, 180), ('inc', 5, 85), ('J_0', 1, 20), ('h1', 3, 12), ('h2', 1, 4), ('r_break', 3, 10), ('alpha', 0.5, 10), ('n', 1, 50), ('z_0', 0.5, 3)],
 'Core-Sersic': [('PA', 0, 180), ('ell', 0.05, 0.8), ('n', 1, 6), ('I_b', 5, 100), ('r_e', 4, 15), ('r_b', 0.5, 3), ('alpha', 1, 20), ('gamma', 0, 0.8)],
 'DattathriPeanut3D': [('PA_lon', 0, 180), ('inc', 20, 85), ('barPA', 0, 90), ('J0_bar', 1, 20), ('R_bar_x', 5, 10), ('q', 0.3, 0.8), ('q_z', 0.2, 0.5), ('R_peanut', 2, 6), ('A_peanut', 0.5, 2), ('sigma_peanut', 1, 3), ('c_bar_par', 1.5, 3), ('c_bar_perp', 1.5, 3)],
 'EdgeOnDisk': [('PA', 0, 180), ('L_0', 1, 50), ('h', 2, 8), ('n', 1, 50), ('z_0', 0.5, 3)],
 'EdgeOnRing': [('PA', 0, 180), ('I_0', 5, 100), ('r', 3, 8), ('sigma_r', 0.7, 3), ('sigma_z', 0.7, 3)],
 'EdgeOnRing2Side': [('PA', 0, 180), ('I_0', 5, 100), ('r', 3, 8), ('sigma_r_in', 0.7, 3), ('sigma_r_out', 0.7, 3), ('sigma_z', 0.7, 3)],
 'Exponential': [('PA', 0, 180), ('ell', 0.0, 0.8), ('I_0', 5, 200), ('h', 1, 8)],
 'ExponentialDisk3D': [('PA', 0, 180), ('inc', 5, 85), ('J_0', 1, 20), ('h', 2, 8), ('n', 1, 50), ('z_0', 0.5, 3)],
 'Exponential_GenEllipse': [('PA', 0, 180), ('ell', 0.05, 0.8), ('c0', -1.0, 1.0), ('I_0', 5, 200), ('h', 1, 8)],
 'FerrersBar2D': [('PA', 0, 180), ('ell', 0.05, 0.8), ('c0', -1.0, 1.0), ('n', 0, 4), ('I_0', 5, 200), ('a_bar', 4, 12)],
 'FerrersBar3D': [('PA', 0, 180), ('inc', 5, 85), ('barPA', 0, 90), ('J_0', 1, 20), ('R_bar', 4, 10), ('q', 0.2, 0.8), ('q_z', 0.2, 0.6), ('n', 1, 3)],
 'FlatBar': [('PA', 0, 180), ('ell', 0.3, 0.85), ('deltaPA_max', 10, 50), ('I_0', 5, 100), ('h1', 5, 20), ('h2', 1, 4), ('r_break', 3, 10), ('alpha', 0.5, 5)],
 'FlatSky': [('I_sky', 1, 50)],
 'Gaussian': [('PA', 0, 180), ('ell', 0.0, 0.8), ('I_0', 5, 200), ('sigma', 0.8, 6)],
 'GaussianRing': [('PA', 0, 180), ('ell', 0.05, 0.8), ('A', 5, 100), ('R_ring', 3, 9), ('sigma_r', 0.7, 3)],
 'GaussianRing2Side': [('PA', 0, 180), ('ell', 0.05, 0.8), ('A', 5, 100), ('R_ring', 3, 9), ('sigma_r_in', 0.7, 3), ('sigma_r_out', 0.7, 3)],
 'GaussianRing3D': [('PA', 0, 180), ('inc', 5, 80), ('PA_ring', 0, 90), ('ell', 0.05, 0.6), ('J_0', 1, 20), ('a_ring', 3, 8), ('sigma', 0.7, 3), ('h_z', 0.5, 2)],
 'GaussianRingAz': [('PA', 0, 180), ('ell', 0.05, 0.8), ('A_maj', 5, 100), ('A_min_rel', 0.1, 1), ('R_ring', 3, 9), ('sigma_r', 0.7, 3)],
 'ModifiedKing': [('PA', 0, 180), ('ell', 0.0, 0.8), ('I_0', 5, 100), ('r_c', 1, 4), ('r_t', 6, 15), ('alpha', 1, 3)],
 'ModifiedKing2': [('PA', 0, 180), ('ell', 0.0, 0.8), ('I_0', 5, 100), ('r_c', 1, 4), ('c', 2, 6), ('alpha', 1, 3)],
 'Moffat': [('PA', 0, 180), ('ell', 0.0, 0.6), ('I_0', 5, 200), ('fwhm', 1.5, 6), ('beta', 1.5, 5)],
 'PointSource': [('I_tot', 50, 2000)],
 'PointSourceRot': [('PA', 0, 180), ('I_tot', 50, 2000)],
 'Sersic': [('PA', 0, 180), ('ell', 0.0, 0.8), ('n', 0.5, 5), ('I_e', 2, 60), ('r_e', 2, 8)],
 'Sersic_GenEllipse': [('PA', 0, 180), ('ell', 0.05, 0.8), ('c0', -1.0, 1.0), ('n', 0.5, 5), ('I_e', 2, 60), ('r_e', 2, 8)],
 'TiltedSkyPlane': [('I_0', 1, 50), ('m_x', -0.5, 0.5), ('m_y', -0.5, 0.5)],
}
SLOW = {'BrokenExponentialDisk3D', 'ExponentialDisk3D', 'FerrersBar3D', 'GaussianRing3D', 'DattathriPeanut3D'}
NEEDS_PSF = {'PointSource', 'PointSourceRot'}
CHEAP = ['Gaussian', 'Exponential', 'Sersic', 'FlatSky', 'TiltedSkyPlane', 'Moffat', 'GaussianRing', 'FlatBar', 'ModifiedKing', 'Core-Sersic', 'BrokenExponential',
         'Sersic_GenEllipse', 'Exponential_GenEllipse', 'EdgeOnRing', 'EdgeOnRing2Side', 'GaussianRing2Side', 'GaussianRingAz', 'FerrersBar2D', 'ModifiedKing2', 'BrokenExponential2D']
PS_OPTS = [None, 'bicubic', 'lanczos2', 'lanczos3']


def num(x): return '%.6g' % x


def rand_func(rng, name):
    f = {'name': name, 'p': [float(num(rng.uni(lo, hi))) for _, lo, hi in FUNCS[name]]}
    if name in NEEDS_PSF:
        m = rng.choice(PS_OPTS if name == 'PointSource' else PS_OPTS[:3])
        if m: f['opt'] = {'method': m}
    if rng.chance(0.12): f['label'] = '   # LABEL ' + rng.choice(['disk', 'main disk', 'LABEL', 'x' * 70])
    return f


def rand_model(rng, nx, ny, names=None, nsets=None, nf=None, psf=False, slow=True):
    sets = []
    for _ in range(nsets or rng.choice([1, 1, 1, 2, 2, 3])):
        fs = []
        for _ in range(nf or rng.choice([1, 1, 2, 2, 3])):
            if names: n = rng.choice(names)
            else:
                while True:
                    n = rng.choice(list(FUNCS))
                    if n in NEEDS_PSF and not psf: continue
                    if n in SLOW and not slow: continue
                    break
            fs.append(rand_func(rng, n))
        sets.append({'x0': float(num(rng.uni(0.2 * nx, 0.9 * nx) + 0.5)), 'y0': float(num(rng.uni(0.2 * ny, 0.9 * ny) + 0.5)), 'f': fs})
    return sets


def config(sets, head=(), lim=None):
    """lim: None (makeimage style), or callable(set index, func index or None, pname, value) -> text after the value ('' / 'lo,hi' / 'fixed')."""
    L = list(head)
    for si, s in enumerate(sets):
        for n, v in (('X0', s['x0']), ('Y0', s['y0'])):
            L.append('%s   %s   %s' % (n, num(v), lim(si, None, n, v) if lim else ''))
        for fi, f in enumerate(s['f']):
            L.append('FUNCTION %s%s' % (f['name'], f.get('label', '')))
            for (n, lo, hi), v in zip(FUNCS[f['name']], f['p']):
                L.append('%s   %s   %s' % (n, num(v), lim(si, fi, n, v) if lim else ''))
            if f.get('opt'):
                L.append('OPTIONAL_PARAMS_START')
                for k, v in f['opt'].items(): L.append('%s   %s' % (k, v))
                L.append('OPTIONAL_PARAMS_END')
    return ('\n'.join(L) + '\n').encode()


def params(sets):
    """flat list of (set, func or None, name, value)"""
    out = []
    for si, s in enumerate(sets):
        out.append((si, None, 'X0', s['x0'])); out.append((si, None, 'Y0', s['y0']))
        for fi, f in enumerate(s['f']):
            for (n, lo, hi), v in zip(FUNCS[f['name']], f['p']): out.append((si, fi, n, v))
    return out


def psf_image(rng, nx, ny, kind=None):
    cx, cy = (nx - 1) / 2.0, (ny - 1) / 2.0
    s = rng.uni(0.6, 1.6); a = rng.uni(-0.15, 0.15)
    return fits([math.exp(-((i % nx - cx) ** 2 + (i // nx - cy) ** 2 + a * (i % nx - cx) * (i // nx - cy)) / (2 * s * s)) for i in range(nx * ny)], nx, ny)


# ------------------------------------------------------------------ fitting scenes
CFGOPT = {'--gain': 'GAIN', '--readnoise': 'READNOISE', '--sky': 'ORIGINAL_SKY', '--exptime': 'EXPTIME', '--ncombined': 'NCOMBINED'}


def cfghead(text):
    """image options in front of the functions of a configuration file"""
    out = []
    for l in text.split('\n'):
        if l.split()[:1] == ['X0']: break
        out.append(l)
    return out


TRUTH = ['Gaussian', 'Exponential', 'FlatSky', 'Moffat']


def eval_truth(sets, nx, ny):
    img = [0.0] * (nx * ny)
    for s in sets:
        for f in s['f']:
            p = f['p']; n = f['name']
            if n == 'FlatSky':
                for k in range(nx * ny): img[k] += p[0]
                continue
            pa = math.radians(p[0] + 90); q = 1 - p[1]
            for j in range(ny):
                for i in range(nx):
                    dx, dy = i + 1 - s['x0'], j + 1 - s['y0']
                    xp = dx * math.cos(pa) + dy * math.sin(pa); yp = (-dx * math.sin(pa) + dy * math.cos(pa)) / q
                    r = math.sqrt(xp * xp + yp * yp)
                    if n == 'Gaussian': v = p[2] * math.exp(-r * r / (2 * p[3] ** 2))
                    elif n == 'Exponential': v = p[2] * math.exp(-r / p[3])
                    else:
                        al = 0.5 * p[3] / math.sqrt(2 ** (1 / p[4]) - 1); v = p[2] / (1 + (r / al) ** 2) ** p[4]
                    img[j * nx + i] += v
    return img


def fit_scene(rng, nx=None, ny=None, maxsets=2, maxf=2, allow=('mask', 'noise', 'psf', 'section', 'gain', 'fixed', 'limits', 'model', 'nonfinite'), need_limits=False, stat=None, small=True, positive=False):
    """A data set with a known-good neighbourhood, a start configuration and options. Everything is explicit in the returned dict."""
    nx = nx or rng.rng(9, 15); ny = ny or rng.rng(9, 15)
    sets = []
    for k in range(rng.rng(1, maxsets)):
        fs = [rand_func(rng, rng.choice(['Gaussian', 'Exponential', 'Moffat']))]
        if k == 0 and rng.chance(0.6): fs.append(rand_func(rng, 'FlatSky'))
        elif maxf > 2 and rng.chance(0.3): fs.append(rand_func(rng, rng.choice(['Gaussian', 'Exponential'])))
        sets.append({'x0': float(num(rng.uni(0.35 * nx, 0.7 * nx) + 0.5)), 'y0': float(num(rng.uni(0.35 * ny, 0.7 * ny) + 0.5)), 'f': fs})
    for s in sets:
        for f in s['f']:
            if f['name'] == 'Moffat': f['p'][3] = float(num(rng.uni(2.5, 5)))
            if f['name'] == 'Gaussian': f['p'][3] = float(num(rng.uni(1.2, 3)))
    truth = eval_truth(sets, nx, ny); base = 0.0 if not positive else 0.5
    bg = rng.uni(3, 20)
    data = [max(v + bg * 0 + rng.gauss() * math.sqrt(abs(v) + 2.0), -3.0 if not positive else 0.0) for v in truth]
    if positive: data = [max(0.0, round(v)) for v in data]
    # starting point near the truth
    start = []
    for s in sets:
        ns = {'x0': float(num(s['x0'] + rng.uni(-0.8, 0.8))), 'y0': float(num(s['y0'] + rng.uni(-0.8, 0.8))), 'f': []}
        for f in s['f']:
            p = []
            for (n, lo, hi), v in zip(FUNCS[f['name']], f['p']):
                if n == 'PA': w = v + rng.uni(-20, 20)
                elif n == 'ell': w = min(max(v + rng.uni(-0.15, 0.15), 0.02), 0.9)
                else: w = v * rng.uni(0.7, 1.4)
                p.append(float(num(w)))
            ns['f'].append({'name': f['name'], 'p': p, 'label': f.get('label', '')})
        start.append(ns)
    files = {'data.fits': fits(data, nx, ny)}
    args = []; sec = None; tags = []
    lims = {}
    idx = 0
    for (si, fi, n, v) in params(start):
        if fi is None: lo, hi = v - rng.uni(1.5, 4), v + rng.uni(1.5, 4)
        elif n == 'PA': lo, hi = -180.0, 360.0
        elif n == 'ell': lo, hi = 0.0, 0.95
        elif n == 'I_sky': lo, hi = 0.0, 200.0
        else: lo, hi = v * rng.uni(0.15, 0.6), v * rng.uni(1.6, 5)
        lo, hi = float(num(lo)), float(num(hi))
        mode = 'lim'
        if 'fixed' in allow and rng.chance(0.12): mode = 'fixed'
        elif 'limits' in allow and not need_limits and rng.chance(0.3): mode = 'free'
        elif 'limits' in allow and rng.chance(0.08): mode = 'onlim'
        lims[(si, fi, n)] = (mode, lo, hi)
    if all(m == 'fixed' for m, _, _ in lims.values()): lims[(0, 0, FUNCS[start[0]['f'][0]['name']][-1][0])] = ('lim',) + lims[(0, 0, FUNCS[start[0]['f'][0]['name']][-1][0])][1:]
    # start exactly on a limit
    for si, s in enumerate(start):
        for fi, f in enumerate(s['f']):
            for k, (n, _, _) in enumerate(FUNCS[f['name']]):
                m, lo, hi = lims[(si, fi, n)]
                if m == 'onlim': f['p'][k] = lo if rng.chance(0.5) else hi
        for n, key in (('X0', 'x0'), ('Y0', 'y0')):
            m, lo, hi = lims[(si, None, n)]
            if m == 'onlim': s[key] = lo if rng.chance(0.5) else hi

    def lim(si, fi, n, v):
        m, lo, hi = lims[(si, fi, n)]
        return {'fixed': 'fixed', 'free': '', 'lim': '%s,%s' % (num(lo), num(hi)), 'onlim': '%s,%s' % (num(lo), num(hi))}[m]
    head = []
    mask = None; wt = None; inv = False
    x1, y1, x2, y2 = 1, 1, nx, ny
    if 'section' in allow and rng.chance(0.3):
        x1 = rng.rng(1, 2); y1 = rng.rng(1, 2); x2 = nx - rng.rng(0, 1); y2 = ny - rng.rng(0, 1); sec = '[%d:%d,%d:%d]' % (x1, x2, y1, y2); tags.append('section')
    suffix = sec or ''
    gain = {}
    if 'mask' in allow and rng.chance(0.4):
        inv = rng.chance(0.3)
        m = [1 if rng.chance(0.1) else 0 for _ in range(nx * ny)]
        files['mask.fits'] = fits([(1 - b if inv else b) for b in m], nx, ny, 16 if rng.chance(0.5) else -32)
        mask = m; args += ['--mask', 'mask.fits' + suffix] + (['--mask-zero-is-bad'] if inv else []); tags.append('mask')
        if rng.chance(0.5):
            k = [i for i in range(nx * ny) if m[i]]
            for i in k: data[i] = rng.choice([1e6, -1e5, 0.0])
            files['data.fits'] = fits(data, nx, ny)
    st = stat or rng.choice(['chi', 'chi', 'chi', 'model', 'cash', 'mlr'])
    if st == 'cash' and not positive: st = 'mlr' if rng.chance(0.5) else 'chi'
    if st == 'mlr' and not positive and not all(d >= 0 for d in data): st = 'chi'
    if 'model' not in allow and st == 'model': st = 'chi'
    args += {'chi': [], 'model': ['--model-errors'], 'cash': ['--cashstat'], 'mlr': [rng.choice(['--mlr', '--poisson-mlr'])]}[st]; tags.append(st)
    if 'noise' in allow and st == 'chi' and rng.chance(0.4):
        k = rng.choice(['', '--errors-are-variances', '--errors-are-weights'])
        sig = [math.sqrt(abs(t) + 2.0) * rng.uni(0.8, 1.2) for t in truth]
        wt = {'': sig, '--errors-are-variances': [s * s for s in sig], '--errors-are-weights': [1 / (s * s) for s in sig]}[k]
        files['noise.fits'] = fits(wt, nx, ny); args += ['--noise', 'noise.fits' + suffix] + ([k] if k else []); tags.append('noise' + k)
    elif 'gain' in allow and rng.chance(0.5):
        for o, a, b in (('--gain', 0.5, 5), ('--readnoise', 0.5, 5), ('--sky', 1, 50), ('--exptime', 1, 10)):
            if rng.chance(0.5): gain[o] = float(num(rng.uni(a, b))); args += [o, num(gain[o])]
        if rng.chance(0.3): gain['--ncombined'] = rng.rng(1, 4); args += ['--ncombined', str(gain['--ncombined'])]
    if '--sky' not in gain and st in ('chi', 'model') and 'noise.fits' not in files:
        args += ['--sky', '8', '--gain', '2'] if '--gain' not in gain else ['--sky', '8']   # keep pixel variances positive
    if gain and rng.chance(0.35):        # in the configuration file instead of, or as well as, on the command line
        for o, v in sorted(gain.items()):
            if rng.chance(0.6):
                k = args.index(o)
                if rng.chance(0.75): head.append('%s   %s' % (CFGOPT[o], args[k + 1])); del args[k:k + 2]
                else: head.append('%s   %s' % (CFGOPT[o], num(rng.uni(1, 9)) if o != '--ncombined' else '7'))
        if head: tags.append('cfgopt')
    if 'nonfinite' in allow and rng.chance(0.15):        # masked by the program itself
        mask = list(mask or [0] * (nx * ny)); tags.append('nonfinite'); bad = lambda: rng.choice([float('nan'), float('inf'), -float('inf')])
        for _ in range(rng.rng(1, 3)):
            k = rng.below(nx * ny); mask[k] = 1
            if wt and rng.chance(0.4): wt[k] = float('nan')
            else: data[k] = bad()
        files['data.fits'] = fits(data, nx, ny)
        if wt: files['noise.fits'] = fits(wt, nx, ny)
    if 'psf' in allow and rng.chance(0.25):
        pn = rng.choice([3, 5]); files['psf.fits'] = psf_image(rng, pn, rng.choice([pn, 3])); args += ['--psf', 'psf.fits'] + (['--no-normalize'] if rng.chance(0.2) else []); tags.append('psf')
    cfg = config(start, head, lim); files['cfg.dat'] = cfg
    P = []
    for (si, fi, n, v) in params(start):
        m, lo, hi = lims[(si, fi, n)]
        P.append({'name': n, 'v': v, 'mode': m, 'lo': lo, 'hi': hi})
    return {'image': 'data.fits' + suffix, 'files': files, 'args': args, 'nx': nx, 'ny': ny, 'sec': [x1, y1, x2, y2], 'P': P, 'stat': st, 'tags': tags, 'mask': mask, 'data': data,
            'hasnoise': 'noise.fits' in files, 'model': start}


SOLVERS = {'lm': [], 'nm': ['--nm'], 'de': ['--de'], 'de-lhs': ['--de-lhs'],
           'COBYLA': ['--nlopt', 'COBYLA'], 'BOBYQA': ['--nlopt', 'BOBYQA'], 'NEWUOA': ['--nlopt', 'NEWUOA'], 'PRAXIS': ['--nlopt', 'PRAXIS'],
           'NM': ['--nlopt', 'NM'], 'SBPLX': ['--nlopt', 'SBPLX']}

# ------------------------------------------------------------------ output parsers
FLOAT = r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|nan|inf)'


def parse_params(text):
    """best-fit / interrupted parameter file -> list of (name, value, fixed?) plus header dict; None when malformed."""
    out = []; hdr = {}
    for ln in text.decode('latin1').split('\n'):
        if ln.startswith('#'):
            m = re.match(r'#\s+(Algorithm|Fit statistic|Best-fit value|Reduced value|AIC|BIC):\s*(.*)', ln)
            if m: hdr[m.group(1)] = m.group(2)
            continue
        if not ln.strip() or ln.startswith('FUNCTION'): 
            if ln.startswith('FUNCTION'): out.append((ln.split()[1], None, None))
            continue
        w = ln.split('#')[0].split()
        if len(w) < 2: return None, hdr
        try: out.append((w[0], float(w[1]), ' '.join(w[2:])))
        except ValueError: return None, hdr
    return out, hdr


def values(pl): return [(n, v) for n, v, f in pl if v is not None]


def stat_from_stdout(out):
    o = out.decode('latin1')
    for pat in (r'^ *(?!INITIAL)(?:[A-Z-]+ )*(?:CHI-SQUARE|STATISTIC) = +(%s)' % FLOAT, r'FIT STATISTIC = +(%s)' % FLOAT, r'Fit statistic = +(%s)' % FLOAT, r'final Fit-Statistic value = (%s)' % FLOAT):
        m = re.findall(pat, o, re.M | (0 if '^' in pat else re.I))
        if m: return float(m[-1])
    return None


def data_rows(b):
    """numeric rows of a bootstrap / chain file: (complete rows, trailing partial line or '')"""
    t = b.decode('latin1'); lines = t.split('\n'); tail = lines.pop()
    return [l for l in lines if l and not l.startswith('#')], tail


def is_image(name): return name.endswith('.fits')
