"""Multi-image scenes for multimfit / makemultimages."""
from scen import *


def multi_scene(rng, fit=True, nim=None, size=None):
    nim = nim or rng.choice([2, 2, 3])
    nx, ny = size or (rng.rng(8, 12), rng.rng(8, 12))
    pos = rng.chance(0.3); sc = fit_scene(rng, nx=nx, ny=ny, maxsets=2, allow=('limits', 'fixed') if fit else (), positive=pos, stat='chi')
    nx, ny = sc['nx'], sc['ny']; files = dict(sc['files']); base = sc['data']
    head = [] if fit else ['NCOLS %d' % nx, 'NROWS %d' % ny]
    files['cfg.dat'] = b'\n'.join([h.encode() for h in head] + [files['cfg.dat']])
    L = ['# images']; tags = ['nim%d' % nim]; dims = []
    for k in range(nim):
        w, h = (nx, ny) if k == 0 or rng.chance(0.5) else (rng.rng(7, 13), rng.rng(7, 13)) if not size else (size[0] + rng.below(5), size[1] + rng.below(5)); dims.append((w, h))
        L.append('IMAGE_START')
        fs = float(num(rng.uni(0.6, 1.6))) if k else 1.0
        dx, dy = (rng.rng(-1, 1), rng.rng(-1, 1)) if k else (0, 0)
        if fit:
            d = [0.0] * (w * h)
            for j in range(h):
                for i in range(w):
                    si, sj = min(max(i - dx, 0), nx - 1), min(max(j - dy, 0), ny - 1)
                    d[j * w + i] = (fs * base[sj * nx + si] + rng.gauss()) if not pos else max(0.0, round(fs * base[sj * nx + si]))
            files['data%d.fits' % k] = fits(d, w, h); L.append('DATA data%d.fits' % k)
            if rng.chance(0.4):
                inv = rng.chance(0.25); mk = [int(rng.chance(0.1)) for _ in range(w * h)]
                files['mask%d.fits' % k] = fits([1 - m for m in mk] if inv else mk, w, h, 16); L.append('MASK mask%d.fits' % k); tags.append('mask')
                if inv: L.append('MASK_ZERO_IS_BAD'); tags.append('maskzero')
                elif rng.chance(0.2): L.append('MASK_ZERO_IS_GOOD')
            if rng.chance(0.4):
                var = rng.chance(0.25); er = [rng.uni(0.8, 3) for _ in range(w * h)]
                files['err%d.fits' % k] = fits([e * e for e in er] if var else er, w, h); L.append('ERROR err%d.fits' % k); tags.append('err')
                if var: L.append('ERRORS_ARE_VARIANCES'); tags.append('variances')
                elif rng.chance(0.2): L.append('ERRORS_ARE_SIGMAS')
            L += ['ORIGINAL_SKY %s' % num(rng.uni(10, 60)), 'GAIN %s' % num(rng.uni(1, 4)), 'READNOISE %s' % num(rng.uni(0.5, 4))]
            if rng.chance(0.15): L.append('EXPTIME %s' % num(rng.uni(0.5, 6)))
            if rng.chance(0.15): L.append('NCOMBINED %d' % rng.rng(2, 5))
            if rng.chance(0.2): L.append('WEIGHT %s' % num(rng.uni(0.5, 2)))
        elif rng.chance(0.7): L += ['NCOLS %d' % w, 'NROWS %d' % h]
        else:
            files['data%d.fits' % k] = fits([0.0] * (w * h), w, h); L.append('DATA data%d.fits' % k)
        if rng.chance(0.3):
            files['psf%d.fits' % k] = psf_image(rng, rng.choice([3, 5]), rng.choice([3, 5])); L.append('PSF psf%d.fits' % k); tags.append('psf')
        if rng.chance(0.15 if fit else 0.25):
            x1, y1 = rng.rng(1, w - 4), rng.rng(1, h - 4)
            files['opsf%d.fits' % k] = psf_image(rng, 5, rng.choice([5, 7])); L += ['OVERSAMPLED_PSF opsf%d.fits' % k, 'OVERSAMPLE_SCALE %d' % rng.choice([2, 3]), 'OVERSAMPLED_REGION %d:%d,%d:%d' % (x1, min(w, x1 + rng.rng(2, 5)), y1, min(h, y1 + rng.rng(2, 5)))]; tags.append('over')
        if k:
            fx = lambda p: 'fixed' if rng.chance(p) or not fit else ''
            L.append('PIXEL_SCALE %s %s' % ('1.0' if fit else num(rng.uni(0.8, 1.2)), 'fixed')); L.append('IMAGE_PA %s fixed' % ('0.0' if fit else num(rng.uni(-20, 20))))
            L.append('FLUX_SCALE %s %s' % (num(fs * rng.uni(0.9, 1.1)), rng.choice(['', 'fixed', '0.1,10'])))
            x, y = sc['model'][0]['x0'] + dx, sc['model'][0]['y0'] + dy
            L.append('X0 %s %s' % (num(x), rng.choice(['', '%s,%s' % (num(x - 2), num(x + 2))]) if fit else '')); L.append('Y0 %s %s' % (num(y), rng.choice(['', '%s,%s' % (num(y - 2), num(y + 2))]) if fit else ''))
    files.pop('data.fits', None)
    files['info.dat'] = ('\n'.join(L) + '\n').encode()
    return {'files': files, 'nim': nim, 'tags': tags, 'dims': dims, 'positive': pos}


def shift(line, d):
    """'X0 v [lo,hi|fixed]' with all coordinates moved by d"""
    w = line.split(); num = lambda s: repr(float(s) + d) if s not in ('fixed',) else s
    return ' '.join([w[0], num(w[1])] + [','.join(num(z) for z in x.split(',')) for x in w[2:]])


def add_sections(rng, sc):
    """turns some of the images of a fit scene into sections of larger images (garbage outside); coordinates in the files refer to the full images"""
    from core import read_fits
    L = sc['files']['info.dat'].decode().split('\n'); out = []; k = -1; dx = dy = 0; sec = ''
    for l in L:
        w = l.split()
        if l.startswith('IMAGE_START'): k += 1; dx = dy = 0
        if w[:1] == ['DATA'] and rng.chance(0.7):
            nx, ny, _, v, _ = read_fits(sc['files'][w[1]]); dx, dy = rng.rng(0, 6), rng.rng(0, 6); NX, NY = nx + dx + rng.rng(0, 3), ny + dy + rng.rng(0, 3)
            big = [rng.choice([0.0, 1e5, -300.0]) for _ in range(NX * NY)]
            for j in range(ny): big[(j + dy) * NX + dx:(j + dy) * NX + dx + nx] = v[j * nx:(j + 1) * nx]
            sc['files'][w[1]] = fits(big, NX, NY); l = 'DATA %s[%d:%d,%d:%d]' % (w[1], dx + 1, dx + nx, dy + 1, dy + ny); sc['tags'].append('section%d' % min(k, 1))
            if k == 0:
                for f in ['cfg.dat']: sc['files'][f] = '\n'.join(shift(c, dx if c.startswith('X0') else dy) if c.split()[:1] in (['X0'], ['Y0']) else c for c in sc['files'][f].decode().split('\n')).encode()
        elif w[:1] == ['X0']: l = shift(l, dx)
        elif w[:1] == ['Y0']: l = shift(l, dy)
        out.append(l)
    sc['files']['info.dat'] = '\n'.join(out).encode()
    return sc
