"""Small helpers: minimal FITS files, running the programs in the current directory (/repo)."""
import os, struct, subprocess, sys, tempfile, shutil, atexit
REPO = os.getcwd()

def scratch():
    d = tempfile.mkdtemp(prefix='demo')
    atexit.register(shutil.rmtree, d, True)
    return d

def write(fn, nx, ny, vals):
    cards = ['SIMPLE  =                    T', 'BITPIX  =                  -64', 'NAXIS   =                    2',
             'NAXIS1  = %20d' % nx, 'NAXIS2  = %20d' % ny, 'END']
    h = ''.join(c.ljust(80) for c in cards).encode()
    h += b' ' * (-len(h) % 2880)
    b = struct.pack('>%dd' % len(vals), *vals)
    open(fn, 'wb').write(h + b + b'\0' * (-len(b) % 2880))

def read(fn):
    b = open(fn, 'rb').read()
    hdr, off = {}, 0
    while True:
        c = b[off:off + 80].decode(); off += 80
        if c.startswith('END '): break
        if c[8:10] == '= ': hdr[c[:8].strip()] = c[10:].split('/')[0].strip()
    off += -off % 2880
    n = int(hdr['NAXIS1']) * int(hdr['NAXIS2'])
    bp = int(hdr['BITPIX'])
    v = struct.unpack('>%d%s' % (n, {-32: 'f', -64: 'd', 16: 'h', 32: 'i'}[bp]), b[off:off + n * abs(bp) // 8])
    return int(hdr['NAXIS1']), int(hdr['NAXIS2']), list(v)

def run(d, prog, *args, **env):
    e = dict(os.environ); e.update(env)
    p = subprocess.run([os.path.join(REPO, prog)] + [str(a) for a in args], cwd=d, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=250)
    return p.returncode, p.stdout.decode('latin1')

def put(d, name, text):
    open(os.path.join(d, name), 'w').write(text)

def fail(msg):
    print('FAIL:', msg); sys.exit(1)
