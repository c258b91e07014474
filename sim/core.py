"""Driver side of the simulator: run specifications, the fork-server client, FITS I/O, hashing."""
import hashlib, json, os, struct, subprocess, sys, zlib, base64

EK = {0: 'none', 1: 'exit', 2: 'crash', 3: 'sigint-default', 4: 'step-limit', 5: 'deadlock', 6: 'io-limit',
      7: 'sim-error', 8: 'returned', 10: 'signal', 20: 'wall-timeout'}
OPS = ['OPEN_R', 'OPEN_W', 'READ', 'WRITE', 'CLOSE', 'UNLINK', 'SEEK', 'STAT', 'RENAME', 'TRUNC', 'FSYNC', 'ALLOC', 'TIME', 'ENTROPY']
OPN = {n: i for i, n in enumerate(OPS)}
ACTS = ['NONE', 'ERR', 'SHORT', 'SHORT_ERR', 'CRASH', 'CRASH_PARTIAL', 'SIGINT', 'NULL', 'FLIP']
ACTN = {n: i for i, n in enumerate(ACTS)}
EIO, ENOSPC, EACCES, ENOENT, ENOMEM, EMFILE, EDQUOT, EROFS = 5, 28, 13, 2, 12, 24, 122, 30


class HarnessError(Exception):
    pass


CPUINFO = lambda cores: ''.join(
    'processor\t: %d\nvendor_id\t: SimIntel\nphysical id\t: 0\nsiblings\t: %d\ncore id\t\t: %d\ncpu cores\t: %d\n\n' % (i, cores, i, cores)
    for i in range(cores)).encode()


def spec(prog, args, files=None, **kw):
    """files: {name: bytes} inputs (read-only by contract); dirs: list; kw: simulator settings; rules: list of dicts."""
    s = {'prog': prog, 'args': list(args), 'files': dict(files or {}), 'dirs': list(kw.pop('dirs', [])),
         'rw': dict(kw.pop('rw', {})), 'rules': list(kw.pop('rules', [])), 'env': dict(kw.pop('env', {})),
         'jumps': list(kw.pop('jumps', [])), 'set': {}}
    s['set'].update(kw)
    return s


def rule(op, glob='*', nth=1, act='ERR', err=EIO, persistent=0, arg=0):
    return {'op': op, 'glob': glob, 'nth': nth, 'persistent': persistent, 'act': act, 'err': err, 'arg': arg}


def encode(s):
    L, blobs = [], []
    L.append('arg ' + s['prog'].split('@')[0])
    for a in s['args']: L.append('arg ' + str(a))
    for k, v in s['env'].items(): L.append('env %s=%s' % (k, v))
    cores = s['set'].get('cores', 1)
    files = dict(s['files'])
    files.setdefault('/proc/cpuinfo', CPUINFO(cores))
    for d in s['dirs']: L.append('file 2 0 0 ' + d)
    for n in sorted(files):
        L.append('file 1 1 %d %s' % (len(files[n]), n)); blobs.append(files[n])
    for n in sorted(s['rw']):
        L.append('file 1 0 %d %s' % (len(s['rw'][n]), n)); blobs.append(s['rw'][n])
    for k, v in sorted(s['set'].items()): L.append('%s %d' % (k, v))
    for a, ns in s['jumps']: L.append('jump %d %d' % (a, ns))
    for r in s['rules']:
        L.append('rule %d %s %d %d %d %d %d' % (OPN[r['op']], r['glob'], r['nth'], r['persistent'], ACTN[r['act']], r['err'], r['arg']))
    h = ('\n'.join(L) + '\n').encode()
    b = b''.join(blobs)
    return struct.pack('<QQ', len(h), len(h) + len(b)) + h + b


class Result:
    __slots__ = ('kind', 'code', 'signal', 'note', 'canary', 'site', 's', 'rulecounts', 'out', 'err', 'files', 'meta', 'log_raw', 'logn', 'spec')

    @property
    def how(self):
        k = EK.get(self.kind, str(self.kind))
        if k == 'exit': return 'exit %d' % (self.code if self.code < 128 else self.code - 256)
        if k == 'signal': return 'signal %d' % self.signal
        return k

    @property
    def ok(self): return self.kind == 1 and self.code == 0

    def log(self):
        names = self.idx()
        out = []
        for i in range(self.logn):
            op, act, f, err, a, step = struct.unpack_from('<BBhiqQ', self.log_raw, i * 24)
            out.append((OPS[op], names.get(f, ''), a, ACTS[act], err, step))
        return out

    def idx(self): return {m['i']: n for n, m in self.meta.items()}

    def written(self):
        return sorted(n for n, m in self.meta.items() if m['wopens'] or m['writes'] or m['unlinks'])

    def digest(self, full=True):
        h = hashlib.sha256()
        h.update(('%d %d %d' % (self.kind, self.code, self.signal)).encode())
        h.update(self.out); h.update(b'|'); h.update(self.err)
        for n in sorted(self.files):
            h.update(n.encode()); h.update(b'\0'); h.update(self.files[n])
        if full:
            for k in sorted(self.s): h.update(('%s=%d' % (k, self.s[k])).encode())
            h.update(self.log_raw)
        return h.hexdigest()


class Server:
    def __init__(self, exe, wall=60, cpu=None):
        self.exe, self.wall, self.cpu, self.p = exe, wall, cpu, None

    def start(self):
        pre = (lambda: os.sched_setaffinity(0, {self.cpu})) if self.cpu is not None else None
        env = {'PATH': '/usr/bin:/bin', 'TZ': 'UTC0', 'LC_ALL': 'C'}
        self.p = subprocess.Popen([self.exe, str(self.wall)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  preexec_fn=pre, env=env)

    def _read(self, n):
        b = self.p.stdout.read(n)
        if b is None or len(b) < n: raise HarnessError('simulator process died (%s)' % self.exe)
        return b

    def run(self, s):
        if self.p is None: self.start()
        self.p.stdin.write(encode(s)); self.p.stdin.flush()
        hl, bl = struct.unpack('<QQ', self._read(16))
        h = self._read(hl).decode('latin1'); blob = self._read(bl) if bl else b''
        r = Result(); r.s = {}; r.rulecounts = []; r.files = {}; r.meta = {}; r.spec = s
        pos = 0; olen = 0
        for ln in h.split('\n'):
            if not ln: continue
            k, _, v = ln.partition(' ')
            if k == 'kind': r.kind = int(v)
            elif k == 'code': r.code = int(v)
            elif k == 'signal': r.signal = int(v)
            elif k == 'note': r.note = v
            elif k == 'canary': r.canary = v
            elif k == 'site': r.site = v
            elif k == 's': a, b = v.split(' '); r.s[a] = int(b)
            elif k == 'r': a = v.split(' '); r.rulecounts.append((int(a[1]), int(a[2])))
            elif k == 'out':
                a, b = map(int, v.split(' ')); r.out = blob[:a]; r.err = blob[a:a + b]; pos = a + b
            elif k == 'f':
                a = v.split(' ', 10); used, ro, wo, wr, ul, nr, ro_, sz, send, i = map(int, a[:10])
                r.meta[a[10]] = dict(used=used, ro=ro, wopens=wo, writes=wr, unlinks=ul, reads=nr, ropens=ro_, size=sz, i=i)
                if send: r.files[a[10]] = blob[pos:pos + sz]; pos += sz
            elif k == 'log':
                a, b = map(int, v.split(' ')); r.logn = a; r.log_raw = blob[pos:pos + a * b]
        if r.kind == 7: raise HarnessError('simulator error: ' + r.note)
        return r

    def close(self):
        if self.p:
            try: self.p.stdin.close(); self.p.wait(5)
            except Exception: self.p.kill()
            self.p = None


# ---------------------------------------------------------------- FITS
def _card(k, v):
    if isinstance(v, bool): t = '%-8s= %20s' % (k, 'T' if v else 'F')
    elif isinstance(v, int): t = '%-8s= %20d' % (k, v)
    else: t = '%-8s= %20s' % (k, v)
    return t.ljust(80)


def fits(data, nx, ny, bitpix=-32, extra=()):
    """data: row-major list/array of ny*nx numbers."""
    hdr = [_card('SIMPLE', True), _card('BITPIX', bitpix), _card('NAXIS', 2), _card('NAXIS1', nx), _card('NAXIS2', ny)]
    for k, v in extra: hdr.append(_card(k, v))
    hdr.append('END'.ljust(80))
    h = ''.join(hdr); h = h.ljust((len(h) + 2879) // 2880 * 2880)
    fmt = {-32: 'f', -64: 'd', 16: 'h', 32: 'i', 8: 'B'}[bitpix]
    b = struct.pack('>%d%s' % (nx * ny, fmt), *data)
    b += b'\0' * (-len(b) % 2880)
    return h.encode('ascii') + b


class BadFits(Exception):
    pass


def read_fits(b):
    """Strict reader: raises BadFits for anything a FITS consumer would not read in full. Returns (nx, ny, bitpix, values, header)."""
    if len(b) == 0 or len(b) % 2880: raise BadFits('size %d is not a whole number of FITS blocks' % len(b))
    hdr = {}; pos = 0; done = False
    while not done:
        if pos + 2880 > len(b): raise BadFits('header without END')
        blk = b[pos:pos + 2880].decode('latin1'); pos += 2880
        for i in range(36):
            c = blk[80 * i:80 * i + 80]; k = c[:8].strip()
            if k == 'END': done = True; break
            if c[8:10] == '= ': hdr.setdefault(k, c[10:].split(' /')[0].strip())
    try:
        if hdr['SIMPLE'] != 'T': raise BadFits('not SIMPLE')
        bp, nax = int(hdr['BITPIX']), int(hdr['NAXIS'])
        if nax != 2: raise BadFits('NAXIS=%d' % nax)
        nx, ny = int(hdr['NAXIS1']), int(hdr['NAXIS2'])
    except KeyError as e: raise BadFits('missing keyword %s' % e)
    n = nx * ny; sz = abs(bp) // 8
    if len(b) < pos + n * sz: raise BadFits('data truncated')
    fmt = {-32: 'f', -64: 'd', 16: 'h', 32: 'i', 8: 'B'}[bp]
    v = struct.unpack('>%d%s' % (n, fmt), b[pos:pos + n * sz])
    return nx, ny, bp, v, hdr


# ---------------------------------------------------------------- PRNG (independent of Python's random implementation details)
class Rng:
    def __init__(self, *seed):
        self.s = int.from_bytes(hashlib.sha256(repr(seed).encode()).digest()[:8], 'little')

    def u64(self):
        self.s = (self.s + 0x9E3779B97F4A7C15) & (2**64 - 1); z = self.s
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & (2**64 - 1); z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & (2**64 - 1)
        return z ^ (z >> 31)

    def below(self, n): return self.u64() % n if n > 0 else 0
    def rng(self, a, b): return a + self.below(b - a + 1)
    def f(self): return (self.u64() >> 11) / float(1 << 53)
    def uni(self, a, b): return a + (b - a) * self.f()
    def choice(self, l): return l[self.below(len(l))]
    def chance(self, p): return self.f() < p

    def gauss(self):
        import math
        u = max(self.f(), 1e-300); return math.sqrt(-2 * math.log(u)) * math.cos(2 * math.pi * self.f())

    def shuffle(self, l):
        for i in range(len(l) - 1, 0, -1):
            j = self.below(i + 1); l[i], l[j] = l[j], l[i]
        return l

    def sample(self, l, k): return self.shuffle(list(l))[:k]


def pack_spec(s):
    d = dict(s)
    for k in ('files', 'rw'):
        d[k] = {n: base64.b64encode(zlib.compress(b, 9)).decode() for n, b in s[k].items()}
    return d


def unpack_spec(d):
    s = dict(d)
    for k in ('files', 'rw'):
        s[k] = {n: zlib.decompress(base64.b64decode(b)) for n, b in d[k].items()}
    return s
