#!/usr/bin/env python3
"""Builds the simulated programs (and the API harness) from /repo's current working tree.
Objects are cached by content hash in /verif/build (git-ignored); nothing is written to /repo."""
import hashlib, json, os, subprocess, sys, glob, fcntl
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
OUT = os.environ.get('SIM_BUILD', os.path.join(os.path.dirname(HERE), 'build'))
INC = ['.', 'core', 'solvers', 'cdream', 'cdream/include', 'function_objects', 'function_objects_1d', 'profile_fitting']
FLAGS = ['-O1', '-g1', '-fno-pie', '-w', '-msse2', '-fopenmp', '-std=c++11', '-fsanitize=thread', '-ffp-contract=off',
         '-DANSI', '-DUSING_SCONS', '-DLINUX', '-DFFTW_THREADING', '-DUSE_OPENMP', '-include', 'cstring'] + ['-I' + os.path.join(REPO, d) for d in INC]
LIBS = ['-lcfitsio', '-lfftw3_threads', '-lfftw3', '-lgsl', '-lgslcblas', '-lnlopt', '-lm', '-lpthread', '-ldl']
SIMFLAGS = ['-O2', '-g1', '-std=c++17', '-fno-pie', '-w', '-I' + HERE]

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:32]

def headers():
    fs = []
    for d in INC:
        for pat in ('*.h', '*.hpp', '*.hh', '*.inc'):
            fs += glob.glob(os.path.join(REPO, d, pat))
    return sha(*[open(f, 'rb').read() for f in sorted(set(fs))], *sorted(set(fs)))

def build(programs=None, verbose=False):
    os.makedirs(os.path.join(OUT, 'obj'), exist_ok=True)
    lock = open(os.path.join(OUT, '.lock'), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    cfg = json.load(open(os.path.join(HERE, 'programs.json')))
    hh = headers()
    simh = sha(*[open(f, 'rb').read() for f in sorted(glob.glob(os.path.join(HERE, '*.h')))])
    progs = programs or list(cfg['programs']) + ['simlib']
    jobs = {}
    def obj(src, flags, extra=''):
        key = sha(open(src, 'rb').read(), src, ' '.join(flags), extra)
        o = os.path.join(OUT, 'obj', key + '.o')
        jobs[o] = (src, flags)
        return o
    simrt = obj(os.path.join(HERE, 'simrt.cpp'), SIMFLAGS, simh); simmain = obj(os.path.join(HERE, 'simmain.cpp'), SIMFLAGS, simh)
    links = {}
    for p in progs:
        base, _, var = p.partition('@')
        fl = [('-O0' if f == '-O1' else f) for f in FLAGS] if var == '0' else FLAGS
        if p == 'simlib':
            srcs = cfg['common'] + [s for s in cfg['programs']['multimfit'] if 'main' not in s]
            os_ = [obj(os.path.join(REPO, s), FLAGS, hh) for s in srcs]
            hs = os.path.join(HERE, 'simlib.cpp')
            if not os.path.exists(hs): continue
            os_.append(obj(hs, [f for f in FLAGS if f != '-fsanitize=thread'] + ['-Dmain=prog_main'], hh))
        else:
            srcs = ([] if base == 'psfconvolve1d' else cfg['common']) + cfg['programs'][base]
            os_ = [obj(os.path.join(REPO, s), fl + (['-Dmain=prog_main'] if s.endswith('_main.cpp') else []), hh) for s in srcs]
        links[p] = os_ + [simrt, simmain]
    def comp(o):
        if os.path.exists(o): return None
        src, flags = jobs[o]
        r = subprocess.run(['g++'] + flags + ['-c', src, '-o', o + '.tmp'], capture_output=True, text=True)
        if r.returncode: return '%s\n%s' % (src, r.stderr[:4000])
        os.rename(o + '.tmp', o); return None
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(comp, list(jobs)) if e]
    if errs:
        sys.stderr.write('BUILD FAILED\n' + '\n'.join(errs) + '\n'); raise SystemExit(3)
    res = {}
    def link(p):
        key = sha(*links[p]); exe = os.path.join(OUT, '%s-%s' % (p, key))
        if not os.path.exists(exe):
            for old in glob.glob(os.path.join(OUT, p + '-' + '[0-9a-f]' * 32)): os.unlink(old)
            r = subprocess.run(['g++', '-no-pie', '-rdynamic', '-o', exe + '.tmp'] + links[p] + LIBS, capture_output=True, text=True)
            if r.returncode: return p, None, r.stderr[:4000]
            os.rename(exe + '.tmp', exe)
        return p, exe, ''
    with ThreadPoolExecutor(4) as ex:
        for p, exe, err in ex.map(link, list(links)):
            if not exe: sys.stderr.write('LINK FAILED %s\n%s\n' % (p, err)); raise SystemExit(3)
            res[p] = exe
    # drop objects no longer referenced when the cache grows
    objs = glob.glob(os.path.join(OUT, 'obj', '*.o'))
    if len(objs) > 1500:
        for o in objs:
            if o not in jobs: os.unlink(o)
    return res

if __name__ == '__main__':
    print(json.dumps(build(sys.argv[1:] or None), indent=1))
