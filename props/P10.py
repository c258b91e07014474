"""P10: a refused image-sized memory request leads to an error or a reported omission, never to a crash, a hang or a different result."""
import re, time
from frame import Outcome
from scenes import *
from props.P02 import norm
ID = 'P10'
COUNT = {'quick': 460, 'thorough': 4000}
RULE = ('Each case is a random valid scene of one of the programs with images of 34x34 pixels or more; after a fault-free run has counted the memory requests of at least image size, several runs each refuse one of them '
        '(a seeded occurrence; alone, or together with all later ones). Distinct = (program, call site of the refused request, alone/all later, outcome).')
ASSUMPTIONS = ['Only requests of at least 9216 bytes (a 34x34 image of doubles) are refused; smaller ones always succeed.', 'A termination by the FFTW library itself (it prints an assertion and exits with a failure status) counts as an error with a message.']
WORD = re.compile(r'error|warning|memor|alloc|fail|unable|could ?n.t|can ?not|problem', re.I)
SIZE = 9216
ORDER = ['makeimage', 'imfit', 'makeimage', 'imfit-mcmc', 'imfit', 'multimfit', 'makeimage', 'makemultimages', 'imfit', 'fitstat', 'imfit', 'psfconvolve1d']


def describe(c): return '%s %s; refused: %s' % (c['ref']['prog'], ' '.join(map(str, c['ref']['args'])), ', '.join('#%d%s' % (n, '+' if p else '') for n, p in c['plans']))


def scene(rng, i):
    k = ORDER[i % len(ORDER)]; size = (rng.rng(34, 38), rng.rng(34, 38))
    if k == 'psfconvolve1d':
        n, m = rng.rng(1200, 1700), rng.rng(3, 9) if rng.chance(0.5) else rng.rng(1160, 1300)
        a = ''.join('%d %.4f\n' % (k, 100 * math.exp(-k / 90.0)) for k in range(n)); b = ''.join('%d %.6f\n' % (k - m // 2, math.exp(-(k - m // 2) ** 2 / 9.0)) for k in range(m))
        return S('psfconvolve1d', ['prof.txt', 'psf.txt', 'conv.txt'], {'prof.txt': a.encode(), 'psf.txt': b.encode()}, ['psfconvolve1d'], {'conv.txt': 'profile'})
    if k == 'imfit':
        sc = imfit_scene(rng, solver=rng.choice(['lm', 'lm', 'lm', 'nm', 'BOBYQA', 'NM', 'de']), size=size)
        if rng.chance(0.3): sc['args'][sc['args'].index('--max-threads') + 1] = '3'
        return sc
    if k == 'imfit-mcmc':
        sc = mcmc_scene(rng, length=rng.rng(30, 90), size=size)
        if rng.chance(0.5):       # long chains (whose storage is image-sized) which converge early
            a = sc['args']; a[a.index('--max-chain-length') + 1] = str(rng.choice([400, 3000, 20000])); a[a.index('--burnin-length') + 1] = '5'; a[a.index('--gelman-evals') + 1] = '10'; a += ['--gelman-rubin-limit', '1e6']; sc['tags'].append('long chains')
        return sc
    if k == 'makeimage': return makeimage_scene(rng, size=size)
    return dict(GEN)[k](rng, size=size)


def make(rng, i, tier, ctx):
    sc = scene(rng, i)
    s = spec(sc['prog'], sc['args'], sc['files'], heapFill=rng.choice([0, 1, 2, 3]), stepLimit=3 * 10**8, rules=[rule('ALLOC', '*', 10**9, 'NULL', 12, 0, arg=SIZE)])
    t0 = time.time(); r = ctx.run(s); dt = time.time() - t0
    if not r.ok or dt > 2.0: return None
    n = r.rulecounts[0][0]
    if not n: return None
    plans = []; work = r.s['steps'] + r.s.get('accesses', 0); k = (8 if work < 25 * 10**6 else 4 if work < 10**8 else 2) * (1 if tier == 'quick' else 2)
    for _ in range(k):
        w = rng.below(4)
        nth = rng.rng(1, n) if w < 2 else rng.rng(1, min(n, 30)) if w == 2 else max(1, n - rng.below(12))
        plans.append([nth, int(rng.chance(0.35))])
    return {'ref': s, 'plans': plans, 'outs': sc['outs'], 'tags': sc['tags']}


def subsequence(a, b):
    it = iter(norm(a).split(b'\n')); return all(l in it for l in norm(b).split(b'\n'))


def execute(c, ctx):
    o = Outcome(); prog = c['ref']['prog']
    r0 = ctx.run(c['ref'])
    if not r0.ok: return o
    text0 = set((r0.out + b'\n' + r0.err).decode('latin1').split('\n'))
    for nth, pers in c['plans']:
        s = dict(c['ref']); s['set'] = dict(s['set'], stepLimit=r0.s['steps'] * 4 + 2 * 10**6, ioLimit=r0.s['ioOps'] * 10 + 10000)
        s['rules'] = [rule('ALLOC', '*', nth, 'NULL', 12, pers, arg=SIZE)]
        r = ctx.run(s)
        if not r.rulecounts[0][1]: continue
        site = r.site; what = 'request #%d%s refused in %s (outcome: %s %s)' % (nth, ' and all later ones' if pers else '', site, r.how, r.note)
        at = '%s:%s' % (prog, site.split('<')[0])
        new = [l for l in (r.out + b'\n' + r.err).decode('latin1').split('\n') if l not in text0]
        said = any(WORD.search(l) for l in new)
        o.key(prog, site, pers, r.how, said)
        if r.kind in (4, 6, 5, 20): o.bad('hang:' + at, what); break
        if r.kind != 1: o.bad('crash:' + at, what); break
        if r.s['canaryBad'] or r.s['badFree']: o.bad('corruption:' + at, r.canary + '; ' + what); break
        bad = []
        for f in sorted(set(r0.files) | set(r.files)):
            a, b = r0.files.get(f), r.files.get(f)
            if b is None or (a is not None and norm(a) == norm(b)): continue
            if any(f in l and WORD.search(l) for l in new): continue        # the program says that this file is not good
            role = c['outs'].get(f)
            if said and role == 'bootstrap' and a is not None and subsequence(a, b): continue       # failed resamplings are reported and left out
            if r.code and (not b or (a is not None and not is_image(f) and norm(a).startswith(norm(b)))): continue
            bad.append(f)
        if bad: o.bad('wrong:' + at, '%s differ(s) from the run with enough memory; %s' % (bad, what)); break
        missing = [f for f in r0.files if f not in r.files]
        if (r.code or missing) and not said: o.bad('silent:' + at, '%s not written, nothing said; %s' % (missing, what)); break
        o.probe('error status with message' if r.code else 'continued and said so' if said else 'absorbed, results identical')
    return o


def shrink(c):
    if len(c['plans']) > 1:
        for p in c['plans']: yield dict(c, plans=[p])
        return
    n, p = c['plans'][0]
    if p: yield dict(c, plans=[[n, 0]])
