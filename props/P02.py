"""P02: an explicit seed makes every stochastic result repeatable, whatever the environment."""
import re
from frame import Outcome
from scen import *
ID = 'P02'
PROGS = ['imfit', 'imfit-mcmc', 'multimfit', 'makeimage']
COUNT = {'quick': 210, 'thorough': 5000}
RULE = ('Each case is a random data set, model, solver / resampling / MCMC mode and seed; it is executed once in a baseline environment and then in 2-3 environments with different wall-clock time, clock '
        'behaviour (frozen, slow, backwards, jumps), process id, system entropy, heap garbage and layout, and thread schedule. A case is non-trivial when random numbers were consumed by the program or the environment differed in '
        'schedule; distinct = (mode, seed, environment) signature.')
ASSUMPTIONS = ['Same executable, same number of threads in the compared runs.']
DET = ['lm', 'nm', 'COBYLA', 'BOBYQA', 'NEWUOA', 'NM', 'SBPLX']


def describe(c): return '%s %s; %d environments' % (c['ref']['prog'], ' '.join(map(str, c['ref']['args'])), len(c['envs']))


SEEDS = [1, 2, 65535, 2**31 - 1, 2**31, 3000000000, 2**32 - 1]    # boundaries of the integer types a seed passes through


def env(rng, cores):
    d = dict(clockBase=rng.choice([1, 999999999, 1500000000, 1700000000, 2100000000]) + rng.below(1000), clockMode=rng.choice([0, 0, 1, 2, 3]), seedClock=rng.below(1 << 40), pid=rng.rng(2, 60000),
             seedEntropy=rng.below(1 << 40), seedHeap=rng.below(1 << 40), heapFill=rng.choice([0, 1, 1, 2, 3, 4, 5]), heapLayout=rng.below(2))
    if cores > 1: d.update(schedMode=rng.choice([0, 1, 3, 4, 5]), schedP=rng.choice([200, 1000, 5000]), seedSched=rng.below(1 << 40))
    j = [[rng.rng(1, 12), rng.choice([-1, 1]) * rng.rng(1, 10**15)] for _ in range(rng.below(3))]
    return d, j


def make(rng, i, tier, ctx):
    cores = rng.choice([1, 1, 1, 2, 4])
    mode = ['de', 'de-lhs', 'mcmc', 'boot', 'mcmc', 'boot', 'PRAXIS', 'det', 'mcmc', 'boot-nm', 'multi', 'lhs-boot'][i % 12]
    heavy = mode in ('de', 'de-lhs', 'lhs-boot')
    if mode == 'multi': return make_multi(rng, i)
    sc = fit_scene(rng, nx=rng.rng(5, 7) if heavy else None, ny=rng.rng(5, 7) if heavy else None, maxsets=1 if heavy else 2, need_limits=mode in ('de', 'de-lhs', 'lhs-boot', 'mcmc', 'PRAXIS'), positive=rng.chance(0.3),
                   allow=('mask', 'noise', 'section', 'gain', 'fixed', 'limits', 'model') if heavy else ('mask', 'noise', 'psf', 'section', 'gain', 'fixed', 'limits', 'model'))
    seed = rng.choice(SEEDS) if rng.chance(0.4) else rng.rng(1, 10**6)
    args = [sc['image'], '-c', 'cfg.dat'] + sc['args']
    seeded = True
    if mode == 'mcmc':
        prog = 'imfit-mcmc'; args += ['-o', 'ch', '--nchains', str(rng.rng(3, 5)), '--max-chain-length', str(rng.rng(30, 90)), '--burnin-length', str(rng.rng(10, 60)), '--gelman-evals', str(rng.choice([10, 20, 50]))]
    else:
        prog = 'imfit'
        sol = {'de': 'de', 'de-lhs': 'de-lhs', 'boot': rng.choice(['lm', 'lm', 'SBPLX']), 'PRAXIS': 'PRAXIS', 'det': rng.choice(DET), 'boot-nm': rng.choice(['nm', 'NM', 'BOBYQA']), 'lhs-boot': rng.choice(['de-lhs', 'de'])}[mode]
        args += SOLVERS[sol] + ['--save-model', 'm.fits', '--save-residual', 'r.fits', '--ftol', '1e-4' if heavy else '1e-6']
        if 'boot' in mode: args += ['--bootstrap', str(rng.rng(2, 5)), '--save-bootstrap', 'boot.txt']
        if mode == 'det': seeded = rng.chance(0.3)
    if seeded: args += ['--seed', str(seed)]
    args += ['--max-threads', str(cores)]
    envs = [env(rng, cores) for _ in range(2)]
    return {'ref': spec(prog, args, sc['files'], cores=cores, heapFill=1), 'envs': envs, 'mode': mode, 'seed': seed, 'seeded': seeded}


def make_multi(rng, i):
    from multi import multi_scene
    sc = multi_scene(rng, fit=True)
    seed = rng.choice(SEEDS) if rng.chance(0.4) else rng.rng(1, 10**6)
    args = ['-c', 'cfg.dat', '-i', 'info.dat', '--save-model', 'mm', '--seed', str(seed)]
    k = rng.below(3)
    if k == 0: args += ['--nm']
    return {'ref': spec('multimfit', args, sc['files'], heapFill=1), 'envs': [env(rng, 1) for _ in range(2)], 'mode': 'multi', 'seed': seed, 'seeded': True}


TS = re.compile(rb'^(#? ?Generated on .*|# Generated on .*|\(Elapsed time.*|\s*\(?Elapsed.*)$', re.M)
RATE = re.compile(rb'^.*(seconds|Elapsed|elapsed|sec).*$', re.M)


DATE = re.compile(rb"DATE    = '[-0-9T:]*'")


def norm(b): return DATE.sub(b'DATE', TS.sub(b'', b))


def execute(c, ctx):
    o = Outcome()
    r0 = ctx.run(c['ref']); o.probe('mode:' + c['mode'])
    if r0.kind not in (1,): o.probe('baseline did not exit normally: ' + r0.how)
    if not r0.ok: o.probe('baseline failed')
    if r0.s['entropyCalls']: o.probe('program asked the system for entropy')
    for e, jumps in c['envs']:
        s = dict(c['ref']); s['set'] = dict(s['set'], **e); s['jumps'] = jumps; s['set']['stepLimit'] = r0.s['steps'] * 4 + 10**6
        r = ctx.run(s)
        if r0.ok: o.key(c['mode'], c['seed'], e['seedEntropy'])
        what = 'environment %s' % e
        if r.how != r0.how: o.bad('%s:outcome' % c['mode'], '%s vs %s; %s' % (r0.how, r.how, what)); break
        if sorted(r.files) != sorted(r0.files): o.bad('%s:files' % c['mode'], '%s vs %s; %s' % (sorted(r0.files), sorted(r.files), what)); break
        for n in sorted(r0.files):
            if norm(r.files[n]) != norm(r0.files[n]):
                a, b = norm(r0.files[n]), norm(r.files[n]); k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
                o.bad('%s:output' % c['mode'], '%s differs at byte %d: %r vs %r; %s' % (n, k, a[max(0, k - 40):k + 60], b[max(0, k - 40):k + 60], what))
                break
        if o.v: break
        a, b = RATE.sub(b'', r0.out), RATE.sub(b'', r.out)
        if a != b:
            k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
            o.bad('%s:stdout' % c['mode'], 'standard output differs: %r vs %r; %s' % (a[max(0, k - 60):k + 80], b[max(0, k - 60):k + 80], what))
        if o.v: break
    return o


def shrink(c):
    if len(c['envs']) > 1:
        for e in c['envs']: yield dict(c, envs=[e])
        return
    e, j = c['envs'][0]
    if j: yield dict(c, envs=[[e, []]])
    base = dict(clockBase=1500000000, clockMode=0, seedClock=0, pid=4242, seedEntropy=0, seedHeap=0, heapFill=1, heapLayout=0, schedMode=0)
    for k, v in base.items():
        if k in e and e[k] != v: yield dict(c, envs=[[dict(e, **{k: v}), j]])
