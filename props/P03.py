"""P03: outputs never depend on uninitialised memory or allocation placement; memory is never corrupted."""
from frame import Outcome
from scenes import *
from props.P02 import norm, RATE
ID = 'P03'
COUNT = {'quick': 620, 'thorough': 9000}
RULE = ('Each case is a random valid scene of one of the six programs (about one in six a user mistake, so that error paths run); it is executed once with zero-filled memory and then with 2-3 other initial memory contents '
        '(random bytes, NaN patterns, 0xAA, huge values, small integers; heap and stack) and allocation placements. All outputs, messages and the outcome must be byte-identical, no guard zone may be overwritten and no wrong pointer freed. '
        'Distinct = (program, feature set, garbage kind, placement).')
ASSUMPTIONS = ['Memory obtained by FFTW/CFITSIO/GSL/NLopt through malloc is filled with garbage too; registers and never-written stack slots below the simulated stack fill are not varied.']
SLOWSTEP = 3 * 10**8


def describe(c): return '%s %s [%s]; %d memory environments' % (c['ref']['prog'], ' '.join(map(str, c['ref']['args'])), ' '.join(c['tags']), len(c['envs']))


def make(rng, i, tier, ctx):
    sc = any_scene(rng, i, CYCLE + ['makeimage', 'multimfit'])
    tags = list(sc['tags'])
    if rng.chance(0.16): wrong(rng, sc); tags = sc['tags']
    prog = sc['prog'] + ('@0' if rng.chance(0.35) and sc['prog'] in ('makeimage', 'imfit') else '')
    fills = [1, 2, 3, 4, 5]; rng.shuffle(fills)
    envs = [dict(heapFill=f, heapLayout=rng.below(2), seedHeap=rng.below(1 << 40)) for f in fills[:2]]
    return {'ref': spec(prog, sc['args'], sc['files'], heapFill=0), 'envs': envs, 'tags': tags}


PROGS = PROGS + ['makeimage@0', 'imfit@0']


def memory_bad(o, r, what):
    if r.s['canaryBad']: o.bad('corruption:%s' % r.spec['prog'].split('@')[0], 'write outside an allocation (%s); %s' % (r.canary, what))
    elif r.s['badFree']: o.bad('badfree:%s' % r.spec['prog'].split('@')[0], 'free of a pointer that is not an allocation; %s' % what)


def execute(c, ctx):
    o = Outcome(); s0 = dict(c['ref']); s0['set'] = dict(s0['set'], stepLimit=SLOWSTEP)
    r0 = ctx.run(s0); prog = c['ref']['prog'].split('@')[0]
    for t in c['tags']: o.probe(t)
    o.probe('outcome:' + r0.how.split()[0] + (' error' if r0.kind == 1 and r0.code else ''))
    if r0.kind == 4: o.probe('skipped: too long'); return o
    memory_bad(o, r0, 'memory zero-filled')
    for e in c['envs']:
        s = dict(c['ref']); s['set'] = dict(s['set'], **e); s['set']['stepLimit'] = r0.s['steps'] * 4 + 10**6
        r = ctx.run(s); o.key(prog, ' '.join(sorted(set(c['tags']))), e['heapFill'], e['heapLayout'])
        what = 'memory environment %s' % e
        memory_bad(o, r, what)
        if o.v: break
        if r.how != r0.how: o.bad('outcome:%s' % prog, 'zero-filled memory: %s; %s: %s %s' % (r0.how, what, r.how, r.note)); break
        if sorted(r.files) != sorted(r0.files): o.bad('files:%s' % prog, '%s vs %s; %s' % (sorted(r0.files), sorted(r.files), what)); break
        for n in sorted(r0.files):
            a, b = norm(r0.files[n]), norm(r.files[n])
            if a != b:
                k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
                o.bad('output:%s' % prog, '%s differs at byte %d: %r vs %r; %s' % (n, k, a[max(0, k - 40):k + 60], b[max(0, k - 40):k + 60], what)); break
        if o.v: break
        for a, b in ((RATE.sub(b'', r0.out), RATE.sub(b'', r.out)), (r0.err, r.err)):
            if a != b:
                k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
                o.bad('messages:%s' % prog, 'messages differ: %r vs %r; %s' % (a[max(0, k - 60):k + 80], b[max(0, k - 60):k + 80], what)); break
        if o.v: break
    return o


def shrink(c):
    if len(c['envs']) > 1:
        for e in c['envs']: yield dict(c, envs=[e])
        return
    e = c['envs'][0]
    for f in (3, 1):
        if e['heapFill'] not in (1, 3): yield dict(c, envs=[dict(e, heapFill=f)])
    if e['heapLayout']: yield dict(c, envs=[dict(e, heapLayout=0)])
    a = c['ref']['args']
    for opt, n in (('--save-fluxes', 4), ('--output-functions', 2), ('--overpsf', 6), ('--psf', 2), ('--no-subsampling', 1), ('--bootstrap', 2), ('--save-model', 2), ('--save-residual', 2), ('--save-weights', 2), ('--noise', 2), ('--mask', 2)):
        if opt in a:
            k = a.index(opt); yield dict(c, ref=dict(c['ref'], args=a[:k] + a[k + n:]))
