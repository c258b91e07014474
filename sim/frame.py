"""Seeded search over simulated executions: case generation, parallel execution, gating, minimisation, replay, evidence."""
import base64, importlib, json, multiprocessing as mp, os, sys, time, traceback, zlib, hashlib
from collections import Counter
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, VERIF)
import core, build
from core import Server, HarnessError, Rng

KNOWN = os.path.join(VERIF, 'known_findings.txt')


def enc(o):
    if isinstance(o, bytes): return {'__z__': base64.b64encode(zlib.compress(o, 9)).decode()}
    if isinstance(o, dict): return {k: enc(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)): return [enc(v) for v in o]
    return o


def dec(o):
    if isinstance(o, dict):
        if set(o) == {'__z__'}: return zlib.decompress(base64.b64decode(o['__z__']))
        return {k: dec(v) for k, v in o.items()}
    if isinstance(o, list): return [dec(v) for v in o]
    return o


class Guard(HarnessError): pass


class Ctx:
    """Runs simulated executions; everything an execution yields is folded into ctx.trace (for exact-replay comparison)."""
    def __init__(self, exes, cpu=None):
        self.exes, self.cpu, self.servers = exes, cpu, {}
        self.reset()

    def reset(self):
        self.trace = hashlib.sha256(); self.st = Counter(); self.faults = Counter(); self.scheds = set(); self.last = []

    def run(self, s):
        sv = self.servers.get(s['prog'])
        if sv is None:
            sv = self.servers[s['prog']] = Server(self.exes[s['prog']], wall=200, cpu=self.cpu)
        try:
            r = sv.run(s)
        except (HarnessError, BrokenPipeError):
            sv.close(); self.servers.pop(s['prog'], None); raise
        if r.kind == 20: raise Guard('simulated run exceeded the processor-time guard: %s' % ' '.join(map(str, s['args'])))
        self.trace.update(r.digest().encode())
        st = self.st
        st['runs'] += 1; st['steps'] += r.s['steps']; st['accesses'] += r.s['accesses']; st['virtual_ns'] += abs(r.s['virtualNs']); st['io_ops'] += r.s['ioOps']
        st['context_switches'] += r.s['switches']; st['parallel_regions'] += r.s['regions']; st['fft_jobs'] += r.s['fftJobs']
        st['runs:' + s['prog']] += 1
        if r.s['maxTeam'] > 1: st['multithreaded_runs'] += 1; self.scheds.add(r.s['schedHash'])
        for i, a in enumerate(core.ACTS):
            if r.s.get('fault%d' % i): self.faults[a] += r.s['fault%d' % i]
        for rl, (cnt, fired) in zip(s['rules'], r.rulecounts):
            if fired: self.faults['%s@%s' % (rl['act'], rl['op'])] += fired
        if r.s['capHits']: self.faults['DISK_FULL'] += r.s['capHits']
        if r.s['sigDelivered']: self.faults['SIGINT_delivered'] += r.s['sigDelivered']
        if s['jumps']: self.faults['CLOCK_JUMP'] += len(s['jumps'])
        if s['set'].get('heapFill'): self.faults['HEAP_GARBAGE'] += 1
        return r

    def close(self):
        for s in self.servers.values(): s.close()
        self.servers = {}


class Outcome:
    def __init__(self): self.v = []; self.keys = set(); self.probes = Counter(); self.note = None
    def bad(self, sig, msg): self.v.append({'sig': sig, 'msg': msg})
    def key(self, *k): self.keys.add('|'.join(map(str, k)))
    def probe(self, k, n=1): self.probes[k] += n


_W = {}


def _init(exes, modname, seed, tier, counter):
    with counter.get_lock():
        w = counter.value; counter.value += 1
    cpus = sorted(os.sched_getaffinity(0)); cpu = cpus[w % len(cpus)]
    os.sched_setaffinity(0, {cpu})
    _W.update(ctx=Ctx(exes, cpu), mod=importlib.import_module('props.' + modname), seed=seed, tier=tier)


def _one(i):
    ctx, mod = _W['ctx'], _W['mod']
    t = time.time()
    try:
        ctx.reset()
        case = mod.make(Rng(mod.ID, _W['seed'], _W['tier'], i), i, _W['tier'], ctx)
        if case is None: return i, None, None, None, 0.0
        gen = dict(ctx.st)
        ctx.reset()
        o = mod.execute(case, ctx)
        res = dict(v=o.v, keys=sorted(o.keys), probes=dict(o.probes), st=dict(ctx.st), gst=gen, faults=dict(ctx.faults), scheds=list(ctx.scheds), trace=ctx.trace.hexdigest(), note=o.note)
        return i, res, (case if o.v else None), mod.describe(case) if hasattr(mod, 'describe') else None, time.time() - t
    except Guard:       # a loop inside a library (uninstrumented code): nothing can be said about this case
        return i, 'guard', None, None, 0.0
    except Exception:
        return i, {'error': traceback.format_exc()}, None, None, 0.0


def known():
    k, fixed = [], []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if ln.startswith('known:'):
                d, _, what = ln[6:].partition('::'); f = dict(x.split('=', 1) for x in d.split())
                k.append({'property': f['property'], 'sig': f['sig'], 'what': what.strip()})
            elif ln.startswith('fixed:'): fixed.append(ln)
    return k, fixed


def is_known(pid, sig, kn):
    return any(e['property'] == pid and e['sig'] == sig for e in kn)


def replay_case(exes, mod, case, fresh=True):
    ctx = Ctx(exes)
    try:
        o = mod.execute(case, ctx)
        return sorted(set(x['sig'] for x in o.v)), ctx.trace.hexdigest(), o
    finally:
        ctx.close()


def minimise(exes, mod, case, sig, budget=45):
    t0 = time.time(); n = 0
    if not hasattr(mod, 'shrink'): return case, 0
    progress = True
    ctx = Ctx(exes)
    try:
        while progress and time.time() - t0 < budget:
            progress = False
            for cand in mod.shrink(case):
                if time.time() - t0 > budget: break
                n += 1
                try:
                    ctx.reset(); o = mod.execute(cand, ctx)
                except HarnessError: continue
                except Exception: continue
                if any(x['sig'] == sig for x in o.v):
                    case = cand; progress = True; break
    finally:
        ctx.close()
    return case, n


def main(pid, argv):
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    for a in argv:
        if a in ('quick', 'thorough'): tier = a
        if a.startswith('--seed='): seed = int(a[7:])
    t0 = time.time()
    mod = importlib.import_module('props.' + pid)
    exes = build.build(mod.PROGS)
    tb = time.time() - t0
    cap = float(os.environ.get('SIM_CAP', 0)) or (getattr(mod, 'CAP', {}).get(tier) or {'quick': 150, 'thorough': 720}[tier])
    n = mod.COUNT[tier]
    for a in argv:
        if a.startswith('--n='): n = int(a[4:])
        if a.startswith('--only='): n = None; only = [int(x) for x in a[7:].split(',')]
    idx = list(range(n)) if n is not None else only
    nw = int(os.environ.get('SIM_WORKERS', 0)) or min(len(os.sched_getaffinity(0)), 16)
    counter = mp.Value('i', 0)
    kn, fixed = known()
    st, gst, faults, probes = Counter(), Counter(), Counter(), Counter(); keys, scheds = set(), set(); samples = []; viol = {}; seen_known = Counter()
    done = 0; skipped = 0; guarded = 0; errors = []; traces = {}; stop = False; slow = 0.0
    tw = time.time()
    with mp.get_context('fork').Pool(nw, _init, (exes, pid, seed, tier, counter)) as pool:
        for i, res, case, desc, dt in pool.imap_unordered(_one, idx, chunksize=1):
            if res is None: skipped += 1; continue
            if res == 'guard':
                guarded += 1
                if guarded > 3 + len(idx) // 50: errors.append((i, 'processor-time guard exceeded in %d cases' % guarded))
            elif 'error' in res: errors.append((i, res['error'])); 
            else:
                done += 1; slow = max(slow, dt)
                if os.environ.get('SIM_SLOW') and dt > 5: print('slow case %d: %.1f s' % (i, dt))
                st.update(res['st']); gst.update(res['gst']); faults.update(res['faults']); probes.update(res['probes']); keys.update(res['keys']); scheds.update(res['scheds']); traces[i] = res['trace']
                if desc is not None and len(samples) < 6 and (done % 7 == 1 or done < 3): samples.append({'case': i, 'what': desc})
                for x in res['v']:
                    if is_known(pid, x['sig'], kn): seen_known[x['sig']] += 1
                    elif x['sig'] not in viol: viol[x['sig']] = (i, case, x, res['trace'])
            if len(errors) >= 3 or time.time() - t0 > cap or (viol and (len(viol) >= int(os.environ.get('SIM_MAXV', 6)) or time.time() - tw > 60)): stop = True; pool.terminate(); break
    search_wall = time.time() - tw
    if errors and not viol:
        sys.stderr.write('HARNESS ERROR in case %d of %s\n%s\n' % (errors[0][0], pid, errors[0][1])); return 2
    # determinism audit: re-execute a sample of cases in fresh processes and compare complete traces
    audit = 0; audit_bad = []
    if not viol:
        ids = sorted(traces)[:: max(1, len(traces) // (6 if tier == 'quick' else 24))][: (6 if tier == 'quick' else 24)]
        counter2 = mp.Value('i', 3)
        with mp.get_context('fork').Pool(min(nw, 4), _init, (exes, pid, seed, tier, counter2)) as pool:
            for i, res, case, desc, dt in pool.imap_unordered(_one, ids, chunksize=1):
                if res is None or res == 'guard': continue        # dropped as too slow while the machine was busy
                audit += 1
                if 'error' in res or res['trace'] != traces[i]: audit_bad.append(i)
        if audit_bad:
            sys.stderr.write('HARNESS ERROR: re-execution of case(s) %s of %s was not identical\n' % (audit_bad, pid)); return 2
    reported = []
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    tmin = time.time()
    for sig, (i, case, x, tr) in sorted(viol.items()):
        if len(reported) >= 3: break
        s1, t1, o1 = replay_case(exes, mod, case)
        s2, t2, o2 = replay_case(exes, mod, case)
        if sig not in s1 or t1 != t2 or t1 != tr:
            sys.stderr.write('HARNESS ERROR: violation %s of case %d did not replay identically\n' % (sig, i)); return 2
        small, tried = minimise(exes, mod, case, sig, 30 if not reported else 8)
        s3, t3, o3 = replay_case(exes, mod, small)
        if sig not in s3: small, s3, t3, o3 = case, s1, t1, o1
        msg = [y['msg'] for y in o3.v if y['sig'] == sig][0]
        name = '%s-%s.json' % (pid, hashlib.sha256(sig.encode()).hexdigest()[:10]); path = os.path.join(VERIF, 'replays', name)
        json.dump({'property': pid, 'sig': sig, 'message': msg, 'seed': seed, 'tier': tier, 'case_index': i, 'trace': t3, 'minimised_candidates_tried': tried,
                   'describe': mod.describe(small) if hasattr(mod, 'describe') else None, 'case': enc(small)}, open(path, 'w'), indent=1)
        reported.append((sig, msg, path))
    wall = time.time() - t0
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'), 'wall_s': round(wall, 2), 'violations': len(viol),
          'assumptions': getattr(mod, 'ASSUMPTIONS', []) + ['The simulator (sim/simrt.cpp) models one process on one machine: files as an in-memory disk, process death without power loss, one interrupt at a time.'],
          'coverage': {'evaluations': done, 'distinct_nontrivial': len(keys), 'rule': mod.RULE, 'samples': samples or [{'note': 'no sample'}],
                       'cases_requested': len(idx), 'cases_skipped_by_generator': skipped, 'cases_dropped_by_processor_time_guard': guarded, 'stopped_by_time_cap': bool(stop and not viol),
                       'simulated_runs': st['runs'], 'simulated_runs_generating_cases': gst['runs'],
                       'simulated_runs_per_hour': int((st['runs'] + gst['runs']) / max(search_wall, 1e-6) * 3600), 'case_seeds_per_hour': int(done / max(search_wall, 1e-6) * 3600),
                       'simulated_seconds_covered': round(st['virtual_ns'] / 1e9, 3), 'simulated_function_calls': st['steps'], 'simulated_memory_accesses': st['accesses'], 'simulated_io_operations': st['io_ops'],
                       'context_switches_decided': st['context_switches'], 'parallel_regions': st['parallel_regions'], 'fft_jobs_scheduled': st['fft_jobs'],
                       'multithreaded_runs': st['multithreaded_runs'], 'distinct_interleavings': len(scheds), 'distinct_interleavings_measure': 'distinct hashes of the full (step, from-thread, to-thread) switch sequence of a run',
                       'runs_by_program': {k[5:]: v for k, v in st.items() if k.startswith('runs:')},
                       'faults_injected_and_fired': dict(sorted(faults.items())), 'rare_conditions_reached': dict(sorted(probes.items())),
                       'determinism_audit': {'cases_re_executed_in_other_processes': audit, 'traces_identical': audit - len(audit_bad)},
                       'known_findings_observed': dict(seen_known),
                       'real_components': 'all of imfit (main program, parsers, model, functions, solvers, DREAM), CFITSIO, GSL, NLopt, FFTW, libstdc++',
                       'stub_components': 'OpenMP runtime, FFTW worker pool, heap, clock, entropy, file system, signals, process exit (sim/simrt.cpp)',
                       'build_s': round(tb, 2)}}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for e in kn:
        if e['property'] == pid: print('KNOWN-FINDING: property=%s %s [%s; seen %d times in this run]' % (pid, e['what'], e['sig'], seen_known.get(e['sig'], 0)))
    print('%s %s: %d cases, %d distinct non-trivial, %d simulated runs, %d violation signatures, %.1f s (build %.1f, slowest case %.1f)' % (pid, tier, done, len(keys), st['runs'] + gst['runs'], len(viol), wall, tb, slow))
    if os.environ.get('SIM_VERBOSE'):
        print('faults', dict(faults)); print('probes', dict(probes))
    if os.environ.get('SIM_SIGS'):
        for sig in sorted(viol): print('SIG', viol[sig][0], sig, '|', viol[sig][2]['msg'][:220])
    for sig, msg, path in reported:
        print('  %s\n    %s' % (sig, msg[:1500].replace('\n', '\n    ')))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1 if reported else 0
