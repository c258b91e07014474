#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a module in props/ is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 'P20': 'A pure function of the parameter vector: no schedule, clock, fault, I/O or history can change it, so simulation has nothing to decide; whether a formula is the documented one is a numerical-oracle question for another family.',
 'P21': 'Pure arithmetic on the inputs of one call. Its schedule- and memory-dependence is decided under P01/P03; the arithmetic identity itself has no nondeterminism to simulate.',
 'P22': 'Pure parsing of bytes into settings. What faults can do to that input is decided under P06; the grammar itself depends on nothing a simulator controls.',
 'P23': 'A pure formula over supplied images and constants; only its consistency across saved outputs (P12) and its schedule/history independence (P01, P11) depend on anything the simulator decides.',
 'P24': 'Pure integer bookkeeping on a region string. Consistency of coordinates across bootstrap and MCMC resume is decided under P07/P09; the rest has no nondeterminism.',
}
TECH = 'deterministic simulation with fault injection: '
T = {
 'P01': ('seeded search over worker-thread interleavings (preemption at memory accesses, priorities, race-directed) against a single-threaded reference run', 'All OpenMP and FFTW worker threads run as simulated threads; sequential consistency at instrumented-access granularity.'),
 'P02': ('same seed executed under seeded environments (clock, entropy, pid, heap garbage, thread schedule); byte comparison of every output', 'Byte-identical outputs required apart from timestamps and elapsed times.'),
 'P03': ('same inputs executed under seeded heap/stack garbage and allocation placement, with guard zones and free-list checks on a simulated heap', 'Uninitialised reads are seen only when they influence an output or the course of the run; out-of-bounds writes when they reach a guard zone or another allocation.'),
 'P04': ('SIGINT delivered at seeded steps of fits with every solver; checks on outputs and remaining work', 'Interrupts are delivered at instrumented function calls / I/O operations.'),
 'P05': ('seeded disk faults (open, write, short write, flush, close, disk full) at every output operation; history checks', 'Disk faults are those a POSIX file interface can report.'),
 'P06': ('seeded read faults and truncation/corruption of every input file; refinement against the intact run', 'FITS content that is damaged but self-consistent is outside what any program could notice and is not injected.'),
 'P07': ('seeded kill points (including torn records) and append restarts of MCMC runs, repeated cycles; history checks', 'Process death, not power loss: completed writes survive.'),
 'P08': ('seeded MCMC runs over schedules, chains, stopping reasons; every chain record re-evaluated independently', 'Likelihoods are re-evaluated by the same model code through an independent fit-statistic run.'),
 'P09': ('seeded bootstrap runs; conservation between stored rows, printed summary and the same fit without bootstrap', 'Summary statistics are recomputed in Python from the rows.'),
 'P10': ('seeded refusal of image-sized allocations at every allocation site; refinement against the run with enough memory', 'Only requests of at least 9216 bytes (image-sized for the images used) are refused.'),
 'P11': ('seeded call histories on live model objects against fresh objects', 'Model objects are driven through their public interface.'),
 'P12': ('seeded fits over solvers, seeds, starts, with history checks recomputing the statistic from the saved files', 'Tolerance of about 1e-4 relative on recomputed statistics (files store limited digits).'),
 'P13': ('seeded faults, crashes and interrupts over every program; write-set of every execution checked against the documented outputs', 'Observes every open/write/truncate/unlink/rename issued by the process.'),
 'P14': ('the same request stated in two or more ways and executed in different programs, each under its own seeded thread schedule, memory content and short reads; the answers must be equal (differential simulated runs)', 'Agreement of independent set-up paths, within rounding of the arithmetic or of the printed digits; an error common to all routes is not seen.'),
}
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in T and os.path.exists(os.path.join(V, 'props', p + '.py')):
        checks.append({'property': p, 'quick_cmd': 'python3 check.py %s' % p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s thorough' % p, 'evidence_file': 'evidence/%s.json' % p,
                       'technique': TECH + T[p][0], 'level': 'exploration', 'level_note': 'Seeded search; finds violations, does not prove absence. ' + T[p][1]})
    else: na.append({'property': p, 'reason': NA.get(p, 'Check not built yet (work in progress).')})
m = {'version': 1, 'setup_cmd': 'python3 sim/build.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the simulator takes over at link time (-Wl,--wrap), by compiler instrumentation of /repo sources, and by providing its own OpenMP runtime. Replay: python3 replay.py <file>.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
