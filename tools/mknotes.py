import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'seeded deterministic simulation with fault injection: '
core = lambda s, n='': dict(technique=T + s, note='Every step of every simulated run is compared with an executable reference model (sim/shadow.py). '
    'Sampled histories and faults; a clean batch is evidence, no proof. Instruments and evaluators are simulated, everything between them is the real code. ' + n)
N = {
 'C01': core('random histories of iterations, faults, manual changes and retargeting; completion checked against freshness and targets'),
 'C02': core('random histories; every iteration checked against the abstract bottom-up action machine'),
 'C03': core('random histories incl. explorative steps and unknown gates; every set call checked'),
 'C04': core('random histories with size limits, restarts and reloads in the middle of walks; step length and unmeasured steps counted'),
 'C05': core('measurement failures injected at random evaluations and repeatedly; recovery point and untouched state checked'),
 'C06': dict(technique=T + 'twin runs, one with exceptions at arbitrary instrument calls, compared call by call', note='Twin of the real code is the oracle; sampled.'),
 'C07': core('manual changes, restarts and crash-resumes at arbitrary moments'),
 'C08': core('targets changed at arbitrary moments'),
 'C09': core('quantised and clipped instruments, aliased inputs, records compared after every operation'),
 'C10': core('sensing dot groups with failures; measurement policy and next voltages checked'),
 'C11': dict(technique=T + 'random evaluations of the real evaluators with instrument exceptions injected at random calls; voltages compared before, during and after', note='Real evaluators on simulated scans; voltages before and after compared. Sampled, not exhaustive.'),
 'C12': core('requested steps compared with an independent least squares solution from the values measured last'),
 'C13': core('every gradient update compared with the Bayesian posterior in extended precision; exploratory steps with an eigenvector model'),
 'C14': core('finite difference collections interrupted by failures, restarts, resumes and retargeting; result compared with the true gradient'),
 'C15': dict(technique=T + 'bounded liveness after the last fault on well-behaved devices', note='Bound derived from the configuration; sampled devices and fault sequences.'),
 'C16': dict(technique=T + 'real writer under a seeded scheduler that delays it arbitrarily; files compared with the state at the request', note='Thread and (simulated, pickling) process mode.'),
 'C17': dict(technique=T + 'resume at every iteration, twin run and deep structural comparison', note='Real HDF5 files.'),
 'C18': dict(technique=T + 'crash images of the write log of the real HDF5 library, write errors at arbitrary operations', note='Write-level crash model of one process; no reordering by the disk.'),
 'C19': dict(technique=T + 'real writer, joins, restarts, interpreter exit and write errors under a seeded line-level scheduler', note='Deadlock detection by the simulated scheduler; process mode simulated with pickling queues.'),
 'C20': dict(technique=T + 'clock steps back and forth, vanishing directories, resumes; file names and records checked', note='Virtual clock.'),
 'C21': dict(technique=T + 'live history against the history rebuilt from files and a reference history', note='Real files.'),
 'C22': dict(technique=T + 'real reader with thread pool (and pickling pool) under a seeded scheduler, broken files injected', note='Process pool simulated by pickling threads.'),
 'C23': dict(technique=T + 'the real GUI worker and slots with Qt stubbed under a seeded line-level scheduler', note='Qt widgets are stand-ins.'),
 'C24': dict(technique=T + 'repetitions failing in arbitrary patterns against a reference average; real fits on clean, noisy, constant, undefined and infinite simulated scans', note='Sampled.'),
 'C25': dict(reason='pure functions of their input: no schedule, clock, fault or interleaving for a simulation to decide'),
 'C26': dict(technique=T + 'the real MATLAB bindings against a simulated MATLAB session with errors before and after each call takes effect, and a model of the gates and scans', note='The MATLAB engine and its scripts are simulated from their documentation; plots, bool and large integer arrays are not covered.'),
 'C27': dict(technique=T + 'the real QQD evaluators, alone and inside of real tunings, against a simulated MATLAB analysis with errors at any call, reloads, and a twin without errors', note='The analysis scripts of MATLAB are simulated: what they return is drawn per voltage, their result structs follow what the evaluators read.'),
 'C28': dict(technique=T + 'the real reload windows, history and worker of the GUI with errors, damaged files and presses at any line of the worker, against recorded snapshots and copies of the stored states', note='Qt is replaced by stand-ins; signals are delivered at once.'),
 'C29': dict(technique=T + 'the real plot windows (Qt offscreen), history and GUI worker, stepped with failing measurements while windows are opened, closed and used in random order; data of every curve against the recorded rows', note='Sampled; what Qt and matplotlib paint from these data is trusted; the thread schedule is cooperative here (C23 and C28 vary it).'),
}
json.dump(N, open(os.path.join(HERE, 'tools', 'notes.json'), 'w'), indent=1)
