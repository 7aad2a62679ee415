#!/usr/bin/env python3
# Writes /verif/MANIFEST.json
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
P = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
T = {
 'C01': 'deterministic simulation: the same run under different worker counts and seeded schedules, compared bit for bit',
 'C02': 'deterministic simulation with seeded preemption at every memory access; shadow-memory race detection over simulated schedules',
 'C03': 'deterministic simulation with seeded preemption at every memory access; shadow-memory race detection over simulated schedules',
 'C04': 'deterministic simulation: conservation invariant checked after every step under seeded schedules',
 'C05': 'deterministic simulation: steady-state invariant checked after every step under seeded schedules',
 'C06': 'deterministic simulation: step sizes of whole histories checked against independently computed wave speeds, with mid-run disturbances',
 'C07': 'deterministic simulation: recorded history refined against a reference model of the snapshot rule',
 'C08': 'deterministic simulation with injected NaN and invalid states at seeded steps, cells and components',
 'C09': 'deterministic simulation with seeded contents of recycled memory and seeded histories of earlier runs',
 'C10': 'deterministic simulation with injected allocation failures at seeded allocations',
 'C11': 'deterministic simulation with failures and interrupts injected at seeded progress reports, then resumption',
 'C12': 'deterministic simulation of seeded material arrangements with structural invariants after every step, guarded memory',
 'C13': 'deterministic simulation of processes, file system and clock with injected crashes, power loss, I/O errors, full disks and short writes',
 'C14': 'deterministic simulation of single parallel steps under seeded schedules and masks, with guard regions',
 'C15': 'deterministic simulation of paired steps, one with a cell disturbed, under seeded schedules',
 'C16': 'deterministic simulation of several runs interleaved at progress reports by the seeded scheduler, some failing',
 'C17': 'deterministic simulation: consistency invariant after every step, reset compared with its reference model',
 'C18': 'deterministic simulation of related runs (planar, mirrored, shifted) under different seeded schedules, compared',
 'C19': 'deterministic simulation of the reactive build: bounds checked after every step under seeded schedules',
 'C20': 'deterministic simulation: whole relaxation histories against an independent integration of the flow rule',
 'C21': 'deterministic simulation: steps of a grid and of its continuation or repetition under different worker counts and schedules, compared bit for bit',
 'C22': 'deterministic simulation: equilibrium and place of every material as invariants after every step under seeded schedules',
 'C23': 'deterministic simulation: final states of seeded multi-material runs against the exact solution of the linear interface problem',
 'C24': 'deterministic simulation: seeded runs against a refinement reference, the equations integrated by an independent high-order method',
 'C25': 'deterministic simulation: contacts at rest as an invariant after every step under seeded schedules',
}
NOTE = {
 'C01': 'Exact comparison of whole histories for a sample of problems, worker counts up to 16 and schedules.',
 'C02': 'A race is found if both accesses occur in a simulated run, even if the schedule did not expose it; accesses are those the compiler instruments.',
 'C03': 'As C02, for the interface fill and whole multi-material runs.',
 'C04': 'Round-off bounds scale with the number of cells and steps; 2D problems without corner treatment only for flows that stay away from the corners.',
 'C05': 'All materials and schemes; unsplit scheme with stiff fluids only to the predictor\'s tolerance.',
 'C06': 'Wave speeds come from the harness'"'"'s own equations and eigenvalue iteration; cells in inadmissible states are excluded, and with several materials only the upper bound is checked.',
 'C07': 'The reference model is the documented snapshot rule; grids are those seen by the simulated console.',
 'C08': 'Sampled steps, cells, components and fill levels of the history.',
 'C09': 'Heap contents through the interposed allocator, stack contents through compiler-initialised builds.',
 'C10': 'One failing allocation, or all from a point on, at sampled points of the run.',
 'C11': 'Failure and interrupt at sampled progress reports; resumption compared with a fresh process.',
 'C12': 'Structural invariants for all arrangements; physical admissibility only near equilibrium, as the scheme itself may break down on violent data.',
 'C13': 'File-system model: atomic rename, metadata durable in order, data durable after fsync.',
 'C14': 'Guard regions around all arrays, and comparison with unmasked steps.',
 'C15': 'Bit-for-bit comparison outside the stencil\'s reach.',
 'C16': 'Switching points are the progress reports, where the interpreter lock may change hands.',
 'C17': 'Determinant to solver accuracy, reset against an independent computation of the elastic energy.',
 'C18': 'Relaxing materials only to a part of the change of the step; mirrored runs without the Roe flux; tolerances stated in DESIGN.md.',
 'C19': 'Simulated in a build with the reactant option switched on in a copy of options.h.',
 'C20': 'Decay compared with a fourth-order integration within 6% (split) or 15% (unsplit).',
 'C21': 'Single material; grids narrower than the stencil are not supported by the solver.',
 'C22': 'To 1e-10 with the split schemes, 5e-5 with the unsplit one; vacuum and parts the flux smears away are left out.',
 'C23': 'Within 15% (oblique 20%) of the jump, jumps of 1e-3; the unsplit scheme in 1D with solids only.',
 'C24': 'Average errors within 12% (1D) to 40% (unsplit 2D) of the change, half as much again (2D: twice as much) for the Rusanov flux: that is the accuracy of the schemes on grids this small.',
 'C25': 'To 3e-8; Roe and Osher fluxes only (the Rusanov flux spreads contacts by design); the unsplit scheme with materials that are not stiff.',
}
PURE = 'A pure function of its arguments: no concurrency, time, I/O, randomness or history takes part, so there is nothing for a simulator to schedule or fail; it calls for input-space techniques, which this task sets aside.'
checks = [dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'],
               thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
               evidence_file='evidence/%s.json' % p['id'], technique=T[p['id']], level='exploration',
               level_note=NOTE[p['id']] + ' Sampling by seed, not exhaustive; trusts the simulator in /verif/sim.')
          for p in P if p['id'] in T]
na = [dict(property=p['id'], reason=PURE) for p in P if p['id'] not in T]
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py',
               hooks=dict(guard='PHD_SIM', enable='no hooks were needed: the simulator links the unmodified sources with its own '
                          'OpenMP runtime, allocator and pybind11 console', source_commits=[]),
               checks=checks, not_applicable=na,
               notes='See DESIGN.md. python3 check.py --replay FILE repeats a recorded violation.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
