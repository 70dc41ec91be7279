#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand after editing)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=hook)))

prop('C01', 'Every interaction conserves four-momentum, charge, baryon number, strangeness',
 'In every interaction a run performs (elastic and inelastic scattering, resonance formation and decay, multi-particle reactions, wall crossings, final decays) the outgoing particles carry exactly the summed energy, momentum, electric charge, baryon number and strangeness of the incoming ones, up to rounding. Every particle that is written out carries the charge, baryon number and strangeness of its species and sits on the mass shell of its reported mass, with stable particles at their pole mass. Without options that are documented to break it (strings, potentials, expansion, forced thermalization), the totals of each event therefore never change from its initial to its final state.',
 ['inputs', 'histories', 'configurations'], 'every event history of every box, sphere, collider and list configuration with any collision criterion, reaction set and multi-particle option',
 'Unit tests check single hand-made reactions of a few types; what must conserve is every reaction of every channel reached by a long random event history, including frame boosts, mass sampling and secondaries.',
 ['src/action.cc', 'src/scatteraction.cc', 'src/decayaction.cc', 'src/scatteractionmulti.cc', 'src/quantumnumbers.cc', 'src/experiment.cc', 'src/include/smash/experiment.h'],
 [('Action::check_conservation', 'src/action.cc'), ('sample_2body_phasespace / sample_manybody_phasespace', 'src/action.cc'), ('QuantumNumbers::report_deviations', 'src/quantumnumbers.cc')],
 ['binary and text collision and particle-list output'])

prop('C02', 'Recorded history is causal: each particle is consumed as it was last left',
 'Within an event (and within one ensemble of it) every particle entering an interaction exists at that moment, appears with exactly the species and momentum with which its last interaction or the initial state left it, and at the position reached from there by straight-line motion with its own velocity; it is consumed at most once and interactions are reported in non-decreasing time order. Particle ids are never reused for a different particle, the per-particle collision counter, creating process and mother species agree with that history, and the final particle list is exactly the initial list with all reported interactions applied.',
 ['histories', 'schedules', 'configurations'], 'every sequence of interactions, wall crossings, decays and time-step boundaries of every run without potentials, fluidization or thermalization',
 'Tests look at a handful of actions in isolation; stale action lists, double consumption, or missed propagation show only when actions from different steps, finders and products interleave.',
 ['src/include/smash/experiment.h', 'src/particles.cc', 'src/include/smash/particles.h', 'src/action.cc', 'src/propagation.cc', 'src/include/smash/actions.h'],
 [('Action::is_valid', 'src/action.cc'), ('Experiment::run_time_evolution_without_time_steps / perform_action', 'src/include/smash/experiment.h'), ('Actions priority queue', 'src/include/smash/actions.h'), ('propagate_straight_line', 'src/propagation.cc')],
 ['collision history output', 'particle list output'])

prop('C03', 'All enabled output formats tell the same story',
 'All output files of one run describe the same events: text and binary, full and custom-quantity variants of the same content list the same blocks in the same order with the same particles, counts and event-end markers, and every number in a text file is the binary number rounded to the printed precision. Each file is well formed and complete: one start and one end per event and ensemble, announced counts equal to the lines that follow, the header names the columns that are there. Enabling, disabling or reformatting one output changes nothing in any other file.',
 ['configurations', 'histories'], 'every combination of output contents, formats, quantity lists, print options, modi, ensembles and events',
 'Tests check each writer on two or three synthetic particles; agreement between writers over whole runs with empty events, many ensembles and every print option is not sampled.',
 ['src/oscaroutput.cc', 'src/binaryoutput.cc', 'src/vtkoutput.cc', 'src/thermodynamicoutput.cc', 'src/include/smash/outputformatter.h', 'src/include/smash/experiment.h'],
 [('OscarOutput / BinaryOutput event, interaction and event-end records', 'src/oscaroutput.cc, src/binaryoutput.cc'), ('OutputFormatter', 'src/include/smash/outputformatter.h')],
 ['output directory'])

prop('C04', 'A configuration and a seed determine the run completely',
 'Two runs of the same build with the same configuration and the same random seed write byte-identical physics output, whatever the wall-clock time, memory layout and contents of fresh memory, current directory, output path, environment or short reads and writes. Adding, removing or reformatting outputs or log levels never changes the physics of the run, except that dilepton and photon contents draw random numbers of their own once they are enabled (their formats do not matter). A seed chosen by the program itself (negative seed) is reported, and running with the reported seed reproduces the run.',
 ['inputs', 'schedules', 'configurations', 'fault_sequences'], 'every configuration and seed under every behaviour of clock, allocator, entropy source and stream calls that the system interface allows',
 'A test process sees one clock, one allocator and one memory content; dependence on them appears only when the environment is varied while everything else is held fixed.',
 ['src/include/smash/random.h', 'src/random.cc', 'src/include/smash/experiment.h', 'src/experiment.cc', 'src/smash.cc'],
 [('random::set_seed per event', 'src/include/smash/experiment.h'), ('one global engine', 'src/include/smash/random.h')],
 ['all output files', 'exit status'])

prop('C05', 'Each event depends only on its own seed, not on the events before it',
 'An event of a multi-event run is identical, apart from its number, to the first event of a run started with the seed that was reported for it: nothing (clock, output times, particle numbering, beam, density or lattice state, counters, caches) leaks from one event into the next. In particular each event starts at the configured start time, yields the same outputs at the same times and can be reproduced alone.',
 ['histories', 'configurations'], 'every configuration, every seed and every position of an event in a run, for all modi, time-step modes, initial conditions and ensembles',
 'Unit tests build a fresh object for each case; state surviving an event boundary needs whole multi-event runs compared with single-event runs.',
 ['src/include/smash/experiment.h', 'src/collidermodus.cc', 'src/boxmodus.cc', 'src/listmodus.cc', 'src/include/smash/clock.h', 'src/hypersurfacecrossingfinder.cc'],
 [('Experiment::initialize_new_event', 'src/include/smash/experiment.h'), ('Particles::reset', 'src/particles.cc')],
 ['collision and particle output per event'], [('seed_', 'seed of the next event', 'src/include/smash/experiment.h')])

prop('C06', 'A failed or killed run never passes off incomplete output as finished',
 'If the run exits with success, every enabled output file is complete under its final name. If opening, writing, closing or renaming an output fails, the disk fills up, or memory runs out, the run ends with a non-zero exit status (after a failed allocation possibly by abort), and at every instant - also when the process is killed there - an event output file that carries its final name has its complete content, incomplete ones being recognisable by their unfinished name. Snapshots that make up one file per time (VTK, lattice dumps) have no unfinished name and may be incomplete after a kill, but not after success.',
 ['fault_sequences', 'crash_points', 'configurations'], 'every set of outputs and every single failure or kill, at every I/O operation of the run',
 'Tests run on a disk that never fails and in processes that are never killed; the property is about each of the hundreds of write, close and rename calls failing.',
 ['src/file.cc', 'src/include/smash/file.h', 'src/smash.cc', 'src/oscaroutput.cc', 'src/binaryoutput.cc', 'src/vtkoutput.cc', 'src/thermodynamicoutput.cc', 'src/thermodynamiclatticeoutput.cc', 'src/icoutput.cc'],
 [('RenamingFilePtr', 'src/file.cc'), ('exit status', 'src/smash.cc')],
 ['exit status', 'output directory after the run or kill'])

prop('C07', 'Concurrent and repeated runs never mix or overwrite output directories',
 'However several runs are interleaved, started again or killed, a directory that holds the output of one run is never written by another one unless overwriting was asked for explicitly: at most one run is active in a directory, a second one is refused with a non-zero exit and leaves every existing file untouched, and runs without an explicit directory end up in distinct fresh ones or are refused. A finished run, successful or failed, leaves no lock behind.',
 ['schedules', 'crash_points', 'configurations'], 'every interleaving at file-operation granularity of two or three runs on one directory tree, with kills and restarts',
 'Tests run one process at a time; check-then-act races need the interleaving to be controlled.',
 ['src/smash.cc', 'src/filelock.cc', 'src/include/smash/filelock.h'],
 [('FileLock', 'src/filelock.cc'), ('default_output_path / overwrite check', 'src/smash.cc')],
 ['directory tree', 'exit statuses'])

prop('C08', 'Cached tables never change results, whatever state the cache is in',
 'A run gives identical physics whether its cache of tabulated integrals is absent, complete, made for other particle properties, left incomplete or empty by a killed or failed earlier run, unreadable, on a full or read-only disk, or being written by another run at the same time. An incomplete or foreign cache entry is recomputed and never used, and caching trouble alone never produces wrong results: at worst, where the cache directory or its lock cannot be created, the run is refused.',
 ['fault_sequences', 'crash_points', 'schedules'], 'every crash point and failure while tables are cached, every truncation of a cache file, every interleaving of concurrent runs sharing one cache',
 'Tests use a cache written by one healthy process; the property quantifies over all partial states a crash can leave.',
 ['src/tabulation.cc', 'src/isoparticletype.cc', 'src/library.cc', 'src/sha256.cc', 'src/hadgas_eos.cc'],
 [('Tabulation::write / from_file with content hash', 'src/tabulation.cc'), ('IsoParticleType::tabulate_integrals', 'src/isoparticletype.cc')],
 ['physics output of the following run', 'cache directory'])

prop('C09', 'Collision search is complete, sound and independent of the cell grid',
 'In the geometric collision criteria two particles are made to collide exactly if they come within the distance given by their total cross section at their time of closest approach in the current step: no pair meeting the criterion is overlooked and none beyond it collides. Which pairs are found does not depend on how space is divided into cells: searching with the grid, without it, and by brute force over all pairs (in a box with the periodic images as of the beginning of each time step) gives the same interactions, for all pairs whose distance is within the range the maximum cross section and the time step imply.',
 ['inputs', 'histories', 'configurations'], 'every spatial arrangement of particles, including those on cell and box boundaries, unformed ones, holes in the particle list, tiny and huge extents',
 'Tests check a few arrangements; a pair is missed only for particular positions relative to cell and box borders.',
 ['src/grid.cc', 'src/include/smash/grid.h', 'src/scatteractionsfinder.cc', 'src/include/smash/experiment.h', 'src/scatteraction.cc'],
 [('Grid::iterate_cells', 'src/grid.cc'), ('ScatterActionsFinder::check_collision_two_part', 'src/scatteractionsfinder.cc'), ('secondary search', 'src/include/smash/experiment.h')],
 ['collision history output', 'callbacks of the grid'])

prop('C10', 'The particle list behaves like a set with ever-fresh identities',
 'Under every sequence of insertions, creations, removals, in-place updates, reactions and resets the particle list behaves like a map from unique, never reused ids to particles: size, forward and backward iteration, first, last, copy and lookup agree with it, and contents change only by the operation applied. A copy taken earlier is recognised as current exactly as long as its particle has not been removed or changed by an interaction since. A failed memory allocation during an operation leaves the list as it was before or as it should be after, and nothing is leaked out of bounds or freed twice.',
 ['programs', 'histories', 'fault_sequences'], 'every operation sequence with allocation failures at arbitrary points',
 'Unit tests run a few fixed sequences with an allocator that never fails; hole bookkeeping goes wrong only for particular orders of removals and growth.',
 ['src/particles.cc', 'src/include/smash/particles.h', 'src/particledata.cc'],
 [('Particles::insert/remove/replace/update', 'src/particles.cc, src/include/smash/particles.h'), ('Particles::is_valid', 'src/include/smash/particles.h')],
 ['container API'], [('dirty_', 'indices of holes', 'src/include/smash/particles.h')])

prop('C11', 'Outputs, events and evolution follow the configured times and counts',
 'A run simulates exactly the requested number of events and ensembles (or, with a minimum of interacting ensembles, stops at the first event reaching it or at the allowed maximum), numbered consecutively, and each event evolves exactly from its start time to its end time. Intermediate output appears once for each configured output time in between (regular interval or explicit list), in order, and shows every particle at exactly that time, followed by one final output at the end time. No interaction before the final decays happens outside this time span, and, with a single ensemble, the result at given times does not depend on how often output is written.',
 ['configurations', 'histories'], 'every combination of start, end, step and output interval or list, time-step mode, modus, number of events and ensembles',
 'Tests check the clock class on round numbers; skipped or duplicated output times come from combinations of incommensurate steps, rounding and event boundaries.',
 ['src/include/smash/clock.h', 'src/include/smash/experiment.h', 'src/experiment.cc'],
 [('UniformClock / CustomClock', 'src/include/smash/clock.h'), ('Experiment::run_time_evolution, intermediate_output, is_finished', 'src/include/smash/experiment.h')],
 ['particle-list output', 'thermodynamic and VTK output', 'event counts'])

prop('C12', 'Particle lists read from file are simulated as written or refused',
 'Events given as particle list files enter the simulation in order and completely: each initial state is the listed set of particles with their species, momenta, positions (moved straight back to the earliest time) and optional quantities, with the number of events taken from the configuration. Malformed lines, inconsistent quantities, three or more particles at one place, missing files and too few events end the run with an error instead of a shortened or altered event; only particles of a species that the table of particles does not know are left out, with a warning, and off-shell energies and masses of stable particles are corrected (documented). A read error or a short or interrupted read never silently drops particles or events.',
 ['inputs', 'fault_sequences', 'configurations'], 'every list file - well formed, damaged or cut - in one or many files, and every behaviour of read calls',
 'Tests read a few small well-formed files from a healthy disk.',
 ['src/listmodus.cc', 'src/include/smash/listmodus.h', 'src/inputfunctions.cc'],
 [('ListModus::initial_conditions / next_event_ / try_create_particle', 'src/listmodus.cc')],
 ['initial particle output', 'exit status'])

prop('C13', 'Stepwise and externally driven evolution equals one continuous run',
 'A program that drives events through the library interface gets the same physics whether it evolves an event in one call or in many consecutive calls ending on time-step boundaries, and the same as the stand-alone program. Particles it adds or removes between calls are exactly those added and removed: a particle added appears once and takes part from then on, a removed one disappears, a removal that matches nothing changes nothing.',
 ['programs', 'histories', 'schedules'], 'every division of the evolution into calls and every sequence of additions and removals',
 'Tests make one or two calls; the state kept between calls (clocks, pending actions, added particles) is only exercised by long varied call sequences.',
 ['src/include/smash/experiment.h', 'src/library.cc', 'src/include/smash/library.h'],
 [('Experiment::run_time_evolution(t_end, add, remove)', 'src/include/smash/experiment.h'), ('update_projectile… / remove search', 'src/include/smash/experiment.h')],
 ['particles after each call', 'collision output'])

prop('C14', 'In a periodic box particles stay inside and only wrap around at walls',
 'In a box every particle that is output lies inside the box, and the only discontinuities of its trajectory are wall crossings that move it by exactly one box length along one axis while leaving its momentum, identity, collision count and history unchanged. Every trajectory that meets a wall crosses it at the right place and time, and wall crossings never influence which interactions follow other than through the position.',
 ['histories', 'configurations'], 'every box length, particle state, time step, output interval and collision criterion',
 'Tests cross walls with single particles; missed or doubled crossings arise from corner hits, fast particles, and crossings interleaved with collisions.',
 ['src/wallcrossingaction.cc', 'src/include/smash/wallcrossingaction.h', 'src/boxmodus.cc', 'src/propagation.cc'],
 [('WallCrossActionsFinder', 'src/wallcrossingaction.cc'), ('BoxModus::impose_boundary_conditions', 'src/boxmodus.cc')],
 ['collision history and particle output'])

prop('C15', 'Final decays leave no unstable particle and are properly reported',
 'With forced decays at the end switched on, the final particle list contains only particles that cannot decay (up to weak and electromagnetic decays, which are kept or performed as configured), every final decay is reported and uses an allowed decay channel of the decaying species that is open at its mass, and nothing else happens in the final stage; with it switched off, no decay happens after the end time. Decays of resonances follow configured branching modes and decay products inherit position and time of their parent.',
 ['histories', 'configurations'], 'every final state, decay-mode table and combination of decay options',
 'Tests decay single particles; long decay chains and the interplay with stopped or ensembles need full runs.',
 ['src/decayactionsfinder.cc', 'src/include/smash/experiment.h', 'src/decayaction.cc', 'src/decaymodes.cc'],
 [('Experiment::do_final_interactions', 'src/include/smash/experiment.h'), ('DecayActionsFinder::find_final_actions', 'src/decayactionsfinder.cc')],
 ['final particle list', 'collision history output'])

prop('C16', 'Each particle crossing the switching hypersurface is emitted once, on it',
 'When initial conditions for hydrodynamics are extracted at constant proper time, every particle whose trajectory crosses the hypersurface is written out exactly once, at its crossing point (its proper time is the configured or computed one) with unchanged species and momentum, and takes no further part in the evolution. Particles that do not cross, or are excluded by the configured transverse-momentum or rapidity cuts as documented, are not reported; hence what is emitted plus what remains always equals what was there.',
 ['histories', 'configurations'], 'every collision system, hypersurface proper time, cut and time-step choice',
 'Tests use a single particle crossing; interplay with collisions just before the surface, frozen nucleons and decays is not sampled.',
 ['src/hypersurfacecrossingfinder.cc', 'src/icoutput.cc', 'src/include/smash/fluidizationaction.h', 'src/fluidizationaction.cc', 'src/include/smash/experiment.h'],
 [('HyperSurfaceCrossActionsFinder', 'src/hypersurfacecrossingfinder.cc'), ('FluidizationAction', 'src/fluidizationaction.cc'), ('ICOutput', 'src/icoutput.cc')],
 ['initial-condition output', 'collision history and final particle list'])

prop('C17', 'The configuration is obeyed or refused, and its echo reproduces the run',
 'Every key of the configuration (file and command-line overrides, later ones winning) is either used or the run is refused with a message and non-zero exit before the evolution of any event; unknown, misspelt, wrongly typed, out-of-range or contradictory entries are never ignored silently and never crash the program: a run that is accepted runs to its end or stops with an error message, it never dies from a signal or loops for ever. The configuration echoed into the output directory contains every effective setting: a run started from the echo alone writes identical physics.',
 ['configurations', 'inputs'], 'every configuration document, override sequence and mutation of them',
 'Tests cover selected keys; the echo and the strictness must hold for any combination of keys and defaults.',
 ['src/configuration.cc', 'src/include/smash/configuration.h', 'src/include/smash/input_keys.h', 'src/smash.cc', 'src/library.cc'],
 [('Configuration::take / validate / merge_yaml', 'src/configuration.cc'), ('echo of configuration', 'src/smash.cc')],
 ['exit status', 'config.yaml in the output directory', 'physics output'])

prop('C18', 'Every event starts from the configured initial state',
 'Every event of a run, in every ensemble, starts from exactly what the configuration describes, freshly sampled: a box or sphere with the given multiplicities (or those of the thermal prescription), masses, start time, all positions inside, zero total momentum, the given jets; in a collision of two nuclei the configured nucleons (times test particles) labelled as projectile and target, moving with the momenta that the chosen beam-energy option means in the chosen frame, Fermi momenta below the Fermi momentum and adding up to zero, nuclei that reach each other at the same time and are not in contact before, an impact parameter inside the configured range that is the one reported, custom nuclei as in their file, one after the other. No particle is missing, shares an id, or carries history, and spin vectors are unit vectors orthogonal to the momentum.',
 ['inputs', 'histories', 'configurations'], 'every modus, nucleus, beam option, frame, seed, event and ensemble',
 'Tests construct single modi with a few settings and check one event; the beam options, frames, ensembles and later events are hardly combined.',
 ['src/boxmodus.cc', 'src/spheremodus.cc', 'src/collidermodus.cc', 'src/nucleus.cc', 'src/customnucleus.cc', 'src/include/smash/kinematics.h', 'src/include/smash/experiment.h'],
 [('ColliderModus::initial_conditions', 'src/collidermodus.cc'), ('SphereModus / BoxModus::initial_conditions', 'src/spheremodus.cc, src/boxmodus.cc'), ('CustomNucleus', 'src/customnucleus.cc')],
 ['initial particle list of every event'])

prop('C19', 'Dileptons and photons account for each life and scattering exactly once',
 'With dilepton production every particle that has dilepton decays radiates during its whole life, from its creation to its end (or, at the end of the run, for the rest of its life), each moment once: the weights of its emissions add up to its life time times the partial width, whatever the time-step mode, time step, ensembles or output settings; with photon production every hadronic scattering in a photon channel writes the configured number of fractional photons with weights that belong to its own cross sections, and no other scattering radiates. Emission never changes the hadronic evolution, and every emission conserves four-momentum and charge.',
 ['histories', 'configurations', 'schedules'], 'every history of decays and collisions, every time-step mode and every way in which a particle can end',
 'Tests check one decay and one scattering; gaps and double counting arise from the interplay of time steps, actions and the end of the event.',
 ['src/decayactionsfinderdilepton.cc', 'src/decayactiondilepton.cc', 'src/scatteractionphoton.cc', 'src/bremsstrahlungaction.cc', 'src/include/smash/experiment.h'],
 [('DecayActionsFinderDilepton::shine / shine_final', 'src/decayactionsfinderdilepton.cc'), ('Experiment::perform_action photons', 'src/include/smash/experiment.h')],
 ['dilepton and photon output', 'collision output'])

# not claimed
prop('C40', 'Cross sections, widths and mass distributions are numerically right',
 'Cross sections, decay widths, spectral functions and integrals are non-negative, obey detailed balance, thresholds and the parametrizations they cite, and tabulated values interpolate them within the stated accuracy.',
 ['inputs'], 'every species pair, mass and energy', 'Tests sample a few energies.',
 ['src/crosssections.cc', 'src/parametrizations.cc', 'src/decaytype.cc', 'src/particletype.cc', 'src/tabulation.cc', 'src/interpolation.cc'],
 [('CrossSections', 'src/crosssections.cc')], ['collision term summary of -S and -r'])
prop('C41', 'Random variates follow their distributions',
 'Isotropic angles, thermal momenta, exponential decay times, nucleus density profiles and impact parameters are distributed as specified, independent of each other.',
 ['inputs'], 'every parameter value of every sampler', 'Tests are statistical spot checks.',
 ['src/include/smash/random.h', 'src/distributions.cc', 'src/nucleus.cc', 'src/quantumsampling.cc'],
 [('random::*_dist', 'src/include/smash/random.h')], ['samples'])
prop('C42', 'String fragmentation conserves and hadronizes correctly',
 'Every string excitation and fragmentation conserves four-momentum and quantum numbers and yields only known hadrons with sensible formation times and leading-hadron cross-section scaling.',
 ['histories', 'inputs'], 'every string process', 'Tests fragment a few strings.',
 ['src/stringprocess.cc', 'src/stringfunctions.cc'], [('StringProcess', 'src/stringprocess.cc')], ['collision output'])
prop('C43', 'Potentials and fields conserve the event energy within their accuracy',
 'With Skyrme, symmetry, VDF or Coulomb potentials the total energy of field and particles stays constant up to an error that vanishes with the lattice spacing and time step.',
 ['inputs', 'configurations'], 'every system and lattice', 'Tests check one configuration.',
 ['src/potentials.cc', 'src/propagation.cc', 'src/fields.cc', 'src/density.cc', 'src/energymomentumtensor.cc'],
 [('update_momenta', 'src/propagation.cc')], ['thermodynamic lattice output'])
prop('C44', 'PDG codes, isospin coefficients and hashes are algebraically right',
 'Species codes parse and print back unchanged, antiparticles and quantum numbers follow from the code, Clebsch-Gordan coefficients are orthonormal, and the content hash is SHA-256.',
 ['inputs'], 'every valid code and argument', 'Tests enumerate some of them.',
 ['src/pdgcode.cc', 'src/include/smash/pdgcode.h', 'src/clebschgordan.cc', 'src/sha256.cc'], [('PdgCode', 'src/include/smash/pdgcode.h')], ['API'])
prop('C45', 'HepMC, ROOT and Rivet outputs match the native outputs',
 'Events written through the optional HepMC3, ROOT and Rivet interfaces contain the same particles and vertices as the native formats.',
 ['histories', 'configurations'], 'every run with these outputs enabled', 'Tests are compiled only when the libraries are there.',
 ['src/hepmcoutput.cc', 'src/hepmcinterface.cc', 'src/rootoutput.cc', 'src/rivetoutput.cc'], [('HepMcInterface', 'src/hepmcinterface.cc')], ['output files'])
prop('C46', 'Initial nuclei respect nuclear geometry and Fermi motion',
 'Nuclei are sampled with the configured density profile, deformation and orientation, and Fermi momenta follow the local density.',
 ['inputs', 'configurations'], 'every nucleus and beam', 'Tests check profiles statistically.',
 ['src/nucleus.cc', 'src/deformednucleus.cc', 'src/alphaclusterednucleus.cc', 'src/collidermodus.cc'], [('Nucleus::generate_fermi_momenta', 'src/nucleus.cc')], ['initial particle list'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
