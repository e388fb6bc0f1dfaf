#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 spec.py"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=None)))


TESTS = ("The existing tests run a handful of fixed set-ups to the end and compare totals with stored references within "
         "per-cent tolerances; ")

prop("C01", "A crash at any point is survived by restarting the simulation",
     "If a simulation with checkpoints enabled is killed at any instant (or the power fails), starting it again with the same input "
     "resumes at the last checkpoint that had been completed, and once it ends its state and its output files are those of a run "
     "that was never killed. At every such instant each main output file and safety copy on disk is absent-as-before or a complete, "
     "readable snapshot of a prefix of the recorded history.",
     ["crash_points", "configurations", "histories"],
     "every disk operation of start-up, stepping and recovery (before it, after it, or in the middle of a write), up to 4 crashes in "
     "a row, with and without loss of data never flushed to stable storage, over random simulation set-ups",
     TESTS + "none of them kills a process or restarts one.",
     ["pyecloud_saver.py", "buildup_simulation.py"],
     [("write to a temporary name, flush, rename over the old file", "pyecloud_saver.py:_write_file_safely"),
      ("pick the newest checkpoint at start-up and remove superseded ones", "buildup_simulation.py:BuildupSimulation.__init__")],
     ["checkpoint folder", "main output file", "safety copy"],
     [("checkpoint file", "the durable state a restart may use", "pyecloud_saver.py:_checkpoint_save")])
prop("C02", "A resumed simulation computes what the uninterrupted one would have computed",
     "A simulation resumed from a checkpoint starts at the time step of that checkpoint and, given the same position in the random "
     "stream, computes at every later time step exactly the particles, fields and surface state of the uninterrupted simulation.",
     ["histories", "configurations"],
     "all sequences of up to 3 stops and restarts at any checkpoint, over random set-ups (all chambers, trackers, surface models, "
     "primary mechanisms, several clouds, cross-ionization, electromagnetic fields, regeneration modes)",
     TESTS + "resuming is covered for one set-up and one stop, and only the final totals are compared.",
     ["pyecloud_saver.py", "buildup_simulation.py", "init.py"],
     [("which parts of the simulation object enter the checkpoint", "pyecloud_saver.py:_checkpoint_save / _sim_state_save"),
      ("what is rebuilt after loading", "buildup_simulation.py:load_state / load_checkpoint")],
     ["macroparticle arrays, field arrays and time index after each step"])
prop("C03", "The recorded history is independent of stops and restarts",
     "After a simulation has been stopped and restarted from checkpoints any number of times, every variable of every output file "
     "and every snapshot file it leaves equals that of the uninterrupted simulation: no time sample, histogram row, pass or snapshot "
     "is lost, duplicated or reordered.",
     ["histories", "configurations"],
     "all sequences of up to 3 stops and restarts over random set-ups and output options (decimation, histogram periods, probes, "
     "videos, snapshots, custom observables, sparse saving, safety copies)",
     TESTS + "no test compares the output of a restarted run with that of an uninterrupted one variable by variable.",
     ["pyecloud_saver.py", "buildup_simulation.py"],
     [("history of the saver is part of the checkpoint and is put back at restart", "pyecloud_saver.py:get_history / set_history")],
     ["main output .mat files", "MP_state files", "video files"])
prop("C04", "Snapshots and saved states are taken when requested and can be continued from",
     "Each requested macroparticle snapshot and simulation state is written exactly once, at the first time step at or after the "
     "requested time at which it can be taken, and contains the state of the simulation at that instant. Loading a saved simulation "
     "state and running it to the end gives the particles, fields and recorded samples that the simulation that saved it computes "
     "from there on, and saving does not disturb that simulation.",
     ["inputs", "configurations", "histories"],
     "random request times (before the start, between steps, several within one step, after the end), set-ups, and reload points",
     TESTS + "one stored state of one set-up is reloaded.",
     ["pyecloud_saver.py", "buildup_simulation.py"],
     [("comparison of the current time with the next request", "pyecloud_saver.py:_MP_state_save / _sim_state_save"),
      ("reload", "buildup_simulation.py:load_state")],
     ["MP_state_k.mat", "simulation_state_k.pkl"])
prop("C05", "The output file records exactly what happened in the simulation",
     "Every time series, histogram, per-pass total and counter in the output file equals the corresponding quantity recomputed "
     "independently from the particles, impacts and emissions of the time steps it covers; each step is counted exactly once, "
     "whatever the decimation, histogram periods, step sizes and saving interval.",
     ["configurations", "inputs", "histories"],
     "random set-ups and output options, uniform and non-uniform time steps, with impacts, regeneration and several clouds",
     TESTS + "only a few totals are compared with stored references.",
     ["pyecloud_saver.py", "impact_management_class.py", "buildup_simulation.py"],
     [("sampling and resizing of histories", "pyecloud_saver.py:witness and _*_save"),
      ("impact and emission histograms", "impact_management_class.py:backtrack_and_second_emiss")],
     ["every variable of the main output file"])
prop("C06", "Charge and energy are accounted for at the chamber wall",
     "At every time step the charge in the chamber changes only by the charge that hits the wall, the charge the wall emits, newly "
     "generated primaries and ionization products, and documented cleaning; and the impact, emission, energy, angle, segment and lifetime "
     "records sum to exactly those charges and energies.",
     ["inputs", "configurations", "histories"],
     "random set-ups and adversarial random draws, at every step of every run",
     TESTS + "a leak of a fraction of a per cent, or in a surface model or chamber not in the set, goes unnoticed.",
     ["impact_management_class.py", "MP_system.py", "buildup_simulation.py"],
     [("replacement of impacting macroparticles by emitted ones", "impact_management_class.py:backtrack_and_second_emiss")],
     ["macroparticle arrays around each step", "per-step and per-pass totals"])
prop("C07", "Macroparticle state stays valid under every sequence of random draws",
     "Throughout a simulation every macroparticle has finite position and velocity and a finite positive charge, lies inside the chamber "
     "after the wall interaction, and the population stays within its declared capacity, whatever values the random generator draws.",
     ["inputs", "configurations", "schedules"],
     "random set-ups with the random generator returning adversarial legal values (0, the smallest and largest representable uniform)",
     TESTS + "they use one ordinary random stream.",
     ["MP_system.py", "impact_management_class.py", "electron_emission.py", "gas_ionization_class.py", "gen_photoemission_class.py"],
     [("backtracking and emission", "impact_management_class.py"), ("angle and energy sampling", "electron_emission.py, sec_emission_model_*.py")],
     ["macroparticle arrays after each step"])
prop("C08", "Reducing the number of macroparticles conserves the charge",
     "Regenerations and cleaning change the number of macroparticles but not the physics beyond their documented tolerance: the total charge "
     "is conserved, the macroparticle count ends within its limits, no particle appears outside the region the old ones occupied, and the "
     "simulation goes on for every population, including empty and single-particle ones; adding macroparticles leaves the others as they are and no charge behind the last one.",
     ["inputs", "histories", "schedules"],
     "random populations and sequences of add, clean, soft, hard and asynchronous regeneration, with ordinary and adversarial draws",
     TESTS + "regenerations occur in few of them and the charge before and after is not compared.",
     ["MP_system.py"],
     [("clean_small_MPs, check_for_regeneration, perform_soft_regeneration, check_for_async_regeneration", "MP_system.py")],
     ["macroparticle arrays around each operation"])
prop("C09", "Observing a simulation does not change it",
     "Switching on or off any output, log, progress file, video, snapshot, checkpoint, histogram, probe or custom observable leaves the "
     "particles, fields and random stream of every time step unchanged, and so does a failure to write the progress or log file.",
     ["configurations", "fault_sequences"],
     "random set-ups times random subsets of the observation options, with and without disk errors on the log and progress files",
     TESTS + "each of them runs with a single set of output options.",
     ["pyecloud_saver.py", "buildup_simulation.py", "impact_management_class.py"],
     [("saver called once per step", "buildup_simulation.py:run")],
     ["particles, fields, random stream after each step"])
prop("C10", "A simulation is a function of its inputs and its random stream alone",
     "Two executions with the same input files and the same random stream compute bit-identical states and outputs, whatever the wall clock, "
     "directory listing order, buffering or version-control tools do, and whatever other simulations were built, run or discarded before or "
     "are stepped in turn in the same process.",
     ["schedules", "configurations"],
     "random sets of 1-3 set-ups, interleavings of their steps in one process, and environments",
     TESTS + "every test builds one simulation per process state and never compares two executions.",
     ["buildup_simulation.py", "init.py", "cloud_manager.py", "PyEC4PyHT.py"],
     [("no module-level mutable state shared between simulations", "init.py, default_input_parameters.py")],
     ["state after each step", "output files"])
prop("C11", "A stop request ends the simulation at the next pass with complete output",
     "When the stop file appears at any moment of a run, the simulation ends with the documented user-stop error at the first pass boundary "
     "at or after that moment, and the outputs of all clouds on disk are then complete and hold exactly the history up to and including "
     "the last pass at which they were due to be saved (by default that pass); without a stop file it runs to its end.",
     ["schedules", "configurations"],
     "every step at which the file may appear or vanish again, over random set-ups with one or more clouds",
     TESTS + "none uses the stop file.",
     ["pyecloud_saver.py"], [("check for the stop file at a pass boundary", "pyecloud_saver.py:_stepbystep_check_and_save / witness")],
     ["exception raised", "output files"])
prop("C13", "A disk error is reported or harmless, never silently destructive",
     "When any disk operation of a run fails, the run either reports an error or ends with exactly the output of a fault-free run. Results and "
     "checkpoints that had been completed before stay complete and usable, the same simulation object can be continued, and a restarted "
     "process reaches the fault-free result.",
     ["fault_sequences", "configurations"],
     "every disk operation x errno (ENOSPC, EIO, EACCES, EDQUOT, EMFILE), once or for a window of operations, with partial writes, over random set-ups",
     TESTS + "none injects an I/O error.",
     ["pyecloud_saver.py", "buildup_simulation.py"],
     [("write to a temporary name, then rename", "pyecloud_saver.py:_write_file_safely"),
      ("put attributes back when pickling fails", "pyecloud_saver.py:_sim_state_save / _checkpoint_save")],
     ["result files", "exceptions", "the simulation object after the error"])
prop("C14", "Electron-cloud elements of a beam-tracking run do not influence each other",
     "When several electron-cloud elements are used in one tracking simulation, each computes for a given sequence of beam slices exactly what "
     "it would compute if it were the only element in the process, in whatever order and interleaving they are tracked, also when they share a "
     "field solver.",
     ["schedules", "configurations"],
     "random pairs and triples of elements (shared or own solver, clones) and interleavings of their tracking down to single slices",
     TESTS + "one element at a time is tracked.",
     ["PyEC4PyHT.py", "space_charge_class.py"], [("per-element cloud copies", "PyEC4PyHT.py:Ecloud.__init__, generate_twin_ecloud_with_shared_space_charge")],
     ["beam coordinates after tracking", "pinch records"])
prop("C15", "Each passage through an electron-cloud element starts from the same initial cloud",
     "Tracking a beam through an electron-cloud element starts from the element's initial electron distribution every time: the kicks depend only on the "
     "beam presented and on the random stream, not on what was tracked before, including passages that were abandoned half way by an error.",
     ["histories", "fault_sequences", "configurations"],
     "random sequences of beams, with and without errors raised in the middle of a passage, over random elements",
     TESTS + "a single passage is tested.",
     ["PyEC4PyHT.py", "MP_system.py"], [("re-initialisation before a passage", "PyEC4PyHT.py:_reinitialize, MP_system.py:init_from_dict")],
     ["beam coordinates after tracking"])
prop("C16", "Tracking slice by slice equals tracking the whole bunch",
     "Feeding an electron-cloud element the slices of a bunch one at a time, from the head and with explicit finalisation, gives the particles the same "
     "kicks and the same recorded pinch as presenting the whole bunch at once, wherever the sequence is cut.",
     ["schedules", "configurations"],
     "random bunches, slicings, sub-stepping and groupings of slices into calls, over random elements",
     TESTS + "only one slicing of one bunch is used.",
     ["PyEC4PyHT.py"], [("slice loop and finalisation", "PyEC4PyHT.py:track, _track_in_single_slice, finalize_and_reinitialize")],
     ["beam coordinates", "saved electron quantities"])
prop("C17", "All clouds feel the field of all clouds, refreshed on schedule",
     "The charge density used for the self-field is the sum of the densities of all clouds at the step of the last refresh; the field is refreshed exactly "
     "when the requested interval has elapsed (and never while it is switched off), and every cloud is pushed with that field.",
     ["configurations", "histories"],
     "random multi-cloud set-ups and refresh intervals, uniform and non-uniform time steps, with independent recomputation of the density at every step",
     TESTS + "a missing contribution of a weak cloud or an off-by-one refresh stays below their tolerance.",
     ["space_charge_class.py", "buildup_simulation.py", "cloud_manager.py"],
     [("deposit and solve", "space_charge_class.py:recompute_spchg_efield"), ("per-step sequence", "buildup_simulation.py:sim_time_step")],
     ["field and density arrays around each step"])
prop("C18", "Ionization by clouds produces the right charge of each product",
     "Over every time step, each cloud that ionizes the residual gas leaves behind, in every product cloud, the charge expected from its current macroparticles, the "
     "cross section at their energies, the target density and the step length, up to the statistical rounding to whole macroparticles; "
     "products start at the place of the ionizing particle with the requested energy, and the ionizing cloud is otherwise unaffected.",
     ["inputs", "configurations"],
     "random cross sections, densities, product lists and populations, with ordinary and adversarial draws, at every step",
     TESTS + "one process at one density is compared within a few per cent of its mean.",
     ["cross_ionization.py"], [("number of products from cross section and velocity", "cross_ionization.py:generate")],
     ["macroparticle arrays of all clouds around each step", "recorded production"])
prop("C19", "A run split into pieces is the run; every step and passage is executed once",
     "Running a simulation in any number of pieces by asking it to stop at intermediate times gives, step by step, the same states and outputs as running it at once: "
     "each time step is executed exactly once, each passage boundary is recognised exactly once, and step and passage indices are those of the time axis.",
     ["schedules", "configurations"],
     "random cuts of the run (on, between and beyond time steps), over random set-ups, uniform and non-uniform time axes",
     TESTS + "they always run to the end in one call.",
     ["buildup_simulation.py", "beam_and_timing.py"], [("step and pass bookkeeping", "beam_and_timing.py:next_time_step"), ("loop condition", "buildup_simulation.py:run")],
     ["time index, pass number, state after each step"])
prop("C20", "Primary electrons are generated in the charge and place the input asks for",
     "At every time step the residual-gas ionization and photoemission mechanisms add the charge implied by the beam density, pressure, cross section, yield and step length, "
     "up to the statistical rounding to whole macroparticles, and the new electrons lie inside the chamber at the requested places with finite energies; the cloud the simulation starts "
     "from has the requested number or density of electrons in the requested region, and exactly the macroparticles of a given file.",
     ["inputs", "configurations"],
     "random pressures, yields, chambers and reflectivities with ordinary and adversarial draws, at every step",
     TESTS + "primaries are a small part of what they compare.",
     ["gas_ionization_class.py", "gen_photoemission_class.py", "MP_system.py", "buildup_simulation.py"],
     [("number of new macroparticles", "gas_ionization_class.py:generate, gen_photoemission_class.py:generate")],
     ["macroparticle arrays around the generation"])
prop("C12", "Simulations averaging their charge densities over processes agree on one field",
     "When several simulations exchange their charge densities through a communicator, all of them compute, at every refresh, the field of the average of all "
     "their densities, whatever the order in which the processes make progress.",
     ["schedules", "configurations"],
     "random set-ups, 2-4 participants, and interleavings of their progress under a simulated communicator",
     TESTS + "no test uses a communicator.",
     ["space_charge_class.py"], [("gather, average, broadcast", "space_charge_class.py:recompute_spchg_efield")],
     ["density and field arrays after each refresh"])
prop("C21", "A recorded field map replays the fields it was recorded from",
     "After an electron-cloud element has been replaced with its recorded field map, tracking a beam through it gives every particle, slice by slice, the kick of the field recorded "
     "for that slice, in every later passage, without changing with the number or order of passages.",
     ["histories", "configurations"],
     "random elements, slicings and sequences of beams tracked through the replaced element",
     TESTS + "the replacement is not compared with the recorded fields.",
     ["PyEC4PyHT.py", "Transverse_Efield_map_for_frozen_cloud.py"],
     [("replacement", "PyEC4PyHT.py:replace_with_recorded_field_map"), ("map", "Transverse_Efield_map_for_frozen_cloud.py:Transverse_Efield_map")],
     ["beam coordinates after tracking"])
prop("C22", "Charging insulating surfaces account for the charge they accumulate",
     "On a chamber with charging segments, the surface charge density of each charging segment changes only by the charge impacting minus the charge emitted on it, within its saturation limits, "
     "and by its exponential discharge; segments not marked as charging keep their yield.",
     ["inputs", "configurations", "histories"],
     "random charging chambers, at every step of every run, with ordinary and adversarial draws",
     TESTS + "one charging set-up is compared in its totals.",
     ["sec_emission_model_ECLOUD_nunif.py"], [("charge ledger", "sec_emission_model_ECLOUD_nunif.py:SEY_model_ECLOUD_non_unif_charging")],
     ["surface charge after each step"])

prop("C23", "A beam and an electron cloud act on each other slice by slice",
     "While a slice of a beam is tracked through an electron-cloud element, the cloud moves in the field of exactly that slice (at its position, none if the slice is empty or does not interact) and in "
     "its own field, which is refreshed from its current density; every particle of the slice gets the kick of the field of the cloud at its position, over the length of the element, in the "
     "enabled planes only; what is recorded (fields, density, positions) is what acted; the cloud is not cleaned or regenerated inside a slice.",
     ["histories", "configurations", "schedules"],
     "random elements, bunches and trains with holes, offsets, sub-stepping, interleaved with another element on the same solver, with every slice and every sub-step recomputed",
     TESTS + "one bunch is compared with a stored result.",
     ["PyEC4PyHT.py", "space_charge_class.py"], [("interaction with a slice", "PyEC4PyHT.py:_track_in_single_slice")],
     ["beam coordinates, electron positions and fields around each slice", "recorded maps"])

prop("C24", "Electrons that cross the wall are put back where they crossed it",
     "Every electron (or ion) that ends a time step outside the chamber is found on the wall at the first point where its straight path from its last position inside crosses it, on the "
     "right wall segment, with the inward normal of the wall there; the secondaries it releases start at that point, inside the chamber, and no electron inside is taken for one that has hit the wall.",
     ["inputs", "histories", "configurations"],
     "random chambers (rectangles, ellipses, convex and concave polygons), every impact of every step, trajectories seeded through corners, along walls, from the wall and from far outside",
     "They track ordinary electrons in a few chambers and compare totals.",
     ["geom_impact_poly_fast_impact.py", "geom_impact_poly_cython.pyx", "geom_impact_ellip.py", "geom_impact_rect_fast_impact.py", "impact_management_class.py"],
     [("impact_point_and_normal", "geom_impact_*.py")],
     ["positions, segment and normal at every wall interaction"])
prop("C25", "Every impact on the wall releases what the surface model prescribes",
     "The charge emitted at every impact is the yield of the chosen surface model at the energy, angle and wall segment of the impact, with the charge, the number of macroparticles and the energies of "
     "elastic and true secondaries as the model prescribes; the energies and directions of the secondaries follow its distributions, and electrons are always emitted into the chamber.",
     ["inputs", "configurations", "histories"],
     "random surface models and parameters, every impact of every step, ordinary and adversarial draws, distributions judged over each run",
     "They compare a few distributions with fits and total yields within per cents.",
     ["sec_emission_model_ECLOUD.py", "sec_emission_model_ECLOUD_nunif.py", "sec_emission_model_accurate_low_ene.py", "sec_emission_model_cos_low_ener.py", "sec_emission_model_flat_low_ener.py",
      "sec_emission_model_from_file.py", "sec_emission_model_furman_pivi.py", "sec_emission_model_perfect_absorber.py", "electron_emission.py", "impact_management_class.py"],
     [("yield functions", "sec_emission_model_*.py:SEY_process"), ("emission", "sec_emission_model_*.py:impacts_on_surface, electron_emission.py")],
     ["macroparticles before and after every wall interaction"])
prop("C26", "Electrons and ions move under the forces that act on them",
     "During every time step every macroparticle of every cloud moves from where it was as the Lorentz force demands: the field of all clouds as last solved, the fields of all beams at that time, "
     "and the magnetic field of the machine, with its own charge and mass, over the length of that time step and in the number of sub-steps of its cloud, with the method of the chosen tracker.",
     ["inputs", "configurations", "histories"],
     "random magnets, fields, beams, species, time axes and sub-steps; every macroparticle of every step",
     "They compare totals of a few fixed set-ups with stored references within per cents.",
     ["buildup_simulation.py", "dynamics_Boris_f2py.py", "dynamics_Boris_multipole.py", "dynamics_dipole.py", "dynamics_strong_B_generalized.py", "boris_step.f", "boris_cython.pyx", "boris_c_function.c", "init.py"],
     [("motion of a cloud", "buildup_simulation.py:_cloud_motion"), ("trackers", "dynamics_*.py")],
     ["positions and velocities before and after every time step"])
prop("C27", "The beams that drive the simulation are those of the input",
     "The time axis, the line density at every time step, the transverse size, position and charge, and the electric field in the chamber of every beam are those its input describes (filling pattern and bunch "
     "lengths or a profile from file, optics and emittance, finite differences, closed formula or stored map), at every step of the run; impossible beams are refused.",
     ["inputs", "configurations"],
     "random filling patterns, profiles, optics, chambers and field modes, at random places of the chamber, and beams that must be refused",
     "They use a few fixed beams.",
     ["beam_and_timing.py", "BassErsk.py", "errfff.f", "parse_beam_file.py", "init.py"],
     [("line density", "beam_and_timing.py:bunch_train4"), ("field map", "beam_and_timing.py:beam_and_timing, BassErsk.py")],
     ["beam objects after construction and at every step"])

NA_TEXT = "A function of its arguments alone: no schedule, clock, I/O, crash, randomness or history it depends on, so there is nothing for a simulator to decide."


def na(id, title, statement, text, files, mech):
    prop(id, title, statement, ["inputs"], text, "They sample a few inputs.", files, mech)
    NA[id] = NA_TEXT


NA = {}
na("C34", "Input files are validated",
   "Unknown, missing or contradictory input parameters are rejected with an error that names them.",
   "all input files", ["input_parameters_format_specification.py", "default_input_parameters.py", "init.py"],
   [("assert_module_has_parameters", "input_parameters_format_specification.py")])

LEVELS = {"C01": "fault_enumeration", "C13": "fault_enumeration"}
TECH = {
    "C01": "deterministic simulation: seeded crash and power-cut injection at disk operations, restart, refinement against the fault-free run",
    "C02": "deterministic simulation: seeded stop/restart histories, per-step refinement against the uninterrupted run",
    "C03": "deterministic simulation: seeded stop/restart histories, output files compared with the uninterrupted run",
    "C04": "deterministic simulation: seeded request times and reload points, refinement against the saving run",
    "C05": "deterministic simulation: independent shadow recorder as reference model over seeded runs",
    "C06": "deterministic simulation: per-step charge and energy ledger over seeded runs with adversarial random draws",
    "C07": "deterministic simulation: per-step invariants over seeded runs with adversarial random draws",
    "C08": "deterministic simulation: seeded operation sequences against a reference ledger, adversarial random draws",
    "C09": "deterministic simulation: seeded option subsets and I/O faults, per-step refinement against the bare run",
    "C10": "deterministic simulation: seeded interleavings of simulations in one process in random environments",
    "C11": "deterministic simulation: stop file appearing at seeded operations, outputs compared with the unstopped run",
    "C12": "deterministic simulation: seeded scheduler over a simulated communicator, reference average",
    "C13": "deterministic simulation: seeded errno injection at disk operations, refinement against the fault-free run",
    "C14": "deterministic simulation: seeded interleavings of elements against each element alone",
    "C15": "deterministic simulation: seeded passage histories with injected failures against a fresh element",
    "C16": "deterministic simulation: seeded slice schedules against whole-bunch tracking",
    "C17": "deterministic simulation: per-step density and cadence reference model over seeded runs",
    "C18": "deterministic simulation: per-step production ledger over seeded runs with adversarial random draws",
    "C19": "deterministic simulation: seeded cuts of the run, per-step refinement against the uncut run",
    "C20": "deterministic simulation: per-step production ledger over seeded runs with adversarial random draws",
    "C21": "deterministic simulation: seeded passage histories against the recorded fields",
    "C23": "deterministic simulation: per-slice refinement against a reference model over seeded passage histories",
    "C24": "deterministic simulation: per-impact reference geometry over seeded runs with trajectories perturbed to the special cases",
    "C25": "deterministic simulation: per-impact reference emission model over seeded runs with adversarial random draws",
    "C26": "deterministic simulation: per-step reference integrator over seeded runs",
    "C27": "deterministic simulation: reference beam model (line density, boundary-element field) over seeded runs, refusals of impossible beams",
    "C22": "deterministic simulation: per-step surface charge ledger over seeded runs with adversarial random draws",
}
NOTES = {
    "default": "Seeded sampling of executions of the real code, not exhaustive. Trusts the numerical kernels (both sides of a comparison run them unless the check recomputes them) and the simulated environment's model of the disk.",
    "C01": "Seeded sampling of crash points: every kind of disk operation and every position within it is hit, not every combination. Trusts that rename/unlink are durable in order and data after fsync.",
}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            f.write(json.dumps(p) + "\n")
    checks, nas = [], []
    for p in sorted(P, key=lambda p: p["id"]):
        i = p["id"]
        if i in NA:
            nas.append(dict(property=i, reason=NA[i]))
        elif os.path.exists(os.path.join(HERE, "dst", "props", i.lower() + ".py")):
            checks.append(dict(property=i, quick_cmd="python3 check.py run %s --tier quick" % i,
                               thorough_cmd="python3 check.py run %s --tier thorough" % i,
                               evidence_file="evidence/%s.json" % i, technique=TECH[i], level=LEVELS.get(i, "exploration"),
                               level_note=NOTES.get(i, NOTES["default"])))
        else:
            nas.append(dict(property=i, reason="planned, its check is not built yet"))
    m = dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=nas,
             notes="No hooks in /repo: every seam is an entry point of Python or of its libraries, patched in the check's own process.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print("%d checks, %d not applicable" % (len(checks), len(nas)))


if __name__ == "__main__":
    main()
