#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os, sys

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mechanism],
            "observe_at": list(observe),
            "hook_needed": None,
        }})


prop("C01", "Trial evaluations leave the deformable mirrors as they found them",
     "Measuring probe images, predicting the intensity of a candidate command, searching over regularisations and gains, "
     "evaluating the cost and gradient of a candidate command, and scaling the Jacobian only borrow the deformable mirrors. "
     "When each of these returns, the command of every mirror, the list of mirrors in use and the lists of actuators in use "
     "are exactly what they were at entry (re-applying the actuator constraints, which changes nothing for a command that already satisfies them, aside).",
     ["inputs", "configurations", "histories"],
     "every way of returning from every such function, for every set of active mirrors, controller and estimator option",
     "The tests run two or three configurations end to end and look at the final contrast; a command left displaced on one branch "
     "(a mirror that is probed but not controlled, a flag seldom set) is never compared with its entry value.",
     ["falco/est.py", "falco/ctrl.py", "falco/imaging.py", "falco/model/models.py"],
     [("save at entry, restore before return", "falco/est.py pairwise_probing; falco/ctrl.py _efc, _ad_efc, _grid_search_*; "
       "falco/imaging.py get_expected_summed_image; falco/model/models.py compact_reverse_gradient")],
     [("mp.dm1.V, mp.dm2.V, mp.dm8.V, mp.dm9.V", "current voltage command of each mirror", "the model-parameters object"),
      ("mp.dm_ind, mp.dm*.act_ele", "mirrors and actuators in use", "the model-parameters object")],
     ["attribute values at function exit"])

prop("C02", "Tasks evaluated in parallel share no state that any of them writes",
     "Work handed to a thread pool (images per wavelength, star and polarisation, Jacobian columns, controller trial settings) "
     "never writes to an object that another task of the same batch can read or write. A task's result leaves it only through its return value (re-applying the actuator constraints to an unchanged command aside).",
     ["schedules", "configurations"],
     "every interleaving of the tasks of every parallel batch, for every coronagraph and layout",
     "Race outcomes depend on the schedule; the one parallel test runs a small configuration whose tasks happen not to collide.",
     ["falco/imaging.py", "falco/model/models.py", "falco/model/jacobians.py", "falco/est.py", "falco/ctrl.py"],
     [("worker functions passed to executor.map / pool.starmap", "falco/imaging.py, falco/est.py, falco/ctrl.py, falco/model/models.py")],
     [("the shared model-parameters object", "captured by every worker", "mp")],
     ["writes reachable from worker functions"])

prop("C03", "Parallel and serial evaluation compute the same thing",
     "Where parallel evaluation can be switched on, the parallel branch evaluates the same set of cases with the same arguments as the serial branch, "
     "and combines their results with the same weights, in the same places, with the same treatment of stars and noise.",
     ["configurations", "inputs"],
     "every function with a serial and a parallel branch, every number of wavelengths, stars, polarisations, modes and actuators",
     "Only one small configuration is run both ways; with one star, one DM subset and no noise most differences vanish.",
     ["falco/imaging.py", "falco/model/models.py", "falco/est.py", "falco/ctrl.py", "falco/zern.py"],
     [("if mp.flagParallel: ... else: ...", "falco/imaging.py, falco/est.py, falco/ctrl.py, falco/model/models.py, falco/zern.py")],
     observe=["worker, case list and reduction of each branch"])

prop("C04", "What is stored for one deformable mirror depends only on that mirror",
     "Setup, surface generation, constraint handling and control store for each deformable mirror (geometry, influence function, padding, surface, "
     "bounds, command) only values derived from that same mirror's settings and from mirror-independent parameters. "
     "Code that serves the mirrors in turn treats them alike, and a mirror that is not in use gets no command change.",
     ["configurations", "inputs"],
     "every mirror and every set of mirrors in use, with mirrors whose settings differ from one another",
     "The test configurations give both mirrors identical geometry, so a value taken from the wrong mirror is numerically invisible.",
     ["falco/setup.py", "falco/dm.py", "falco/ctrl.py", "falco/est.py", "falco/model/models.py", "falco/model/jacobians.py", "falco/wfsc.py", "falco/hlc.py"],
     [("parallel per-mirror blocks", "falco/setup.py, falco/ctrl.py, falco/dm.py, falco/model/*.py")],
     [("mp.dm1.*, mp.dm2.*, mp.dm8.*, mp.dm9.*", "per-mirror settings and state", "the model-parameters object")],
     ["data flow into per-mirror attributes"])

prop("C05", "The control model never reads the truth model's parameters, nor vice versa",
     "The compact model, the Jacobian and the gradient used for control compute fields only from compact-model quantities and shared quantities; "
     "pupil samplings, masks, incident fields, normalisations and aberrations that belong to the full (truth) model never influence them. "
     "Conversely the full model is never fed the compact model's samplings, masks, fields or normalisations.",
     ["configurations", "inputs"],
     "every coronagraph type, every branch of every model function",
     "In the test configurations full and compact samplings and fields are identical, so a mix-up changes no number.",
     ["falco/model/models.py", "falco/model/jacobians.py"],
     [("mp.*.compact.* versus mp.*.full.*", "falco/model/models.py, falco/model/jacobians.py")],
     observe=["parameters read by each model"])

prop("C06", "Horizontal and vertical axes are never exchanged",
     "Offsets, widths, samplings and pixel counts given for the horizontal focal-plane or pupil axis are applied to columns, and those given for the vertical axis to rows. "
     "This holds in every mask generator, propagation, image, software window, probe, and dark-hole region, also when the two axes have different values.",
     ["inputs", "configurations"],
     "all unequal horizontal and vertical values",
     "Tests use square arrays with equal samplings and mostly zero offsets, for which exchanging the axes changes nothing.",
     ["falco/prop.py", "falco/mask.py", "falco/setup.py", "falco/imaging.py", "falco/est.py", "falco/model/models.py", "falco/model/jacobians.py", "falco/util.py"],
     [("paired xi/eta, x/y arguments and (rows, columns) shapes", "falco/prop.py, falco/mask.py, falco/setup.py, falco/imaging.py, falco/model/*.py")],
     observe=["arguments of propagation calls, array shapes, stored offsets"])

prop("C07", "Computing functions never alter what their caller passed in",
     "A library function that takes arrays, lists, dictionaries or parameter objects and returns a newly computed result leaves everything it was given unchanged; "
     "only the functions whose purpose is to update the parameter, history or estimate objects write to them, and then only the documented attributes. "
     "What is returned is not a live reference to an array that the caller or the parameter object still holds, apart from operators that pass their argument through (zero-distance propagation, an even number of relays, resampling by one). Bringing a mirror's command within its constraints before using it does not count as alteration.",
     ["inputs", "histories"],
     "every public computing function and every argument value, including calling it repeatedly with the same objects",
     "Tests build fresh inputs for each call and compare outputs only; a changed input shows up at the next use of it.",
     ["falco/util.py", "falco/mask.py", "falco/prop.py", "falco/zern.py", "falco/dm.py", "falco/diff_dm.py", "falco/imaging.py", "falco/plot.py",
      "falco/thinfilm.py", "falco/hexsegmirror.py", "falco/model/models.py", "falco/model/jacobians.py", "falco/wfsc.py", "falco/est.py"],
     [("fresh arrays and explicit copies", "all of falco/")],
     observe=["in-place writes reaching parameters"])

prop("C08", "Results depend only on the inputs: no hidden process-wide state or randomness",
     "Two calls with equal arguments give equal results regardless of what ran before: library functions keep no module-level or default-argument state, "
     "do not depend on wall-clock time, environment, hash order or unseeded randomness, and do not reconfigure third-party libraries for the rest of the process. "
     "Random numbers are drawn only when noise is explicitly requested.",
     ["histories", "inputs"],
     "every sequence of calls in one process",
     "Each test calls a function once in a fresh state; order dependence needs a particular call history.",
     ["falco/"],
     [("no global state", "all of falco/")],
     observe=["module-level writes, random and time sources"])

prop("C09", "Documented argument requirements are enforced before any work is done",
     "Public functions that state requirements on their arguments (type, sign, dimensionality, allowed keyword) reject every violating argument with an exception, "
     "for each such argument, before using it.",
     ["inputs"],
     "every argument outside its documented domain, for every validating function",
     "The tests try a handful of bad values on a few functions; most validated arguments are never given a bad value.",
     ["falco/check.py", "falco/mask.py", "falco/prop.py", "falco/util.py", "falco/dm.py", "falco/diff_dm.py", "falco/hlc.py", "falco/zern.py", "falco/setup.py",
      "falco/imaging.py", "falco/est.py", "falco/ctrl.py", "falco/thinfilm.py", "falco/hexsegmirror.py"],
     [("check.* calls and explicit raises at function entry", "falco/*.py")],
     observe=["validation calls that dominate the computation"])

prop("C10", "The argument-checking helpers accept and reject exactly what they advertise",
     "Each argument-checking helper accepts every value of the kind it is named for and raises the exception it was asked to raise for every other value "
     "(zero and negative numbers, complex numbers, booleans, strings, None, arrays of another dimension or length).",
     ["inputs"],
     "every value, partitioned by type, dimensionality, realness, integrality and sign",
     "Tests sample a list of values per helper; the accept/reject boundary is a universal statement.",
     ["falco/check.py"],
     [("predicates in each helper", "falco/check.py")],
     observe=["accept/raise outcome per class of value"])

prop("C11", "An unsupported option value is rejected, never silently ignored",
     "Wherever behaviour is selected by a named option (coronagraph, estimator, controller, probe shape, centring, influence sign, material, planet or metric name), "
     "each documented name selects its own behaviour and every other value raises an error; no value falls through to another option's behaviour or to undefined data.",
     ["configurations", "inputs"],
     "every option string, documented or not",
     "Tests use the documented values of a few options, in one spelling.",
     ["falco/setup.py", "falco/est.py", "falco/ctrl.py", "falco/imaging.py", "falco/model/models.py", "falco/model/jacobians.py", "falco/mask.py",
      "falco/dm.py", "falco/hlc.py", "falco/util.py", "falco/thinfilm.py", "falco/prop.py", "falco/zern.py", "falco/diff_dm.py"],
     [("if/elif chains on option strings ending in raise", "falco/*.py")],
     observe=["outcome of each dispatch for every option value"])

prop("C12", "No configuration path runs into an undefined name, bad call or missing function",
     "On every path selectable by configuration, each variable has been given a value before it is used, each internal function or attribute referred to exists, "
     "and each internal call supplies arguments that the called function accepts.",
     ["configurations", "inputs"],
     "every branch of every function, including those no test configuration selects",
     "Python reports these only when the line runs; large parts of the option space are never executed by the tests.",
     ["falco/"],
     [("Python name binding and call binding", "all of falco/")],
     observe=["uses without reaching definition, calls that cannot bind, unresolvable references"])

prop("C13", "Every mirror command respects the actuator constraints",
     "Each deformable-mirror command adopted by the loop, a controller or surface generation has passed through the constraint step for that mirror, which zeroes dead actuators, "
     "keeps total voltage (command plus bias) within the mirror's minimum and maximum, forces pinned actuators to their stored voltages and tied actuators to a common value. "
     "An actuator found outside the bounds ends up exactly at the bound it crossed and is added to the mirror's pinned actuators.",
     ["inputs", "histories", "configurations"],
     "every command history, every bound, bias map and tie/pin/dead configuration",
     "Test configurations use bounds that are never reached and no tied, dead or pinned actuators.",
     ["falco/dm.py", "falco/ctrl.py", "falco/wfsc.py"],
     [("enforce_constraints", "falco/dm.py"), ("call after each command update", "falco/ctrl.py, falco/wfsc.py, falco/model/models.py")],
     [("V, biasMap, Vmin, Vmax, pinned, Vpinned, tied, dead", "constraint data of each mirror", "mp.dm1, mp.dm2")],
     ["value stored as command; order of the constraint steps"])

prop("C14", "The correction loop runs its steps in order and records each iteration in place",
     "Every iteration measures with the current command before computing a new one, linearises before control when and only when the schedule asks for it, and applies the controller's command exactly once. "
     "Every quantity saved for an iteration is written to that iteration's own slot of the history, which is large enough for every iteration, mode and subband.",
     ["histories", "configurations"],
     "every iteration of every schedule, number of subbands, stars, Zernike modes and mirrors",
     "Tests check the final value of two or three histories for runs of three iterations with one star and one mode.",
     ["falco/wfsc.py", "falco/setup.py", "falco/ctrl.py", "falco/est.py"],
     [("loop body and store_* functions", "falco/wfsc.py"), ("init_storage_arrays", "falco/setup.py")],
     [("out.*", "history arrays", "falco/setup.py init_storage_arrays")],
     ["order of calls in the loop; index of every history write"])

prop("C15", "Per-wavelength, per-mode and per-star quantities are matched by index",
     "Whenever a quantity tabulated per subband, wavelength, star, Zernike mode or Jacobian mode is used for a given case, it is taken at that case's own index: the wavelength, incident field, "
     "mask, normalisation, weight, image slice and estimate that are combined all belong to the same case.",
     ["configurations", "inputs"],
     "every combination of numbers of subbands, wavelengths per subband, stars, modes and polarisations",
     "Most tests have one star and one Zernike mode, and many tables are constant over wavelength.",
     ["falco/imaging.py", "falco/est.py", "falco/ctrl.py", "falco/model/models.py", "falco/model/jacobians.py", "falco/setup.py", "falco/wfsc.py"],
     [("modvar.* and mp.jac.*_inds index vectors", "falco/setup.py, falco/imaging.py, falco/est.py, falco/ctrl.py, falco/model/*.py")],
     observe=["index expression of each tabulated quantity"])

prop("C16", "Jacobian and gradient share the optical train of the compact model",
     "For every supported coronagraph type, the Jacobian of each mirror and the gradient model include every optical element, error map, mask, flux normalisation and image rotation that the compact model applies "
     "between that mirror and the image plane, each at the same plane and with the same sampling and propagation distance.",
     ["configurations"],
     "every coronagraph type, relay, error-map and mask flag",
     "The Jacobian tests cover three coronagraphs with relays, error maps and apodizers switched off.",
     ["falco/model/models.py", "falco/model/jacobians.py"],
     [("element-by-element propagation in each model", "falco/model/models.py compact_general, compact_reverse_gradient; falco/model/jacobians.py")],
     observe=["elements and distances applied per plane"])

prop("C17", "Propagation operators follow one fixed set of Fourier conventions",
     "Propagation to a focus and back use mutually conjugate kernels, the flux-preserving prefactor of sampling over wavelength times focal length, and coordinate axes centred on a pixel or between pixels as the chosen centring says. "
     "Free-space propagation over a distance applies the angular-spectrum phase of that distance and is skipped only for zero distance.",
     ["inputs"],
     "every wavelength, focal length, sampling, array size, centring and distance",
     "Tests compare one or two centrings and equal samplings, for which a wrong axis or factor cancels.",
     ["falco/prop.py", "falco/util.py"],
     [("mft_p2f, mft_f2p, mft_p2v2p, ptp, relay, ptp_inf_func", "falco/prop.py"), ("create_axis", "falco/util.py")],
     observe=["returned expression of each operator"])

prop("C18", "Configuration files are evaluated lazily, safely and without side effects",
     "Loading a configuration changes nothing outside the returned object: neither the YAML library's own loaders nor the caller's context. "
     "Deferred expressions are evaluated against the parameters being loaded each time they are read, a circular dependency raises an error rather than recursing, "
     "and after a failed evaluation the same parameter can be evaluated again.",
     ["inputs", "histories", "fault_sequences"],
     "every configuration text, every order of reads, every failing expression",
     "Tests load one document per process and read each expression once.",
     ["falco/config/Eval.py", "falco/config/Object.py", "falco/config/yaml_loader.py", "falco/config/ModelParameters.py"],
     [("Eval.evaluate in_progress flag with finally", "falco/config/Eval.py"), ("_get_loader", "falco/config/yaml_loader.py"), ("Object.__getattr__", "falco/config/Object.py")],
     observe=["writes to library classes and arguments; flag state on every exit"])

prop("C19", "Files and workers are released, and output goes only where and when asked",
     "Every file and worker pool that the toolkit opens is closed again on every path. Data files are written only below the output directories given in the configuration or to a path given by the caller, "
     "and the whole workspace only when its save option is on (the lookup-table cache of the thin-film module aside).",
     ["configurations", "fault_sequences"],
     "every save/plot option setting and every failure while a file or pool is open",
     "Tests run with saving and plotting off.",
     ["falco/wfsc.py", "falco/setup.py", "falco/thinfilm.py", "falco/plot.py", "falco/model/models.py", "falco/imaging.py", "falco/est.py", "falco/hlc.py", "falco/mask.py"],
     [("with statements, mp.path.* and flagSave*", "falco/*.py")],
     observe=["open/close pairing, file-name provenance, guards of writes"])

prop("C20", "Surface generation and actuator poke tables use the same mirror geometry",
     "The two ways of modelling a mirror, the full surface from a command and the table of single-actuator pokes, place every actuator identically: the same grid centre, pixel-centring shift, "
     "influence-function sign, rotation and tilt, flip and rotation of the actuator grid, and voltage gain.",
     ["configurations", "inputs"],
     "every grid orientation, centring, influence sign, rotation, tilt and gain map",
     "Tests compare the two for a few orientations at one centring with unit gains.",
     ["falco/dm.py", "falco/diff_dm.py", "falco/setup.py"],
     [("gen_surf_from_act, gen_poke_cube, propcustom_dm", "falco/dm.py"), ("differentiable model", "falco/diff_dm.py")],
     observe=["geometry parameters used by each path"])

prop("C21", "The differentiable mirror model is back-propagated in exact reverse",
     "The back-propagation of the differentiable mirror model applies the adjoint of each step of the surface rendering, with the same parameters, in exactly the reverse order, so that for every command it returns the transpose of the linear map from actuators to surface.",
     ["inputs"],
     "every command, grid size, upsampling, shift, rotation and crop",
     "The test compares one pair of random arrays for one geometry.",
     ["falco/diff_dm.py"],
     [("DM.render and DM.render_backprop", "falco/diff_dm.py")],
     observe=["step sequences of the two methods"])

prop("C22", "Probe data enter the estimator with the right sign and pairing",
     "For each probe pair the estimator subtracts the minus image from the plus image of the same pair and subband, pairs it with the model response of the same mirror, probe and subband, and solves each pixel from that pixel's data only. "
     "The incoherent intensity is the unprobed image minus the modulus squared of the estimate of the same subband.",
     ["inputs", "configurations"],
     "every number of probe pairs, subbands, stars and dark-hole pixels",
     "The functional test checks an aggregate error in one configuration.",
     ["falco/est.py"],
     [("pairwise_probing", "falco/est.py")],
     observe=["data flow of plus/minus images into the estimate"])

prop("C23", "Control laws solve the regularised normal equations of the active actuators",
     "The electric-field-conjugation controllers obtain the command as minus the solution of (sum of weighted G^H G plus the regularisation term) against the weighted sum of Re(G^H E), with mode weight and field of the same mode, "
     "place each mirror's part of the solution on that mirror's own active actuators, and add it, scaled by the requested gain, to the current command.",
     ["inputs", "configurations"],
     "every set of mirrors, modes, weights, gains and regularisations",
     "Tests look at contrast reached by the best of a grid of settings; a wrong weight, gain or slice still improves contrast.",
     ["falco/ctrl.py"],
     [("_grid_search_efc, _planned_efc, _efc, init, wrap_up", "falco/ctrl.py")],
     observe=["accumulated matrices, slices and gains in the data flow"])

prop("C24", "Detected errors are raised and computed results are used",
     "An error condition that the code detects ends in a raised exception, an exception from a failing step is not swallowed so that work goes on with stale or missing data, "
     "and no statement computes a value only to drop it.",
     ["inputs", "fault_sequences"],
     "every detected error condition and every failing step",
     "Tests do not drive most error conditions, and a dropped result is visible only where its absence matters.",
     ["falco/"],
     [("raise statements, except handlers, expression statements", "all of falco/")],
     observe=["exceptions built but not raised, swallowing handlers, discarded pure results"])

prop("C25", "Mask features share one centring, shear, rotation and magnification",
     "A mask generator applies the requested centring, shears, rotation, magnification, padding and orientation to every feature of the mask alike (outer edge, "
     "obscuration, struts, tabs, segments): horizontal requests move features along columns and vertical ones along rows, whatever combination of options is given.",
     ["inputs", "configurations"],
     "every combination of the options of every mask generator",
     "Tests check shifts and rotations of a few masks, one option at a time.",
     ["falco/mask.py", "falco/hexsegmirror.py"],
     [("mask generators", "falco/mask.py"), ("segmented apertures", "falco/hexsegmirror.py")],
     observe=["returned mask arrays"])

# ---- properties that static analysis does not decide -------------------------------------
prop("C50", "The linear model predicts the field change of a small actuator move",
     "For every actuator, mode and coronagraph, the Jacobian column equals the derivative of the compact-model field with respect to that actuator, to first order.",
     ["inputs", "configurations"], "every actuator, wavelength, mode, coronagraph and command",
     "Tests sample a few actuators of three coronagraphs.",
     ["falco/model/jacobians.py", "falco/model/models.py"], [("lyot, vortex, no_fpm", "falco/model/jacobians.py")])
prop("C51", "Propagation conserves energy and inverts to numerical accuracy",
     "Propagating to a focal plane that contains all the light and back returns the rotated input field to rounding accuracy and conserves energy.",
     ["inputs"], "every field, sampling and size", "A few sizes are sampled.", ["falco/prop.py"], [("mft_p2f, mft_f2p, ptp", "falco/prop.py")])
prop("C52", "Closed-loop correction reduces the dark-hole intensity",
     "With a perfect or pairwise estimate and an adequate model the loop lowers the mean normalised intensity of the dark hole until it reaches the linearisation or noise floor.",
     ["histories", "configurations"], "every starting aberration within range", "A few seeds and three iterations are run.",
     ["falco/wfsc.py", "falco/ctrl.py"], [("loop", "falco/wfsc.py")])
prop("C53", "Generated masks have the requested area, edges and symmetry",
     "Each mask generator returns a transmission between zero and one whose open area, edge positions, and symmetry match the requested geometry within one antialiased pixel.",
     ["inputs"], "every geometry and sampling", "Tests compare areas for a handful of geometries.", ["falco/mask.py"], [("gen_* functions", "falco/mask.py")])
prop("C54", "Thin-film coefficients satisfy energy balance and published index data",
     "Complex transmission and reflection of every layer stack agree with Fresnel theory, with transmittance plus reflectance not above one.",
     ["inputs"], "every layer stack and wavelength", "Two stacks are compared with stored values.", ["falco/thinfilm.py"], [("solver, calc_complex_occulter", "falco/thinfilm.py")])
prop("C55", "Fitting a surface to actuators reproduces reachable surfaces",
     "Fitting commands to a surface that the mirror can make returns a command that reproduces it, for every fitting method.",
     ["inputs"], "every reachable surface", "A few random commands are tried.", ["falco/dm.py"], [("fit_surf_to_act", "falco/dm.py")])
prop("C56", "Estimates converge to the true field as noise and model error vanish",
     "The pairwise-probing estimate of every well-conditioned pixel tends to the true field as probe nonlinearity, noise and model error go to zero.",
     ["inputs", "histories"], "every field and probe amplitude", "One configuration is compared.", ["falco/est.py"], [("pairwise_probing", "falco/est.py")])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
