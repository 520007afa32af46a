#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one place so statements stay in step)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))
CT = "pySLM2/util/controller.py"; SLM = "pySLM2/slm.py"; LIB = "pySLM2/_lib.py"; SIM = "pySLM2/simulation.py"
PR = "pySLM2/profile.py"; WI = "pySLM2/window.py"; BE = "pySLM2/_backend.py"; AN = "pySLM2/analysis.py"
NOHW = "The only tests of the controllers need real hardware and a person looking at it; all are skipped, so the suite runs no controller code at all."

prop("C01", "A load that returns is what the mirrors show",
 "Whenever a load call on a DMD controller (Vialux ALP or Visitech Luxbeam) returns normally, the mirrors show exactly the images passed to it, in the order given, inverted exactly when inversion was requested. A single image appears without any trigger and stays; a list of images advances by exactly one image per rising trigger edge and wraps around (the Luxbeam shows the first image at once, the ALP at the first trigger). This holds whatever was loaded, triggered, or failed on that controller before.",
 ["histories", "fault_sequences", "schedules", "inputs"],
 "every history of initialise / load-single / load-multiple / trigger / failed or interrupted call / host restart on either controller, every image content and set size, every timing of triggers",
 NOHW + " A manual test looks at one or two loads from a fresh device.",
 [CT], [("halt, allocate, upload, run", CT + " ALPController.load_single/load_multiple"), ("sequencer program and register", CT + " LuxbeamController.initialize/load_*")],
 [("projection mode, trigger edge, inversion", "device settings that outlive a load", "ALP device"), ("image count register, image slots, program counter", "what the sequencer shows next", "Luxbeam device")],
 ["mirror state of the simulated device over simulated time"])
prop("C02", "The mirrors never show a half-loaded or mixed image set",
 "At every instant, also while a load is in progress, while triggers keep arriving, and after a load failed or was interrupted at any point, every image the mirrors switch to belongs to one completely uploaded set. Once an image of a newer set has been shown, no image of an older set appears again.",
 ["schedules", "fault_sequences", "crash_points", "histories"],
 "every interleaving of external/software trigger edges and frame timing with the device commands of a load, every command at which a load can fail, be interrupted or lose its request or acknowledgement, every sequence of such loads",
 NOHW + " Triggers in the middle of an upload and failing commands cannot be produced by a unit test without controlling the device.",
 [CT], [("the display is stopped before anything is changed and started after everything is uploaded", CT + " load_single/load_multiple of both controllers")],
 [("running", "whether the device advances frames on its own or on triggers", "device")],
 ["every mirror update of the simulated device"])
prop("C03", "Controllers recover once faults stop",
 "After any sequence of failed, timed-out or interrupted initialise, load, trigger or close calls, once the device answers again, a bounded recovery succeeds: retrying the call, and if that fails closing and initialising again, leaves a controller whose next load returns and is displayed. A device command that fails or times out surfaces as an error from the call that issued it, never as a silent success.",
 ["fault_sequences", "crash_points", "histories"],
 "every command index at which each fault kind (error before or after taking effect, lost request, lost acknowledgement, partial upload, interrupt) can hit any call, followed by a fault-free suffix",
 NOHW + " No fault is ever injected.",
 [CT], [("device is brought to a known state at the start of every load", CT), ("a sequence is forgotten before it is freed", CT + " ALPController"), ("initialisation flag set last", CT + " initialize")],
 [("initialised flag", "whether commands are let through", CT)], ["exceptions of the calls", "mirror state after the fault-free suffix"])
prop("C04", "Loading forever does not exhaust the device; closing frees it",
 "Any number of successive loads succeeds as long as each image set fits on the device by itself: a load releases the on-board memory of the set it replaces. A close that returns has released all on-board image memory and the device itself, so that another controller can open it, also when earlier loads or an earlier close failed half way.",
 ["histories", "fault_sequences", "configurations"],
 "every length and mix of load sequences, every on-board memory size that fits the largest set, failures in between, every point at which a close can fail before it is retried",
 NOHW + " Exhaustion needs thousands of loads.",
 [CT], [("previous sequence freed after halt, before allocation", CT + " ALPController"), ("halt, free sequence, free device", CT + " ALPController.close")],
 [("allocated sequences", "on-board memory in use", "ALP device")], ["allocated sequences and device handle of the simulated device"])
prop("C05", "No device command before initialisation or after close",
 "Before an initialisation succeeded, after one failed, and after a close, every load, size query, test-image and (Luxbeam) software-trigger request raises an error and sends no command to the device. Initialising makes them work, and the controller's own answer to whether it is initialised always agrees with which of the two it does.",
 ["histories", "fault_sequences"],
 "every sequence of construct / initialise / failing initialise at any command / use / close / re-initialise / use on either controller and on user-defined controllers",
 NOHW,
 [CT], [("guard on the public methods", CT + " _check_initialization"), ("flag set after the last initialisation command, cleared by close", CT)],
 [("initialised flag", "", CT)], ["commands received by the simulated device", "exceptions"])
prop("C06", "A missing or broken vendor library only disables its controller",
 "Importing the package and its hardware utilities succeeds whatever goes wrong while either vendor library is imported (not installed, missing native driver, any other error, even a SystemExit raised by it). Only constructing the controller whose library failed is refused, with a module-not-found error; everything else, including the other vendor's controller, works.",
 ["fault_sequences", "configurations"],
 "every combination of the two vendor libraries being healthy or failing at import with any error class, at the first or a later import",
 "The test environment has neither library and no test constructs a controller or fails an import.",
 [CT], [("import guards", CT + " top"), ("constructor checks", CT + " ALPController/LuxbeamController.__init__")],
 observe=["import outcome", "constructor exceptions", "device commands"])
prop("C07", "A failed or interrupted pattern update changes nothing",
 "When any call that computes or sets the pattern of a modulator (DMD hologram by any method, plain grating, circular patch, LCOS hologram) raises or is interrupted at any point, for any reason, the pattern is afterwards exactly what it was before, or, if the interrupt came after the computation, exactly the complete new one. The same call repeated without the fault gives the result it would have given had the fault never happened.",
 ["fault_sequences", "crash_points", "histories", "inputs"],
 "every pattern-setting call, every failing resource in it (transform, random source, user profile callback, invalid arguments), every interruptible point, any preceding history",
 "Tests only run calls that succeed.",
 [SLM, LIB], [("pattern assigned once, after everything was computed", SLM + " set_dmd_grating_state, circular_patch, calculate_dmd_state, calculate_hologram")],
 [("pattern", "mirror or phase pattern of the modulator", SLM)], ["pattern before and after each call"])
prop("C08", "Simulation results always stem from one propagation",
 "At any time the input field, output field, image-plane field, intensities and powers reported by a simulation all stem from the same single propagation of one beam through one pattern, or are all absent after clearing or before the first propagation. A propagation that fails or is interrupted leaves the previous results in place, or the complete new ones if it was interrupted after completing, and does not affect later propagations.",
 ["fault_sequences", "crash_points", "histories"],
 "every point at which a propagation, zeroth-order block or clear can fail or be interrupted, after any history of propagations, pattern changes and clears",
 "Tests only run propagations that succeed.",
 [SIM], [("results published together at the end", SIM + " propagate_to_image"), ("zeroth-order block replaces the image field in one step", SIM + " block_zeroth_order")],
 [("input/output/image field", "last propagation", SIM)], ["public field, intensity and power accessors"])
prop("C09", "Circular patches compose: last writer wins, rest untouched",
 "After any sequence of whole-pattern settings and circular patches, every pixel holds the value of the last operation that covered it: inside a patch's disc the value the same grating would have there as a whole pattern (gray levels included, also on top of a binary pattern), outside it exactly what it held before. A failed patch covers nothing.",
 ["histories", "inputs", "fault_sequences"],
 "every sequence of off/on/grating/hologram/assigned patterns and patches with any centre (also off the device), diameter, amplitude, phases and method, with failures in between",
 "No test uses circular patches.",
 [SLM], [("disc mask and masked assignment", SLM + " circular_patch")], [("pattern", "", SLM)], ["pattern after each operation"])
prop("C10", "Random DMD holograms keep their statistics for every draw",
 "For every outcome of the random source, the random DMD method yields a boolean pattern in which pixels of zero amplitude are off, and each pixel is on with the probability fixed by its amplitude, grating phase and steepness, independently of the other pixels and of earlier calls. Repeated calls draw afresh.",
 ["schedules", "inputs", "histories"],
 "every outcome of the random source (including its extreme values), every amplitude, phase, steepness, grating and order, any number of earlier calls",
 "No test runs the random method; a single draw could not show a distribution.",
 [LIB, SLM], [("per-pixel uniform threshold", LIB + " _calculate_dmd_grating_random")], [("random source", "TensorFlow generator", "tensorflow")], ["pattern"])
prop("C11", "LCOS holograms are valid for every random start",
 "For every outcome of the random starting phase and every input beam (also aberrated ones), the Gerchberg-Saxton and MRAF methods return finite real phases of the modulator's size that do not depend on earlier calls. More Gerchberg-Saxton iterations from the same start never increase the image amplitude error, and simulating the hologram with the same beam puts the light at the target's position in the target's orientation.",
 ["schedules", "inputs", "histories"],
 "every outcome of the random source, every input beam, target, iteration count, signal window and mixing factor, any number of earlier calls",
 "No test computes an LCOS hologram.",
 [LIB, SLM], [("alternating projections from a random phase", LIB + " _calculate_lcos_slm_hologram_gs/_mraf"), ("phase modulation in the simulation", SLM + " LCOS_SLM")], [("phase pattern", "", SLM)], ["phase pattern", "simulated image plane"])
prop("C12", "Simulated light obeys Fourier optics at every point of a session",
 "After every successful propagation the reported output field is the beam times the modulator's current pattern and the image field is its centred, scaled Fourier transform on the reported grids, so that total power is conserved between modulator and image plane and does not depend on the padding. Blocking the zeroth order removes exactly the light closer to the optical axis than the given (or default) radius, however often it is repeated.",
 ["histories", "inputs", "configurations"],
 "every history of pattern changes, propagations, blocks and clears over several modulators and simulations sharing them, every beam, grid size (odd and even), padding and precision",
 "Tests check one transparent pattern of one size, once per process.",
 [SIM, SLM, LIB], [("propagation", SIM + " propagate_to_image"), ("zeroth-order mask", SIM + " block_zeroth_order"), ("power accessors", SIM)], [("fields", "", SIM)], ["public field, intensity, power and grid accessors"])
prop("C13", "Profiles follow their parameters and never change their operands",
 "A profile, and every combination or transformation built from it, always evaluates to the pointwise combination of its parts with the parameters they have at the time of evaluation, however often it was evaluated, combined or used by a modulator before. Combining, transforming or evaluating profiles never changes the profiles involved.",
 ["histories", "inputs", "fault_sequences"],
 "every history of creating, combining, transforming, evaluating and re-parameterising profiles (with failing evaluations in between), every evaluation grid",
 "Tests evaluate freshly built expressions once and never change a parameter.",
 [PR, WI], [("parameters held in variables read at evaluation", PR), ("lazy composition", PR + " _make_attribute_func, rotate, shift, rescale_x, rescale_y, as_complex_profile")], [("profile parameters", "", PR)], ["profile values", "parameter accessors"])
prop("C14", "Results depend on current settings, not on history",
 "A hologram, grating, sampled profile, grid, propagation or phase analysis computed in a long-lived session equals the one a fresh session computes from the same current inputs. In particular changing a profile's parameters, the contents of an array or a modulator's settings, using other modulators or sizes in between, discarding objects, or earlier failures never makes a later result stale or different.",
 ["histories", "inputs", "fault_sequences"],
 "every history of operations over any number of live and discarded modulators, profiles, arrays and simulations, compared at any point with a fresh session",
 "Each test builds its objects anew and uses them once.",
 [SLM, LIB, SIM, PR, AN], [("caches hold only immutable settings", SLM + " lru_cache grids"), ("traced functions take changing values as arguments or variables", LIB)], [("cached grids and traced functions", "state that survives between calls", SLM + ", " + LIB)], ["return values and patterns"])
prop("C15", "One precision per session, fixed at first use",
 "The precision can be chosen until the package has first been used to compute something; from then on changing it is refused with an error and nothing changes. An invalid choice is refused and leaves the setting usable. Every computed array has the chosen precision, and in double precision is accurate to double precision.",
 ["histories", "configurations", "inputs", "fault_sequences"],
 "every order of configuration attempts (valid, invalid, repeated, by dtype object, numpy dtype or name), computations and failures in a session",
 "The only test is skipped because it must run in its own process.",
 [BE, LIB, SLM, SIM, PR], [("first-use latch", BE)], [("precision and latch", "", BE)], ["dtype and accuracy of every result", "exceptions"])
prop("C16", "Switching the FFT implementation never changes a result",
 "Switching between the two FFT implementations at any time, between calls or while an iterative calculation is running in another task, changes holograms and simulated fields by no more than rounding. The implementation in force is always the one last selected.",
 ["schedules", "histories", "inputs"],
 "every point of every calculation at which a switch can land, any number of switches, every size and method",
 "All tests run with the default implementation; none switches.",
 [BE, LIB], [("run-time branch on the selected implementation", LIB + " _fourier_transform, _inverse_fourier_transform"), ("selection held in a variable", BE)], [("selected implementation", "", BE)], ["patterns and fields"])
prop("C17", "Independent objects used from different threads do not interfere",
 "Threads that each use their own modulators, simulations and profiles (profiles may be shared as long as nobody changes them) get, for every interleaving, exactly the results they would get running alone. A failure in one thread does not affect the others.",
 ["schedules", "fault_sequences", "histories"],
 "every interleaving of the threads' steps through the library, every failure of one of them",
 "Tests are single-threaded.",
 [SLM, LIB, SIM, PR, BE], [("no shared mutable state apart from the backend configuration", LIB + ", " + SLM)], [("module level state", "shared by all threads", LIB + ", " + BE)], ["results of each thread"])
prop("C18", "A seeded session is exactly repeatable",
 "Two sessions that set the same TensorFlow seed before first use and perform the same operations give bit-identical results, also in different processes and whatever other random sources, clocks or hash seeds do. Different seeds give different random holograms.",
 ["schedules", "histories", "configurations"],
 "every seed and operation sequence, every state of the other random sources, clock and hash seed",
 "No test computes anything random twice.",
 [LIB, SLM], [("TensorFlow's generator is the only source of randomness", LIB)], [("random source", "", "tensorflow")], ["patterns and fields"])
prop("C19", "Inputs are never modified and results handed out never change",
 "No call modifies the arrays or lists passed to it. An array returned or read earlier (pattern, field, grid, profile values, packed bytes) is never changed by later calls, and changing a returned array or, after the call, an argument array does not change later answers of the library (only assigning to or editing a modulator's current pattern does).",
 ["histories", "inputs", "fault_sequences"],
 "every sequence of calls and of edits by the caller to arrays it passed or received, including calls that fail",
 "Tests never look at an argument or an earlier result again.",
 [SLM, SIM, PR, AN, CT], [("accessors return copies", SLM + ", " + SIM), ("patterns are replaced, not edited", SLM)], [("arrays shared between caller and library", "", SLM + ", " + SIM)], ["arguments and earlier results"])
prop("C20", "The light from what the mirrors show is the requested beam",
 "After a DMD hologram has been computed, packed or loaded through a controller and the load returned, the beam diffracted by the pattern the mirrors actually show reproduces the requested target field around the first order (negative first order if selected), for every random draw and after any earlier faults and retries, to within the error expected of the method. The packed form is exactly the pattern, eight pixels per byte, row by row, most significant bit first.",
 ["histories", "fault_sequences", "schedules", "inputs"],
 "every target, beam (also clipped or aberrated), grating, method, order, random draw and controller, with faults, retries and re-loads in between",
 "One test covers two methods with one beam and never involves a device.",
 [SLM, LIB, SIM, CT], [("amplitude and phase encoding", SLM + " calculate_dmd_state, " + LIB), ("upload", CT), ("bit packing", SLM + " pack_dmd_state")], [("pattern", "", SLM)], ["mirror state of the simulated device", "simulated image plane", "packed bytes"])
prop("C21", "Long sessions hold only what is alive",
 "However many calls a session makes, with whatever numbers, succeeding, failing or interrupted, and however many modulators, simulations, profiles and controllers it creates and drops, what the package keeps in memory (images, fields, traced graphs, variables, dropped objects) does not grow with the number of calls: it is bounded by the objects that are still in use and by the few different array sizes and methods that occurred. Objects that were dropped are released, and dropping them never makes a call on another object fail.",
 ["histories", "fault_sequences", "inputs"],
 "every cycle of operations repeated with new numbers, with failures in any of the calls and short-lived objects in between",
 "Tests make a few calls on a few objects and never look at memory.",
 [SLM, LIB, SIM, PR, AN, CT], [("grids kept by modulators and simulations", SLM + " _fourier_plane_grid, _image_plane_grid; " + SIM + " _image_plane_padded_grid"), ("traced functions", LIB + ", " + SLM + " _circular_mask, " + PR)], [("grids, patterns, fields", "", SLM), ("traced graphs", "", LIB)], ["live graphs, objects, variables and arrays after collecting garbage", "errors"])
# pure functions of their input: listed, not claimed
def pure(id, title, statement, files, why):
    prop(id, title, statement, ["inputs"], "every input", why, files, [("direct computation", files[0])], observe=["return value"])
pure("N01", "Beam and Zernike profiles equal their defining formulas", "Each profile evaluates to its documented formula (Hermite-Gauss, Laguerre-Gauss, super-Gauss, Zernike, windows) at every point, for every order and parameter.", [PR, WI], "Tests sample a few orders.")
pure("N02", "Zernike decomposition inverts composition", "Decomposing a weighted sum of Zernike profiles returns the weights, and removing the trivial phase leaves exactly the remaining terms, for every radius, order and weight.", [AN], "Tests sample one radius.")
pure("N03", "Single-index Zernike numbering is the ANSI bijection", "The conversion from single to double index is the ANSI numbering for every index.", [AN], "Tests only use the first 15 indices.")
pure("N04", "Reported grids and derived lengths follow the documented geometry", "Fourier-plane and image-plane grids, pixel areas, scaling factor and first-order origin follow from the modulator's dimensions for every geometry.", [SLM, SIM], "Tests sample two geometries.")
pure("N05", "Test images show the number at the requested size", "A test image has the requested size and boolean type and shows the number, for every number and size.", ["pySLM2/util/sample.py"], "Not tested.")
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
