"""Writes /verif/properties.jsonl. Kept so that the texts can be edited in one readable place."""
import json, pathlib

P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe=None, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "observe_at": observe or [], "hook_needed": hook}})

S = "src/pylattica/"
SYNC = S + "core/runner/synchronous_runner.py"
ASYNC = S + "core/runner/asynchronous_runner.py"
BASE = S + "core/runner/base_runner.py"
COMMON = S + "core/runner/common.py"
STATE = S + "core/simulation_state.py"
RES = S + "core/simulation_result.py"
SIM = S + "core/simulation.py"
STRUCT = S + "core/periodic_structure.py"
CTRL = S + "core/basic_controller.py"
NB = S + "core/neighborhoods.py"
NBB = S + "core/neighborhood_builders.py"
SGN = S + "structures/square_grid/neighborhoods.py"
GRID = S + "structures/square_grid/grid_setup.py"
GROW = S + "structures/square_grid/growth_setup.py"
ART = S + "visualization/result_artist.py"

prop("C01", "Synchronous stepping equals the sequential reference on every schedule",
 "For any update rule that is a deterministic function of the previous state and changes only its own site (and, consistently over sites, the general state), a synchronous run of n steps records exactly the n states obtained by applying the rule once to every site against the complete previous state. This holds in series and in parallel, for any number of workers or CPUs, any assignment of work to workers, any completion order, and workers being replaced between pieces of work. A step in which no site reports a change leaves the state as it was.",
 ["schedules", "fault_sequences", "inputs", "configurations"],
 "every rule of the stated class, every starting state, worker count, assignment of batches to workers, completion order and replacement of idle workers",
 "The tests run one parallel rule that rewrites every site at every step on 16 sites and never look at which worker took which batch; a worker with an out-of-date private copy of the state cannot be seen that way, and the operating system's scheduler picks the interleaving.",
 [SYNC, COMMON, BASE, STATE],
 [("fork pool + starmap over site batches", SYNC + ":_run/_take_step_parallel"), ("batch merge", COMMON + ":merge_updates"), ("serial step", SYNC + ":_step_batch")],
 ["SimulationResult.get_step(k) for every k after SynchronousRunner.run", "the states the rule observes"],
 [{"name": "worker-private state", "meaning": "each forked worker's view of the current simulation state", "where": SYNC}])

prop("C02", "A finished run's result, output and length agree; set-up runs exactly once",
 "The result of a finished run starts with the state the run was given, holds one recorded step per executed step, and its output state equals its last recorded step, for synchronous runs (in series or parallel) and asynchronous runs of any number of steps, including zero. The controller's set-up hook is called exactly once per run, with that starting state, before the first update, and what it prepares is visible to every update, also in parallel workers.",
 ["schedules", "inputs", "configurations"],
 "every runner kind, number of steps, worker count and schedule, rule and starting state",
 "No test looks at the output state at all, nor at the set-up hook; tests check the last step of a handful of fixed runs.",
 [BASE, SYNC, ASYNC, RES],
 [("set_output(live_state)", BASE + ":run"), ("add_step per step", SYNC + ", " + ASYNC), ("pre_run", BASE + ":run")],
 ["result.output, result.last_step, result.first_step, len(result)", "calls of pre_run"])

prop("C03", "Runs never change their input; recorded history never changes afterwards",
 "A run never changes the state object it was given, whether it finishes, fails or is interrupted. Once a run has returned, its recorded history is fixed: updating (through a state's own update operations, or by changing the entries of a site directly) the starting state, the output state or any state handed out by the result, or running again from the same state, leaves every recorded step of the result as it was.",
 ["histories", "crash_points", "schedules"],
 "every history of runs, failures, interrupts, reads and updates of the states involved",
 "Tests use each state once and never update a state after handing it to a run or getting it from a result; failures and interrupts are not tested.",
 [BASE, SYNC, ASYNC, RES, STATE],
 [("copies of the initial state", BASE + ":run"), ("deep copy on construction", STATE + ":__init__/copy"), ("replay from diffs", RES + ":get_step")],
 ["the caller's state object", "get_step for every step before and after"])

prop("C04", "Failing or interrupted runs surface the error and leave nothing behind",
 "If the update rule raises at any site and step, worker processes cannot be started, a worker process dies in the middle of its work, or the run is interrupted at any point, the run ends by raising an error to the caller (the rule's own error, the start-up error or the interrupt) instead of returning a result or blocking forever, and leaves no worker process running. Afterwards the same runner and controller, and new ones, run correctly from the same state.",
 ["crash_points", "fault_sequences", "schedules"],
 "every site, step and worker at which the rule may raise, every point at which an interrupt may arrive, every failure to start workers",
 "The tests contain no failing rule, no interrupt and no worker failure.",
 [SYNC, ASYNC, BASE],
 [("pool context manager", SYNC + ":_run"), ("exception propagation through starmap", SYNC + ":_take_step_parallel")],
 ["exception raised by run", "worker processes alive after run", "result of the next run"])

prop("C05", "Simulations run concurrently in one process do not affect each other",
 "When several simulations are run at the same time from different threads of one process, using the same or different runner objects, synchronous (series or parallel) or asynchronous, each run produces exactly the result it would produce alone, for every interleaving of the threads.",
 ["schedules"],
 "every interleaving of the runs' steps, including around the creation of worker processes",
 "All tests run one simulation at a time.",
 [SYNC, BASE, ASYNC],
 [("module-level worker globals", SYNC + ":mp_globals"), ("per-run live state", BASE + ":run")],
 ["get_step(k), output of every concurrent run"],
 [{"name": "mp_globals", "meaning": "data shared with forked workers through module globals", "where": SYNC}])

prop("C06", "Asynchronous runs visit sites first-in first-out and see all earlier updates",
 "An asynchronous run updates one site per step: sites are visited in the order supplied, follow-up sites named by an update are appended in order, and the controller is asked for further sites only when none are waiting. Every update sees the effects of all earlier updates of the run, and each recorded step applies exactly that update's changes. The run stops before the requested number of steps only when the controller supplies no further site, and raises an error if it supplies none at the start.",
 ["histories", "schedules", "inputs"],
 "every sequence of sites supplied by the controller and by updates, every random outcome, every rule and number of steps",
 "The tests use four fixed site sequences and rules that write a constant, so neither order nor visibility of earlier updates can be seen.",
 [ASYNC, COMMON, CTRL],
 [("site queue", ASYNC + ":_run"), ("merge_updates per step", COMMON)],
 ["sequence of (site, observed state) passed to the rule", "get_step(k)"],
 [{"name": "site_queue", "meaning": "sites waiting to be visited", "where": ASYNC}])

prop("C07", "Default asynchronous site choice covers exactly the sites of the state, evenly",
 "Unless the controller overrides it, the site chosen for an asynchronous step is always one of the sites of the state, whatever integer identifiers those have; every site of the state is chosen for some outcome of the random source, and a fair random source chooses all sites with equal probability, whatever was chosen before.",
 ["schedules", "inputs"],
 "every outcome of the random source and every set of site identifiers",
 "One test calls the chooser once and checks that the type is int.",
 [CTRL, ASYNC],
 [("random site choice", CTRL + ":get_random_site")],
 ["site ids passed to the rule", "return value of the default chooser"])

prop("C08", "All ways of reading a result's history agree, in any order and when interrupted",
 "For any result and any k, the state of step k is the starting state with the first k recorded changes applied, no matter how it is read: by number in any order, as first or last step, by iterating over all steps, before or after preloading steps at any interval, interleaved with further recorded steps, while other threads read the same result, or after a read or preload was interrupted at any point. Iterating yields every step from the first to the last, each as a state of its own. Changes may be recorded in any documented form (per site only, sites only, or sites and general state).",
 ["histories", "schedules", "crash_points"],
 "every history of recording, reading, preloading and interrupting, and every interleaving of reading threads",
 "One test compares iteration with reads by number and one counts the preloaded states; combinations, the last step of an iteration, general state and interruptions are never exercised.",
 [RES, STATE],
 [("diff replay", RES + ":get_step/steps"), ("preloaded states", RES + ":load_steps"), ("batch_update forms", STATE + ":batch_update")],
 ["get_step, steps, first_step, last_step, len"],
 [{"name": "_stored_states", "meaning": "cache of preloaded steps", "where": RES}])

prop("C09", "Saved results load back identical; torn or failed saves are never mistaken",
 "Saving any result, in particular one produced by a run, and loading it gives a result with the same steps, site states and general state, also when the store reorders the entries of mappings. A save that returns normally has written the complete result; if storage fails or the process dies at any point during the save, the save does not return normally, the result in memory stays usable, and loading what is left either fails or gives exactly the new or the previously saved result. A failing read makes loading fail, never return different data.",
 ["crash_points", "fault_sequences", "inputs", "histories"],
 "every result with JSON-representable states, every failing, short, interrupted or cut-off write, every crash point",
 "The tests save three hand-made steps without general state to a healthy disk; no result of a run is ever loaded back, no fault is injected.",
 [RES, STATE],
 [("as_dict/from_dict", RES), ("dumpfn/loadfn", RES + ":to_file/from_file")],
 ["SimulationResult.to_file, from_file, as_dict, from_dict"])

prop("C10", "Saved simulations load back identical; torn or failed saves are never mistaken",
 "Saving a simulation and loading it gives a simulation with the same site identifiers, classes and locations, the same lattice and periodicity, the same site found at every location, and the same site and general state, also when the store reorders the entries of mappings. A save that returns normally has written everything; after a storage failure or crash during a save, loading what is left either fails or gives exactly the new or the previously saved simulation. A failing read makes loading fail.",
 ["crash_points", "fault_sequences", "inputs"],
 "every simulation over grid structures of any size, dimension and periodicity with JSON-representable states, every write fault and crash point",
 "One test saves a 2x2 grid on a healthy disk and compares the loaded structure with itself.",
 [SIM, STRUCT, STATE, S + "core/lattice.py"],
 [("as_dict/from_dict", SIM + ", " + STRUCT), ("site registration", STRUCT + ":add_site")],
 ["Simulation.to_file, from_file, state_at; PeriodicStructure.sites, site_at"])

prop("C11", "Automatically named saves never overwrite an existing file",
 "Saving a result without a file name creates a new file, returns its name, and that file holds exactly that result. No existing file is ever overwritten or removed by it, whatever the clock does: several saves within the same minute, a clock that stands still, jumps or is set back, and saves made at the same time from several threads.",
 ["schedules", "fault_sequences", "histories"],
 "every sequence of automatically named saves, every behaviour of the clock, every interleaving of saving threads",
 "One test makes a single automatically named save.",
 [RES],
 [("file name from the clock", RES + ":to_file")],
 ["returned file names and the files' contents"])

prop("C12", "Animations show each sampled step once, in order, and disturb no other file",
 "An animation saved for a result contains exactly one frame per sampled step, in step order, each showing that step's state, for any number of rendering workers, assignment of frames to workers and completion order. Apart from the requested file it creates, changes and removes no file, whether it succeeds or fails (the artist raising, storage failing, an interrupt), and animations saved at the same time by several threads in one directory each show their own result. Played in a notebook, an animation displays the frames of all steps one at a time, in order and each for the time asked for; showing a step displays that step; neither changes any file.",
 ["schedules", "fault_sequences", "crash_points"],
 "every worker schedule, every interleaving of concurrent saves, every point of failure",
 "One test writes one GIF and does not open it; no concurrency, failure or neighbouring file is involved.",
 [ART, S + "visualization/structure_artist.py", S + "visualization/square_grid_artist_2D.py"],
 [("fork pool rendering", ART + ":_get_images"), ("temporary frame files", ART + ":to_gif")],
 ["frames of the written GIF", "images displayed in the notebook", "directory contents before and after"],
 [{"name": "_dsr_globals", "meaning": "artist shared with forked rendering workers", "where": ART}])

prop("C13", "Random layouts meet their request for every outcome of the random source",
 "Random site placement either makes exactly the requested number of sites non-background, gives no phase more than its proportional share rounded up, keeps any two placed sites further apart than the buffer along some axis (with periodic wrap-around), or raises an error after a bounded number of attempts; it never loops forever. Random noise gives every site one of the listed phases and each listed phase can occur at each site, in every combination over the sites; random particles change only sites closer than the radius to one of at most the requested number of centers, always to one of the particle phases.",
 ["schedules", "inputs"],
 "every outcome of the random source, including heavily skewed ones, every size, buffer, count and ratio",
 "The tests use one or two fixed requests under one random seed and check the number of placed sites.",
 [GRID],
 [("rejection sampling with buffer neighborhoods", GRID + ":setup_random_sites"), ("noise and particles", GRID + ":setup_noise/setup_random_particles")],
 ["the returned simulation's states", "number of random draws made"])

prop("C14", "Stochastic neighborhoods always return exactly one complete alternative",
 "Every query of a stochastic neighborhood returns exactly the neighbors, with distances if requested, that one of its alternative neighborhoods defines for that site, for every outcome of the random source, in the main process and in parallel workers; every alternative is returned for some outcome. The pseudohexagonal (2D: four axis neighbors plus one diagonal pair; 3D: six axis neighbors plus one pair of opposite corners) and pseudopentagonal (one full side of three plus the two perpendicular axis neighbors) neighborhoods offer all 2, 4 and 4 such alternatives.",
 ["schedules", "inputs"],
 "every outcome of the random source, every site, every list of alternative builders, in and out of worker processes",
 "The tests count the neighbors of one site once.",
 [NB, NBB, SGN],
 [("random alternative per query", NB + ":StochasticNeighborhood"), ("builder per alternative", NBB + ":StochasticNeighborhoodBuilder"), ("motif tables", SGN)],
 ["neighbors_of(site, include_weights)"])

prop("C15", "Growth only fills background from the majority neighbor, on every schedule",
 "In a growth simulation an occupied site never changes, a background site without occupied neighbors stays background, and a background site with occupied neighbors takes a phase that is most frequent among them, at every step, for any neighborhood, runner mode, worker schedule and random outcome. Growth set-up keeps the phase of every seed site, returns a state of the requested size over its structure, and with Moore or von Neumann neighborhoods and at least one seed leaves no background site.",
 ["schedules", "inputs", "configurations"],
 "every starting layout, neighborhood, worker count and schedule, and random outcome",
 "The tests grow one seed for three steps and one small layout to completion.",
 [S + "models/growth/growth_controller.py", GROW, SYNC],
 [("majority rule", S + "models/growth/growth_controller.py:get_state_update"), ("grow", GROW + ":grow")],
 ["get_step(k) of growth runs", "the simulation returned by the growth set-up"])

prop("C16", "Game of Life runs follow the rule string exactly, on every schedule",
 "Each step of a life-like run makes exactly those sites alive whose number of alive neighbors among the eight periodic neighbors is in the birth list (if dead) or the survival list (if alive) of the given rule string, for every pattern, every rule string, every two-dimensional grid of at least 3 by 3 (square or rectangular), in series and in parallel with any workers and schedule.",
 ["schedules", "inputs", "configurations"],
 "every rule string, pattern, grid extent, worker count and schedule",
 "One test checks one cell of one pattern; the variants are only run, not checked, and never in parallel.",
 [S + "models/game_of_life/controller.py", SGN, SYNC],
 [("rule string parsing", S + "models/game_of_life/controller.py:process_variant_string"), ("Moore neighborhood", SGN)],
 ["get_step(k) of life-like runs"])

prop("C17", "Seeded simulations repeat exactly",
 "With the standard random sources seeded alike, building the same neighborhoods and layouts and running the same simulation again gives an identical history, in a new process or the same one, whatever the worker schedule, number of CPUs, clock or internal hash order; in parallel runs this holds for rules that use no randomness of their own. In particular a neighborhood lists a site's neighbors in the same order every time, and growth histories in series and in parallel are the same.",
 ["schedules", "configurations"],
 "every seed, every hash order of the underlying graph library, every worker schedule",
 "No test runs anything twice.",
 [NB, S + "models/growth/growth_controller.py", CTRL, GRID, GROW],
 [("graph neighbor lists", NB + ":Neighborhood.neighbors_of"), ("tie breaking", S + "models/growth/growth_controller.py")],
 ["get_step(k) of two runs", "neighbors_of"])

prop("C18", "Phase analysis always reflects the whole recorded history of the result",
 "For any result, the set of phases reported is exactly the set of phases present in at least one recorded step from first to last, final phase fractions give every such phase its exact share of sites in the last step and sum to one, fractions at a step or in a plotted trace are the exact shares in the steps they stand for, a plotted trace reaches from the first step to less than one sampling interval before the end, and plotted phase counts are the exact numbers of phases of the steps. This holds whatever was analysed, preloaded, read or recorded before, and after an analysis was interrupted.",
 ["histories", "crash_points"],
 "every history of recording, reading, preloading, analysing and interrupting",
 "The tests check types and one fraction of step 0.",
 [S + "discrete/discrete_state_result_analyzer.py", S + "discrete/discrete_step_analyzer.py", RES],
 [("phase collection", S + "discrete/discrete_state_result_analyzer.py:all_phases"), ("steps to plot", S + "discrete/discrete_state_result_analyzer.py:_get_steps_to_plot")],
 ["all_phases, final_phase_fractions, phase_fraction_at, plot_phase_fractions"],
 [{"name": "all_phases cache", "meaning": "memoised phase set", "where": S + "discrete/discrete_state_result_analyzer.py"}])

prop("C19", "Shared objects answer alike, however and whenever they are asked",
 "Structures, neighborhoods with fixed neighbors, their builders, lattices, states, simulations and state filters can be shared freely: looking up sites by identifier, class or location, converting coordinates, measuring distances, listing neighbors, building further structures and neighborhoods with the same builder, reading a state, and filtering or counting its sites each give the same answer as when that call is the only one made on equal objects - when called repeatedly and in any order, by several threads at once, in worker processes, after other objects of the same size were created, used or discarded, after an earlier call was interrupted, and after the caller changed a list it was given. Once a site is added to a structure or a state is updated, every later answer takes it into account.",
 ["schedules", "histories", "crash_points", "inputs"],
 "every order, repetition and interleaving of calls, updates and interrupts on shared objects",
 "The tests make each call once, on fresh objects, from one thread.",
 [STRUCT, S + "core/lattice.py", NB, NBB, STATE, S + "core/analyzer.py", S + "discrete/discrete_step_analyzer.py", SIM],
 [("location lookup", STRUCT + ":site_at"), ("lazy inverse", S + "core/lattice.py:inv_matrix"), ("graph construction", NBB + ":get"), ("filters", S + "core/analyzer.py:get_sites")],
 ["return values of the calls"],
 [{"name": "_location_lookup, _inv_matrix", "meaning": "derived data kept by the shared objects", "where": STRUCT + ", " + S + "core/lattice.py"}])

prop("C20", "A picture depends only on what is drawn, and saved pictures are whole",
 "The picture, the legend and the colours of a state of a square grid depend only on the structure, the content of the state, the artist and the drawing options: they are the same when drawn repeatedly and in any order, by several threads at once sharing artists (saving under names of their own included), in worker processes, in another process with another hash seed, after an earlier drawing failed or was interrupted, and after the caller changed a picture it was given; once a state is updated its next picture shows the update. Artists made from the same phases, state or result give each phase the same colour in every process. Drawing changes neither states, structures, results nor artists. Showing a state in a notebook displays that picture. Saving a picture returns the file name, and a save that returns normally has written exactly that picture and no other file; after a storage failure or crash during a save, loading what is left either fails or gives exactly the new or the previous picture.",
 ["schedules", "histories", "crash_points", "inputs"],
 "every order, repetition and interleaving of drawings, every failure point, every hash seed",
 "The tests draw one picture of each kind and do not look at it.",
 [S + "visualization/structure_artist.py", S + "visualization/square_grid_artist_2D.py", S + "visualization/square_grid_artist_3D.py", S + "visualization/cell_artist.py", S + "discrete/discrete_step_analyzer.py"],
 [("drawing", S + "visualization/square_grid_artist_2D.py:_draw_image"), ("drawing in 3D", S + "visualization/square_grid_artist_3D.py:_draw_image"), ("colours of phases", S + "visualization/cell_artist.py:from_discrete_state/from_discrete_result/build_color_map_from_phase_list"), ("saving", S + "visualization/structure_artist.py:save_img")],
 ["get_img, get_legend, color_map, the file written by save_img"])

prop("C21", "The package can be imported in any way, and importing it does nothing else",
 "Every module of the package can be the first one imported in a fresh process, and modules and names can be imported in any order and form, by several threads at once, and again after an import that was interrupted or could not read a source file. However the modules came to be imported, once all are, they have the same public names with the same values, there is one object of each class and function, and computations give the same results. Importing prints nothing and changes nothing outside the package: not the random generators, the environment, the working directory and its files, signal handlers, the multiprocessing start method, threads or processes. (Python's own deadlock between importing a package and one of its modules in two threads is not counted.)",
 ["schedules", "crash_points", "histories"],
 "every order and form of imports, every interleaving of importing threads, every interruption and unreadable file",
 "The tests import the modules once, in one order, in one thread and process.",
 [S + "__init__.py", S + "core/__init__.py", S + "discrete/__init__.py", S + "visualization/__init__.py", S + "structures/square_grid/__init__.py", S + "models/growth/growth_controller.py", S + "models/game_of_life/controller.py"],
 [("package bodies", S + "core/__init__.py, " + S + "structures/square_grid/__init__.py"), ("imports between packages", S + "models/growth/growth_controller.py, " + S + "structures/square_grid/growth_setup.py")],
 ["module namespaces after the imports", "results of computations made afterwards", "state of the process"])

# ---- pure functions of their input: stated, not claimed (see MANIFEST not_applicable)
prop("C40", "Tiling a motif over a lattice yields every site once, at its place",
 "Building a structure from a lattice, a size and a motif yields exactly one site per motif entry and unit cell, at the lattice point plus the motif offset, with its class, for cartesian and fractional motifs and any cell shape.",
 ["inputs"], "every lattice, size and motif", "The tests build a few orthogonal grids.",
 [STRUCT, S + "core/structure_builder.py", S + "core/coordinate_utils.py"], [("tiling", STRUCT + ":build_from")])
prop("C41", "Looking up a location finds the site there, modulo the periodic directions only",
 "Looking up a location returns the site at that location after wrapping along the periodic directions and nothing otherwise, for every structure.",
 ["inputs"], "every structure and location", "The tests look up a few locations on orthogonal grids.",
 [STRUCT, S + "core/lattice.py"], [("rounded location index", STRUCT + ":site_at")])
prop("C42", "Distance, annular and motif neighborhoods contain exactly the sites they define",
 "A distance neighborhood lists exactly the other sites nearer than the cutoff under the periodic metric, an annular one those between its radii, a motif one the sites at the given offsets, each with the right distance.",
 ["inputs"], "every structure, cutoff and motif", "The tests count the neighbors of single sites.",
 [NBB, S + "core/distance_map.py", S + "core/lattice.py", SGN], [("get_neighbors", NBB)])
prop("C43", "Cartesian and fractional coordinates convert exactly and distances are a metric",
 "Converting between cartesian and fractional coordinates is inverse within rounding, and the periodic distance is symmetric, zero only for equivalent points and never longer than the direct distance.",
 ["inputs"], "every lattice and pair of points", "The tests use a few points of two lattices.",
 [S + "core/lattice.py"], [("pbc_diff_cart", S + "core/lattice.py")])
prop("C44", "pymatgen structures convert to pylattica and back without loss",
 "Converting a pymatgen structure to a structure and state and back preserves the lattice, species and positions.",
 ["inputs"], "every pymatgen structure", "The tests convert one or two crystals.",
 [S + "atomic/pymatgen_struct_converter.py"], [("converter", S + "atomic/pymatgen_struct_converter.py")])
prop("C45", "State filters and counts return exactly the matching sites",
 "Filtering or counting the sites of a state by class and criteria returns exactly the sites that meet all of them.",
 ["inputs"], "every state, class and criteria", "The tests filter a few small states.",
 [S + "core/analyzer.py", S + "discrete/discrete_step_analyzer.py"], [("get_sites", S + "core/analyzer.py")])
prop("C46", "Step pictures colour exactly the cells of the state and their legend",
 "The picture of a two- or three-dimensional square grid state colours each cell by the colour of its value and labels every value in the legend.",
 ["inputs"], "every state, colour map and cell size", "The tests only draw a picture.",
 [S + "visualization/square_grid_artist_2D.py", S + "visualization/square_grid_artist_3D.py", S + "visualization/cell_artist.py"], [("_draw_image", S + "visualization/square_grid_artist_2D.py")])
prop("C47", "Deterministic layouts fill exactly the requested sites",
 "Interface, particle, solid and coordinate layouts assign each site the phase its location calls for.",
 ["inputs"], "every size, radius and coordinates", "The tests check single cells.",
 [GRID], [("setup_interface/setup_particle/setup_coords", GRID)])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
print(len(P))
