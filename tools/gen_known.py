"""Writes /verif/known_findings.json."""
import json, pathlib
F = [
 ("605623b", ["C01", "C02"], "stale_worker_state", "parallel workers computed steps from an out-of-date private copy of the state and the output was not the last step"),
 ("85b6b7c", ["C01", "C02", "C06"], "none_update", "a step in which no site reports a change crashed the run (update None)"),
 ("a1e70a9", ["C01"], "empty_state", "a parallel run of a state without sites crashed"),
 ("a5a0d16", ["C05"], "mixed_controllers", "parallel runs started in two threads computed with each other's controller (module global)"),
 ("972e85c", ["C07"], "default_site", "the default asynchronous site choice returned positions instead of site identifiers"),
 ("188524a", ["C03", "C08"], "shared_stored_state", "get_step handed out the stored preloaded state, updating it changed the history"),
 ("de71abc", ["C08"], "steps_iteration", "iterating over a result missed the last step and yielded one object again and again"),
 ("b32f873", ["C08"], "sites_only_update", "a batch update with only a SITES entry was stored as a site called SITES"),
 ("43059c0", ["C09"], "from_dict", "loading a result of a run or one with general state failed or lost changes"),
 ("f6a915b", ["C10"], "structure_ids", "loading a structure whose entries were reordered renumbered its sites"),
 ("9c2c98e", ["C10"], "structure_moved", "sites of a structure over a skewed lattice, or close to the border of their cell, were loaded at other locations or not found"),
 ("75718c9", ["C11"], "overwritten", "a second automatically named save in the same minute overwrote the first"),
 ("aeb8d5e", ["C12"], "other_files", "saving an animation overwrote and removed tmp_*.png files of others"),
 ("5d45be4", ["C12"], "mixed_artists", "animations saved in two threads showed each other's result (module global)"),
 ("2e89eda", ["C13"], "no_progress", "random site placement without a positive amount never ended"),
 ("949d209", ["C13"], "share_float_error", "amounts 7:9:9 and 25 sites gave the first phase 8 sites, one more than its share of exactly 7 (float error)"),
 ("64e1148", ["C15"], "unfilled", "three-dimensional growth set-ups left background sites"),
 ("a27d07e", ["C17"], "neighbor_order", "neighbors were listed in an order that differs from call to call, growth ties were not repeatable"),
 ("1577f0a", ["C17"], "phase_order", "the order of a PhaseSet's phases depended on the string hash seed of the interpreter"),
 ("b4ad2bf", ["C18"], "stale_phases", "all_phases stayed at what it was when first asked"),
 ("0fc31ee", ["C20"], "picture_differs", "3D pictures drawn in several threads were mixed up (the current pyplot figure is shared)"),
 ("38663bd", ["C20"], "not_repeatable_across_processes", "artists made from a state or a result gave phases other colours in every process"),
 ("72c33b8", ["C21"], "import_failed", "importing pylattica.models.growth first failed with a circular import"),
 ("25d66d2", ["C18"], "unexpected_AttributeError", "plot_phase_counts always failed"),
]
out = [
 {"property": "C04", "signature": "hang_after_worker_death", "status": "known",
  "what": "a worker process that is killed in the middle of a batch makes the parallel run wait forever",
  "where": "src/pylattica/core/runner/synchronous_runner.py: the standard library's multiprocessing.Pool never completes a task whose worker died",
  "why_not_fixed": "needs another kind of pool (or a supervising thread); not a small patch"},
 {"property": "C04", "signature": "hang_after_undecodable_error", "status": "known",
  "what": "a rule error that can be pickled but not rebuilt kills the pool's result thread, the parallel run waits forever",
  "where": "src/pylattica/core/runner/synchronous_runner.py: multiprocessing.Pool._handle_results",
  "why_not_fixed": "needs another kind of pool; not a small patch"},
]
for commit, props, sig, what in F:
    for p in props:
        out.append({"property": p, "signature": "fixed_" + sig, "status": "fixed", "commit": commit, "what": what,
                    "line": f"fixed: property={p} {commit} {what}"})
pathlib.Path(__file__).resolve().parent.parent.joinpath("known_findings.json").write_text(json.dumps({"findings": out}, indent=1) + "\n")
