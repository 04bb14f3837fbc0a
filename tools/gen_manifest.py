"""Writes /verif/MANIFEST.json."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
PURE = "a pure function of its input: it has no schedule, clock, randomness, I/O or fault to simulate; simulation would only be input generation under another name"
COMMON = ("Seeded search over simulated executions of the real pylattica code: a clean batch is evidence, not proof. Trusted: the simulated "
          "parent side of process pools, thread scheduler, file fault layer, clock and random outcome source in /verif/sim, and the "
          "property's reference model.")
NOTE = {
 "C01": "Rules are drawn from a generated family; workers are real forked processes with private memory and real pickling.",
 "C04": "Two hangs that come from the standard library's pool are listed in known_findings.json. After an interrupt at a line between starting workers and entering the pool's block, left-over workers are not counted.",
 "C05": "Threads are switched at lines or bytecodes inside pylattica and at pool, file and clock operations.",
 "C09": "Crash model: process death at any file operation, partial writes persisted, unsynced data lost.",
 "C12": "Frames are decoded from the written GIF; identical neighbouring frames are avoided because the GIF writer merges them.",
 "C19": "Answers are compared with those of the same call made alone in a forked process of its own.",
 "C20": "Pictures are compared pixel by pixel with the one drawn alone in a forked process of its own; what a picture should look like is C46.",
 "C21": "Module bodies are the real ones; simulated threads take a package's import lock before that of its modules.",
 "C17": "Processes with other string hash seeds are compared with each other by digests of everything recorded.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if int(i[1:]) < 40:
        checks.append({"property": i, "quick_cmd": f"./check {i} --tier quick", "thorough_cmd": f"./check {i} --tier thorough",
                       "technique": "deterministic simulation with fault injection: seeded search over schedules, faults and random outcomes against a reference model",
                       "level": "exploration", "level_note": (NOTE.get(i, "") + " " + COMMON).strip()})
    else:
        na.append({"property": i, "reason": PURE})
m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is installed by /verif/sim before pylattica is imported (for C21: before each run imports it). pylattica is pure Python, the checks import /repo/src as it is."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
