#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl")) if l.strip()]
na = {
    "C24": "Parsing is a pure function of its input: there is no schedule, time, I/O or fault for a simulator to control, so deciding it would be plain input fuzzing against a grammar. Torn sources (the part that is a fault) are decided by C18, and every other check displays parsed templates against references computed without the parser.",
    "C25": "Same as C24: a pure function of its input without nondeterminism or faults. Torn stylesheets are decided by C18, and the cascade reference of C06 is computed without the parser, so misread rules show there.",
}
oracle = {
    "C01": "reference evaluation of the template over the current value",
    "C02": "reference evaluation of the template over the current value",
    "C03": "reference evaluation of the template over the current value",
    "C04": "twin view that never saw corrupted values, and the reference evaluation",
    "C05": "view restarted from the same sources",
    "C06": "independent cascade (selectors, variables, inheritance) computed from scratch every update",
    "C07": "reference event machine over reported geometry",
    "C08": "reference event machine over reported geometry",
    "C09": "reference event machine over reported geometry",
    "C10": "reference event machine over reported geometry",
    "C11": "reference event machine and evaluation of arguments over the current value",
    "C12": "views fed with other partitions of the same events",
    "C13": "closed-form reference of transitions over simulated time",
    "C14": "closed-form reference of animations over simulated time",
    "C15": "success of every operation, finite geometry, watchdog",
    "C16": "digests of the same session under other hash seeds",
    "C17": "search of the shown tree and the reference evaluation",
    "C18": "clean result of creation from torn sources, undisturbed running view, equality of reloaded and first views",
    "C19": "solo runs of the same views",
    "C20": "composition of positions, opacity and clipping recomputed from layouts",
    "C21": "reference event machine over reported geometry",
    "C22": "independent cascade with the current viewport and a view which always had it",
    "C23": "simulated font provider asked again for the current text and font",
}
checks = []
for p in props:
    if p["id"] in na:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./check.sh {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p['id']}",
        "technique": "deterministic simulation with fault injection: seeded search over sessions; oracle: " + oracle[p["id"]],
        "level": "exploration",
        "level_note": "Seeded search over generated programs, histories, schedules and faults; no completeness is claimed. Trusted: the reference models of the harness, the determinism of the simulated environment, and taffy as the layout engine.",
    })
manifest = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in na.items()],
    "notes": "No hooks in /repo: the library takes values, time, viewport, input, fonts and transformers as arguments of its public interface, and hash seeds come from getrandom, which the harness defines. Known findings: known-findings.txt. Replay: ./check.sh replay FILE.",
}
json.dump(manifest, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
