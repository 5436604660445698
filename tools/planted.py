#!/usr/bin/env python3
"""Rewrites the section "Planted bugs" of DESIGN.md from seeded/*/meta.json."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
# first missed by the check of their property, which was strengthened then
MISSED = {
    "c06-currentcolor-capital": "keyword spelled with a capital letter is generated",
    "c06-weight-thousand": "boundaries of font weights are generated",
    "c11-key-from-data": "keys of messages are bound to data",
    "c14-fractional-steps-rounded-up": "keyframes at fractional percents",
    "c16-dash-attr-of-any-case": "attributes whose names are prefixes of each other, rules for them",
    "c19-translations-are-shared": "views are compared to clean forked processes",
    "c19-pipe-is-shared": "views are compared to clean forked processes, more views per run",
    "c06-rgb-wraps": "components of colours out of range",
    "c14-negative-delay-ignored": "negative delays",
    "c01-deep-path-cut": "objects inside of objects inside of objects",
    "c02-same-path-other-pipe": "conditions with chains of transformers",
    "c17-id-of-component": "identifiers in templates, components of components",
}

rows = []
for path in sorted((ROOT / "seeded").iterdir()):
    meta = json.loads((path / "meta.json").read_text())
    rows.append(f"| {path.name} | {meta['needs']} | {meta['what_it_breaks']} |")
text = f"""## Planted bugs

{len(rows)} bugs are kept in seeded/, each with a demonstration. The identifier starts with the property it
breaks and every one is caught by the check of that property at its quick budget (`tools/plant.py --run`
repeats this). These were missed at first and led to changes of the generator:

"""
text += "".join(f"- {name}: {change}.\n" for name, change in MISSED.items())
text += "\n| bug | needs | breaks |\n|---|---|---|\n" + "\n".join(rows) + "\n"
design = ROOT / "DESIGN.md"
head = design.read_text().split("## Planted bugs")[0]
design.write_text(head + text)
