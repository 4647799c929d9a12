"""Regenerate DESIGN.md from the hand-written parts, the checks' META and NOTES."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "tools"))
from design_notes import BUGS, NOTES  # noqa: E402


def main():
    props = {p["id"]: p for p in map(json.loads, open(os.path.join(ROOT, "properties.jsonl")))}
    out = open(os.path.join(ROOT, "tools", "design_head.md")).read() + "\n"
    for pid, p in sorted(props.items()):
        meta = importlib.import_module("checks." + pid.lower()).META
        oracle, cost, why = NOTES[pid]
        out += f"### {pid} {p['title']}\n\n{p['statement']}\n\n"
        out += f"* explored: {meta['rule']}\n* oracle: {oracle}\n* bounds, quick: {meta['bounds']['quick']}\n* bounds, thorough: {meta['bounds']['thorough']}\n"
        if meta.get("assumptions"):
            out += f"* assumptions: {'; '.join(meta['assumptions'])}\n"
        out += f"* cost (quick, 8 cores): {cost}\n* beyond the tests: {why}\n\n"
    out += open(os.path.join(ROOT, "tools", "design_tail.md")).read()
    out += "| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n"
    base = os.path.join(ROOT, "seeded")
    for b in sorted(os.listdir(base)) if os.path.isdir(base) else []:
        m = json.load(open(os.path.join(base, b, "meta.json")))
        out += f"| {b} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {BUGS.get(b, m['property'])} |\n"
    open(os.path.join(ROOT, "DESIGN.md"), "w").write(out)


main()
