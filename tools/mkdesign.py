"""Write DESIGN.md from its parts (tools/design_*.md), seeded/*/meta.json and known_findings.txt."""
import json, os, glob

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)


def part(name):
    with open(os.path.join(here, name)) as f:
        return f.read().rstrip() + "\n"


def cell(s):
    return " ".join(str(s).split()).replace("|", "/")


missed = {}
p = os.path.join(here, "missed.json")
if os.path.exists(p):
    missed = json.load(open(p))
out = [part("design_head.md"), part("design_props.md")]
rows = []
for f in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    rows.append(f"| {i} | {cell(m['needs'])} | {missed.get(i, 'the quick check of ' + m['property'])} |")
out.append(
    "\n## Planted bugs\n\nEach passes the 59 stable tests and has a demonstration; all were written from the statement"
    " and the code. The check named is the one that was run against it.\n\n"
    "| planted bug | needs, to manifest | caught by |\n|---|---|---|\n" + "\n".join(rows) + "\n"
)
fixed = [l.strip() for l in open(os.path.join(root, "known_findings.txt")) if l.startswith("fixed:")]
out.append(
    f"\n## Genuine defects found and repaired\n\n{len(fixed)} defects were found by the checks (or while"
    " writing them) and repaired by `fix:` commits in /repo; the same list, machine readable, is"
    " `known_findings.txt`.\n\n" + "\n".join("* " + cell(l[len("fixed:"):]) for l in fixed) + "\n"
)
if os.path.exists(os.path.join(here, "design_tail.md")):
    out.append("\n" + part("design_tail.md"))
with open(os.path.join(root, "DESIGN.md"), "w") as f:
    f.write("".join(out))
