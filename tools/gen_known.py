"""known_findings.txt: the 'fixed:' lines from /repo's history plus the open findings of tools/findings.txt"""
import subprocess, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rules = [("C04", ["overrun", "out of bounds", "does not write past", "terminates", "is not read", "ending the process", "skip deleted edges", "reports a face", "have been removed already", "has not created", "fewer than three", "an edge without", "without the common"]),
         ("C03", ["fails leaves", "is an error", "reported as", "reject", "are an error"]),
         ("C08", ["search trees follow", "node indices and the search trees"]),
         ("C01", ["undo of", "undone", "register the undo", "redo of", "saves the nodes", "hidden by an undo", "offsets"]),
         ("C05", ["Casulli", "merg", "inserting an edge"]),
         ("C15", ["moving a mesh node"])]
over = {}
p = os.path.join(H, "tools", "fixmap.txt")
if os.path.exists(p):
    for l in open(p):
        if l.strip():
            a, b = l.split()
            over[a] = b
out = ["# Genuine defects of MeshKernel found by these checks.",
       "# 'fixed:' lines suppress nothing. 'finding:' lines: property, the key under which the check reports it, description."]
base = "20b7be9"
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", base + ".."], text=True).splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    prop = over.get(h)
    if not prop:
        prop = next((i for i, ks in rules if any(k in s for k in ks)), "C05")
    out.append(f"fixed: property={prop} {h} before the fix this did not hold: {s}")
p = os.path.join(H, "tools", "findings.txt")
if os.path.exists(p):
    out += [l.rstrip() for l in open(p) if l.strip()]
open(os.path.join(H, "known_findings.txt"), "w").write("\n".join(out) + "\n")
