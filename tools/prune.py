"""List seeded bugs whose patches change no line of the original repository (see task: they do not count)."""
import os, re, subprocess, sys
REPO, BASE = "/repo", "011aa63"
orig = {}
def blame(f):
    if f not in orig:
        out = subprocess.run(["git", "-C", REPO, "blame", "-s", "-w", "--abbrev=40", "HEAD", "--", f], capture_output=True, text=True).stdout
        fixes = set(subprocess.run(["git", "-C", REPO, "rev-list", BASE + "..HEAD"], capture_output=True, text=True).stdout.split())
        orig[f] = [l.split()[0] not in fixes for l in out.splitlines()]
    return orig[f]
d = "/verif/seeded"
for s in sorted(os.listdir(d)):
    f, line, verdict = None, 0, []
    prev_kind, ins_at = None, None
    hunk = []
    for l in open("%s/%s/patch.diff" % (d, s)):
        m = re.match(r"--- a/(.*)", l)
        if m: f = m.group(1); continue
        if l.startswith("+++") or l.startswith("diff") or l.startswith("index"): continue
        m = re.match(r"@@ -(\d+)", l)
        if m: line = int(m.group(1)); continue
        if l.startswith("-"):
            if l[1:].strip(): verdict.append(("del", blame(f)[line - 1]))
            line += 1
        elif l.startswith("+"):
            b = blame(f)
            verdict.append(("ins", (b[line - 2] if line >= 2 else False, b[line - 1] if line - 1 < len(b) else False)))
        else:
            line += 1
    dels = [o for k, o in verdict if k == "del"]
    ins = [o for k, o in verdict if k == "ins"]
    print(s, "del orig %d/%d" % (sum(dels), len(dels)), "ins both %d prev %d next %d of %d" % (sum(a and b for a, b in ins), sum(a for a, b in ins), sum(b for a, b in ins), len(ins)))
