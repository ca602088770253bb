"""own_lines.py: planted bugs that remove no line of the original repository (they would not count)."""
import glob, os, re, subprocess, sys
REPO = os.environ.get("EXPDB_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
root = subprocess.run(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
for d in sorted(glob.glob(HERE + "/seeded/*/patch.diff")):
    old = orig = 0
    f, n = None, 0
    for l in open(d):
        l = l.rstrip("\n")
        if l.startswith("--- a/"):
            f = l[6:]
            bl = subprocess.run(["git", "-C", REPO, "blame", "-s", "-l", "--root", "HEAD", "--", f], capture_output=True, text=True).stdout.split("\n")
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1)) - 1
        elif l.startswith("+"):
            pass
        elif f and (l.startswith("-") and not l.startswith("---")):
            old += 1
            orig += bl[n].lstrip("^")[:39] == root[:39] and bool(l[1:].strip())
            n += 1
        elif f and l.startswith(" "):
            n += 1
    if not orig:
        print(os.path.basename(os.path.dirname(d)), "removes", old, "lines, none original")
