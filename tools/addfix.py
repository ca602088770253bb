"""addfix.py PID 'subject substring' 'what failed' — append a fixed entry for a /repo commit."""
import json, subprocess, sys
pid, key, what = sys.argv[1:4]
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
h = [l.split()[0] for l in log if key in l]
assert len(h) == 1, h
with open('/verif/known_findings.jsonl', 'a') as f:
    f.write(json.dumps({"property": pid, "status": "fixed", "what": "fixed: property=%s %s %s" % (pid, h[0], what)}) + "\n")
