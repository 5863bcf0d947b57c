"""Do the seeded bugs change lines of the original repository? (not lines of our own commits)"""
import subprocess, glob, os, re
BASE = "02b9a9b"
own = set(subprocess.check_output(["git", "-C", "/repo", "rev-list", BASE + "..HEAD"]).decode().split())
for p in sorted(glob.glob(os.path.dirname(os.path.abspath(__file__)) + "/../seeded/*/patch.diff")):
    f = None; n = 0; bad = 0; tot = 0
    for l in open(p):
        if l.startswith("--- "): f = l[6:].strip()
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-"):
            tot += 1
            h = subprocess.check_output(["git", "-C", "/repo", "blame", "-l", "-L", "%d,%d" % (n, n), "HEAD", "--", f]).decode().split()[0].lstrip("^")
            if h in own: bad += 1; print("   own line:", f, n, l.strip())
            n += 1
        elif not l.startswith(("+", "diff", "index")): n += 1
    if bad or not tot: print(os.path.basename(os.path.dirname(p)), "removed", tot, "own", bad)
