#!/usr/bin/env python3
# trymut.py FILE 'OLD' 'NEW' CHECK...  : one textual change in a scratch copy of /repo, then the checks.
# trymut.py --patch: keeps the diff in /tmp/mut/last.diff
import subprocess, sys, os
f, old, new, *checks = sys.argv[1:]
S = os.environ.get("MUT", "/tmp/mut")
os.makedirs(S + "/src", exist_ok=True)
subprocess.run(["rsync", "-rlpgoD", "--checksum", "--delete", "--exclude", ".git", "--exclude", "_build", "--exclude", "build", "/repo/", S + "/src/"], check=True)
p = S + "/src/" + f
s = open(p).read()
old = old.encode().decode("unicode_escape"); new = new.encode().decode("unicode_escape")
assert s.count(old) == 1, s.count(old)
open(p, "w").write(s.replace(old, new))
d = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, "/repo/" + f, p], capture_output=True, text=True).stdout
open(S + "/last.diff", "w").write(d)
env = dict(os.environ, MC_REPO=S + "/src", MC_BUILD=S + "/build", MC_EVIDENCE=S + "/ev")
for c in checks:
    r = subprocess.run(["/verif/check", c], env=env, capture_output=True, text=True)
    print(c, "exit", r.returncode)
    print("\n".join((r.stdout + r.stderr).splitlines()[:6] + ["..."] + (r.stdout + r.stderr).splitlines()[-4:]))
