#!/usr/bin/env python3
"""mkseed.py <id> <spec.json>: spec = {property, needs, what_it_breaks, edits:[[file, old, new]...]} (+ demo.rs already in the seed folder)
Writes patch.diff against /repo's HEAD, demo.sh and meta.json."""
import json, subprocess, sys, os, shutil, tempfile
sid, spec = sys.argv[1], json.load(open(sys.argv[2]))
d = f"/verif/seeded/{sid}"; os.makedirs(d, exist_ok=True)
t = tempfile.mkdtemp(prefix="mkseed")
subprocess.check_call(f"git -C /repo archive HEAD src sdk/ts/src | tar x -C {t}", shell=True)
subprocess.check_call(f"cd {t} && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x", shell=True)
for f, old, new in spec["edits"]:
    p = os.path.join(t, f); s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
open(f"{d}/patch.diff", "w").write(subprocess.check_output(["git", "-C", t, "diff"], text=True))
shutil.rmtree(t)
json.dump({k: spec[k] for k in ("property", "needs", "what_it_breaks")}, open(f"{d}/meta.json", "w"), indent=1)
if not os.path.exists(f"{d}/demo.js") and not os.path.exists(f"{d}/demo.sh") or os.path.exists(f"{d}/demo.sh") and "tests/zz_" in open(f"{d}/demo.sh").read():
    n = "zz_" + sid.replace("-", "_")
    open(f"{d}/demo.sh", "w").write(f'''#!/bin/bash
# Puts demo.rs beside the repository's own tests for the length of this run.
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd /repo || exit 2
t=/repo/tests/{n}.rs
trap 'rm -f {chr(34)}$t{chr(34)}' EXIT
cp "$here/demo.rs" "$t"
timeout 280 cargo test --offline --locked --test {n} -- --nocapture --test-threads=1
''')
    os.chmod(f"{d}/demo.sh", 0o755)
print(open(f"{d}/patch.diff").read())
