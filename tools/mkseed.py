#!/usr/bin/env python3
"""mkseed.py ID PROPERTY PKG SPEC.py  -- builds seeded/ID from a python spec file with:
 edits=[(file, old, new)...], needs=, breaks=, test= (go source of the demonstration, package clause included)
Confirms in a scratch copy that the change builds, passes the stable tests, and that the demo separates the trees."""
import sys, os, subprocess, json, shutil
sid, prop, pkg, spec = sys.argv[1:5]
ns = {}
exec(open(spec).read(), ns)
W = "/tmp/mkseed-work"
shutil.rmtree(W, ignore_errors=True)
shutil.copytree("/repo", W, symlinks=True)
D = "/verif/seeded/" + sid
os.makedirs(D, exist_ok=True)
for f, old, new in ns["edits"]:
    p = os.path.join(W, f)
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
sh = lambda c, cwd: subprocess.run(["bash", "-c", c], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
d = sh("git diff", W).stdout
open(D + "/patch.diff", "w").write(d)
open(D + "/demo_test.go", "w").write(ns["test"])
open(D + "/demo.sh", "w").write(f"""#!/bin/bash
# exit 0 when the property holds for the demonstrated case
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh >/dev/null 2>&1
O=$(mktemp)
trap 'rm -f "$O"' EXIT
echo "{{\\"Replace\\":{{\\"$PWD/{pkg}/zz_demo_test.go\\":\\"$D/demo_test.go\\"}}}}" > "$O"
go test -vet=off -overlay "$O" -count=1 -timeout 120s -run '^TestSeedDemo$' ./{pkg}
""")
os.chmod(D + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(D + "/meta.json", "w"), indent=1)
ok = True
r = sh(f"bash {D}/demo.sh", "/repo")
if r.returncode != 0:
    ok = False; print("demo fails on the unchanged tree\n", r.stdout[-2500:])
r = sh(f"bash {D}/demo.sh", W)
if r.returncode == 0 or "FAIL" not in r.stdout or "build failed" in r.stdout:
    ok = False; print("demo does not fail with the change\n", r.stdout[-2500:])
else:
    print("demo with change:", [l for l in r.stdout.splitlines() if "_test.go" in l][:3])
r = sh(". /opt/vp/env.sh; go build ./... && { go test -vet=off -count=1 -json ./... > /tmp/mkseed-t.json; python3 /opt/vp/results.py /tmp/mkseed-o.json gojson:/tmp/mkseed-t.json; python3 /verif/tools/stable.py /tmp/mkseed-o.json; }", W)
print(r.stdout[-1500:])
if r.returncode != 0:
    ok = False
shutil.rmtree(W, ignore_errors=True)
if not ok:
    shutil.rmtree(D, ignore_errors=True)
    print("NOT KEPT", sid); sys.exit(1)
print("kept", sid)
