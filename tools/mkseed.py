#!/usr/bin/env python3
"""Writes one planted bug: mkseed.py DIR < JSON {property, needs, breaks, edits:[[file, old, new]], demo: Go test source}."""
import json, os, subprocess, sys, tempfile, shutil
DEMO = '''#!/bin/sh
# Run in /repo. Exits 0 when the behaviour is right.
d=$(cd "$(dirname "$0")" && pwd)
if [ -r /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
t=$(mktemp -d) || exit 3
trap 'rm -r "${t:?}"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$d" > "$t/overlay.json"
go test -vet=off -overlay "$t/overlay.json" -run '^TestDemo$' -count=1 -timeout 250s .
'''
def seed(name, s):
    d = os.path.join("/verif/seeded", name)
    os.makedirs(d, exist_ok=True)
    files = []
    for f, old, new in s["edits"]:
        p = os.path.join("/repo", f)
        t = open(p).read()
        assert t.count(old) == 1, (name, f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo_test.go"), "w").write(s["demo"])
if __name__ == "__main__":
    seed(sys.argv[1], json.load(sys.stdin))
