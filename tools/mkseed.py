#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE [OLD NEW]... reads old/new text pairs from a spec and writes seeded/ID/.

Usage: mkseed.py spec.json   with {"id","property","needs","what_it_breaks","edits":[[file,old,new]],"main":"go program"}.
Confirms in a scratch copy: builds, stable tests pass, demo passes unpatched and fails patched."""
import json, os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Builds main.go (kept beside this file) against the library in the current directory and runs it.
set -u
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T="$(mktemp -d /tmp/demo.XXXXXXXX)" || exit 3
trap 'rm -rf "$T"' EXIT
cp "$D/main.go" "$T/main.go"
printf 'module demo\\n\\ngo 1.18\\n\\nrequire github.com/timtadh/data-structures v0.0.0\\n\\nreplace github.com/timtadh/data-structures => %s\\n' "$R" > "$T/go.mod"
cd "$T" || exit 3
GOFLAGS=-mod=mod go build -o demo . || exit 4
timeout 200 ./demo
'''
def sh(cmd, cwd):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def main():
    spec = json.load(open(sys.argv[1]))
    d = os.path.join(HERE, "seeded", spec["id"])
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        r = os.path.join(tmp, "repo")
        sh(f"git clone -q /repo {r}", "/")
        for f, old, new in spec["edits"]:
            p = os.path.join(r, f); s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        patch = sh("git diff", r).stdout
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        open(os.path.join(d, "main.go"), "w").write(spec["main"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        json.dump({k: spec[k] for k in ("property", "needs", "what_it_breaks")}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        t = sh(". /opt/vp/env.sh; go vet ./... >/dev/null 2>&1; go build ./... && go test ./... 2>&1 | grep -v 'no test files'", r)
        ok = t.returncode == 0 and "FAIL" not in t.stdout
        a = sh(f"bash {d}/demo.sh", r)
        sh("git checkout -- .", r)
        b = sh(f"bash {d}/demo.sh", r)
        print(spec["id"], "tests", "pass" if ok else "FAIL", "| patched exit", a.returncode, "| unpatched exit", b.returncode)
        if not ok: print(t.stdout[-1500:])
        if a.returncode == 0 or b.returncode != 0: print(a.stdout[-800:], "\n--\n", b.stdout[-800:])
    finally:
        shutil.rmtree(tmp)
main()
