#!/usr/bin/env python3
"""Make and confirm one planted bug: plant.py SPEC.py  (writes /verif/seeded/<id>/ when everything is confirmed).

A spec defines: id, prop, needs, breaks, edits = [(file, old, new[, count])], demo = Rust source of a test module,
and optionally where = 'limit' (the demo module is a child of compute::limit, which keeps the limit entry point private),
timeout = seconds the demo's test run may take (a run that does not end counts as failing).
Everything happens in a scratch copy of /repo; /repo itself is not touched."""
import json, os, runpy, shutil, subprocess, sys, tempfile

DEMO = '''#!/bin/bash
# exit 0: the property holds on this tree; nonzero: it is broken (run with cwd = the repository)
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap '/bin/rm -r "$tmp"' EXIT
cp -r src Cargo.toml "$tmp"/
[ -f Cargo.lock ] && cp Cargo.lock "$tmp"/
%(install)s
cd "$tmp"
CARGO_TARGET_DIR="$tmp/target" timeout 200 cargo test --offline --no-run >"$tmp/build.log" 2>&1 || { tail -30 "$tmp/build.log"; echo "demo does not build"; exit 3; }
bin="$(ls "$tmp"/target/debug/deps/* | grep -v '\\.d$' | head -1)"
ulimit -c 0
timeout %(timeout)d "$bin" vp_demo --test-threads 1 >"$tmp/run.log" 2>&1
rc=$?
cat "$tmp/run.log"
grep -q "^test result: ok\\. [1-9]" "$tmp/run.log" && [ $rc -eq 0 ]
'''
ROOT = 'cp "$here/demo.rs" "$tmp/src/vp_demo.rs"\nprintf "\\n#[cfg(test)]\\nmod vp_demo;\\n" >> "$tmp/src/main.rs"'
LIMIT = 'cp "$here/demo.rs" "$tmp/src/compute/limit/vp_demo.rs"\nprintf "\\n#[cfg(test)]\\nmod vp_demo;\\n" >> "$tmp/src/compute/limit/mod.rs"'


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def main(path):
    s = runpy.run_path(path)
    tmp = tempfile.mkdtemp(prefix="plant.")
    try:
        wt = os.path.join(tmp, "r")
        subprocess.check_call(["git", "clone", "-q", "/repo", wt])
        dst = os.path.join(tmp, "seed")
        os.mkdir(dst)
        open(os.path.join(dst, "demo.rs"), "w").write(s["demo"].strip() + "\n")
        open(os.path.join(dst, "demo.sh"), "w").write(DEMO % {"install": LIMIT if s.get("where") == "limit" else ROOT, "timeout": s.get("timeout", 60)})
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(dst, "meta.json"), "w"), indent=1)
        r = sh("bash %s/demo.sh" % dst, wt)
        if r.returncode != 0:
            print(r.stdout[-3000:], r.stderr)
            return "demo fails on the unchanged tree"
        for e in s["edits"]:
            f, old, new = e[:3]
            p = os.path.join(wt, f)
            t = open(p).read()
            n = t.count(old)
            if n != (e[3] if len(e) > 3 else 1):
                return "%s: %d occurrences of %r" % (f, n, old)
            open(p, "w").write(t.replace(old, new))
        d = sh("git diff", wt).stdout
        open(os.path.join(dst, "patch.diff"), "w").write(d)
        base = set()
        blame_ok = False
        for e in s["edits"]:
            b = sh("git blame -s HEAD -- %s" % e[0], wt).stdout
            orig = {l.split(") ", 1)[1] for l in b.splitlines() if l.startswith("^")}
            for l in d.splitlines():
                if l.startswith("-") and not l.startswith("---") and l[1:] in orig and l[1:].strip():
                    blame_ok = True
        if not blame_ok:
            return "changes no original line"
        r = sh("cargo build --offline --locked 2>&1 && cargo test --offline --locked 2>&1", wt, timeout=300)
        if r.returncode != 0:
            print(r.stdout[-2500:])
            return "build or tests fail"
        r = sh("bash %s/demo.sh" % dst, wt)
        if r.returncode == 0:
            return "demo passes with the change"
        print("\n".join(l for l in r.stdout.splitlines() if "panicked" in l or "overflow" in l or "assert" in l or "left" in l or "right" in l)[:600], "rc", r.returncode)
        if r.returncode == 3:
            return "demo does not build with the change"
        out = "/verif/seeded/" + s["id"]
        if os.path.isdir(out):
            shutil.rmtree(out)
        shutil.copytree(dst, out)
        return "kept"
    finally:
        shutil.rmtree(tmp)


for p in sys.argv[1:]:
    print("%-28s" % os.path.basename(p), main(p), flush=True)
