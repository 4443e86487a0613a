#!/usr/bin/env python3
"""plant.py [ID...] -- write /verif/seeded/<id>/ from bugs.py and confirm each one in a scratch copy:
the patch touches original lines only, builds, passes the stable tests, and its demonstration exits 0
without and nonzero with it. Development aid; no check reads it."""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from bugs import BUGS, VARA_PRELUDE
REPO, OUT, BASE = "/repo", os.path.join(os.path.dirname(HERE), "seeded"), "7b54b77"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
DEMO = r'''#!/bin/bash
# The repository is the current directory. Builds a scratch copy with one extra test module in it and runs that.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
work=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap 'rm -rf -- "${work:?}"' EXIT
mkdir "$work/repo" && cp -a ./. "$work/repo/" || exit 2
cd "$work/repo" || exit 2
printf '\n#[cfg(test)]\nmod planted_demo {\n#[allow(unused_imports)]\nuse super::*;\ninclude!("%s");\n}\n' "$here/demo.rs" >> FILE || exit 2
export CARGO_TARGET_DIR="$work/repo/target" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTFLAGS RUST_LOG RUSTC_WRAPPER
out=$(timeout 250 cargo test --offline --lib planted_demo -- --test-threads 4 2>&1)
rc=$?
echo "$out" | tail -n 40
[ $rc -eq 0 ] || exit 1
echo "$out" | grep -q 'test result: ok. [1-9]' || exit 1
exit 0
'''
def sh(cmd, cwd, timeout=600, env=ENV):
    p = subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace")
def main():
    want = [a for a in sys.argv[1:] if not a.startswith("-")]
    work = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    bad = []
    try:
        repo = os.path.join(work, "repo")
        subprocess.check_call(["cp", "-a", REPO, repo])
        env = dict(ENV, CARGO_TARGET_DIR=os.path.join(repo, "target"), RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
        for b in BUGS:
            if want and b["id"] not in want:
                continue
            sh("git checkout -q -- .", repo)
            ok = True
            for f, old, new in b["edits"]:
                p = os.path.join(repo, f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(b["id"], "edit matches", s.count(old), "times:", old[:60]); ok = False; break
                open(p, "w").write(s.replace(old, new))
            if not ok:
                bad.append(b["id"]); continue
            diff = subprocess.run(["git", "diff"], cwd=repo, stdout=subprocess.PIPE).stdout.decode()
            # lines removed must be base lines
            blame = {}
            removed = 0
            f, ln = None, 0
            for l in diff.split("\n"):
                m = re.match(r"--- a/(.*)", l)
                if m: f = m.group(1); continue
                m = re.match(r"@@ -(\d+)", l)
                if m: ln = int(m.group(1)); continue
                if f and l.startswith("-") and not l.startswith("---"):
                    if f not in blame:
                        blame[f] = subprocess.run(["git", "blame", "-s", "HEAD", "--", f], cwd=repo, stdout=subprocess.PIPE).stdout.decode().split("\n")
                    removed += 1
                    if BASE not in blame[f][ln - 1].split()[0]:
                        print(b["id"], "touches a line of mine:", l); ok = False
                    ln += 1
                elif l.startswith(" "):
                    ln += 1
            if not removed:
                print(b["id"], "removes no original line"); ok = False
            d = os.path.join(OUT, b["id"])
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("FILE", b["file"]))
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            demo = (VARA_PRELUDE if b.get("vara") else "") + b["demo"]
            open(os.path.join(d, "demo.rs"), "w").write(demo.strip() + "\n")
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            open(os.path.join(d, "meta.json"), "a").write("\n")
            sh("rm -rf target/debug/.fingerprint/plusendi-*", repo)
            rc, o = sh("cargo test --workspace --no-fail-fast --offline", repo, env=env)
            npass = len(re.findall(r"^test \S+ \.\.\. ok", o, re.M))
            if rc != 0 or npass != 17:
                print(b["id"], "tests rc", rc, "passed", npass); print("\n".join(l for l in o.split("\n") if "FAILED" in l or l.startswith("error"))[:800]); ok = False
            if ok:
                rc1, o1 = sh([os.path.join(d, "demo.sh")], repo)
                if rc1 == 0:
                    print(b["id"], "demo passes with the patch"); ok = False
                elif "error[" in o1 or "could not compile" in o1:
                    print(b["id"], "demo does not compile with the patch\n", o1[-1500:]); ok = False
            if ok:
                sh("git checkout -q -- .", repo)
                rc0, o0 = sh([os.path.join(d, "demo.sh")], repo)
                if rc0 != 0:
                    print(b["id"], "demo fails without the patch\n", o0[-2500:]); ok = False
            print(b["id"], "OK" if ok else "NOT OK", flush=True)
            if not ok:
                bad.append(b["id"])
                if "-keep" not in sys.argv:
                    shutil.rmtree(d)
    finally:
        shutil.rmtree(work)
    print("bad:", bad)
main()
