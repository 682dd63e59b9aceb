#!/usr/bin/env python3
"""mkseed.py [id...]: writes /verif/seeded/<id>/ from tools/seeds/*.py (definitions: seed(...)) and
checks them in a scratch copy of /repo: applies, builds, demo passes without and fails with the patch.
--tests also runs the repository's tests with each patch (slow)."""
import sys, os, glob, subprocess, shutil, json, tempfile
root = "/verif"; SEEDS = {}
def seed(id, prop, changes, pkg, test, needs, breaks, lib=()):
    assert id not in SEEDS, id
    SEEDS[id] = dict(prop=prop, changes=changes, pkg=pkg, test=test, needs=needs, breaks=breaks, lib=lib)
for f in sorted(glob.glob(root + "/tools/seeds/*.py")):
    exec(compile(open(f).read(), f, "exec"))
DEMO = """#!/bin/bash
# Runs the demonstration in package %s of the repository in the current directory.
D=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.25.14/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
R=$(pwd)
{
  echo '{"Replace":{'
  sep=
  for f in "$D"/*_test.go; do echo "$sep\\"$R/%s/zz_$(basename "$f")\\":\\"$f\\""; sep=,; done
  echo '}}'
} > "$T/overlay.json"
TMPDIR=$T go test -vet=off -overlay "$T/overlay.json" -count=1 -timeout 240s -run '^TestDemo$' ./%s
"""
def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    tests = "--tests" in sys.argv
    env = dict(os.environ, PATH="/opt/veriftools/go1.25.14/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly")
    for id in args or sorted(SEEDS):
        s = SEEDS[id]; d = f"{root}/seeded/{id}"
        w = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
        try:
            subprocess.check_call(["cp", "-a", "/repo", w + "/repo"])
            r = w + "/repo"
            for f, old, new in s["changes"]:
                t = open(f"{r}/{f}").read()
                if t.count(old) != 1:
                    print(id, "NOT UNIQUE/FOUND", f, t.count(old)); break
                open(f"{r}/{f}", "w").write(t.replace(old, new))
            else:
                diff = run(["git", "diff"], r).stdout
                os.makedirs(d, exist_ok=True)
                for x in os.listdir(d): os.remove(f"{d}/{x}")
                open(d + "/patch.diff", "w").write(diff)
                open(d + "/demo.sh", "w").write(DEMO % (s["pkg"], s["pkg"], s["pkg"])); os.chmod(d + "/demo.sh", 0o755)
                open(d + "/demo_test.go", "w").write(s["test"].lstrip())
                pkgname = s["test"].split("package ", 1)[1].split()[0]
                for l in s["lib"]:
                    open(f"{d}/{l}_test.go", "w").write(open(f"{root}/tools/seeds/{l}.go").read().replace("package PKG", "package " + pkgname))
                json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
                run(["gofmt", "-w"] + glob.glob(d + "/*_test.go"), r)
                b = run(["go", "build", "./..."], r, env=env)
                bad = run([d + "/demo.sh"], r)
                run(["git", "checkout", "-q", "--", "."], r)
                good = run([d + "/demo.sh"], r)
                ok = b.returncode == 0 and bad.returncode != 0 and good.returncode == 0 and "build failed" not in bad.stdout and "setup failed" not in bad.stdout
                print(id, "OK" if ok else "BAD", "build", b.returncode, "with", bad.returncode, "without", good.returncode, flush=True)
                if not ok: print(b.stdout[-600:], "--- with:", bad.stdout[-1200:], "--- without:", good.stdout[-1200:])
        finally:
            shutil.rmtree(w)
main()
