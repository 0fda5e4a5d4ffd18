#!/usr/bin/env python3
"""plant.py ID...: validate planted bugs of /verif/seeded in a scratch copy of /repo and run the property's check
against the changed source.  Prints one line per bug."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    ids = sys.argv[1:] or sorted(os.listdir(S))
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    tmp = tempfile.mkdtemp(prefix="plant")
    try:
        sc = os.path.join(tmp, "repo")
        shutil.copytree("/repo", sc, symlinks=True)
        sh("git checkout -q -- .", sc)
        env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
        for i in ids:
            d = os.path.join(S, i)
            meta = json.load(open(os.path.join(d, "meta.json")))
            out = []
            sh("git checkout -q -- . && touch src/*.rs src/cmds/*.rs", sc)
            sh("cargo build --offline", sc, env=env)
            # the demo finds the program in its working directory
            r = sh(["bash", os.path.join(d, "demo.sh")], sc, env=env, timeout=300)
            out.append("demo-clean=%d" % r.returncode)
            if r.returncode:
                print(r.stdout[-600:])
            r = sh(["git", "apply", os.path.join(d, "patch.diff")], sc)
            if r.returncode:
                print(i, "patch does not apply", r.stdout)
                continue
            sh("touch src/*.rs src/cmds/*.rs", sc)
            r = sh("cargo build --offline", sc, env=env)
            if r.returncode:
                print(i, "does not build", r.stdout[-800:])
                continue
            r = sh("ulimit -v 8000000; timeout -k 1 60 cargo test --workspace --offline", sc, env=env)
            bad = [b for b in base if ("test %s ... ok" % b.split("::", 1)[1]) not in r.stdout]
            out.append("tests=%s" % ("pass" if not bad else "FAIL " + str(bad[:3])))
            r = sh(["bash", os.path.join(d, "demo.sh")], sc, env=env, timeout=300)
            out.append("demo-bug=%d" % r.returncode)
            r = sh(["python3-vt", os.path.join(V, "check.py"), meta["property"]], V, env=dict(os.environ, RIPCALC_REPO=sc), timeout=1200)
            got = r.returncode == 1 and ("VIOLATION property=%s " % meta["property"]) in r.stdout
            out.append("check=%s" % ("CAUGHT" if got else "missed(rc=%d)" % r.returncode))
            good = out[0] == "demo-clean=0" and out[1] == "tests=pass" and out[2] != "demo-bug=0"
            print(i, meta["property"], "valid" if good else "INVALID", *out)
            if os.environ.get("V"):
                print(r.stdout[:1500])
            sys.stdout.flush()
    finally:
        shutil.rmtree(tmp)


main()
