#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a bug description: plant.py FILE.py [ID...]

FILE.py defines BUGS = {id: dict(property, needs, breaks, file, edits=[(old, new), ...], demo="body of fn main")}.
The change is made in a scratch copy of /repo; kept only if it builds, passes the stable tests, and its demonstration
fails with it and passes without it."""
import json, os, re, runpy, shutil, subprocess, sys
S = "/tmp/plant/repo"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
           CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", PROPTEST_RNG_SEED="1")
DEMO = '''#!/bin/bash
# Runs demo.rs against the crate in the working directory: exit 0 if it behaves, nonzero if not.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
[ -f Cargo.lock ] && cp Cargo.lock "$d/"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
dandy = { path = "$PWD/dandy" }
[workspace]
EOF
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
timeout 250 cargo run --offline -q --manifest-path "$d/Cargo.toml"
'''
USE = "use dandy::{dfa::*, nfa::*, parser, regex::*};\n"


def sh(cmd, cwd=S, t=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)


def tests():
    a = sh("timeout -k 10 600 cargo test --workspace --lib --bins --tests --no-fail-fast --offline -- --test-threads 8")
    b = sh("timeout -k 10 200 cargo test -p dandy --doc --no-fail-fast --offline -- --test-threads 8")
    bad = re.findall(r"^test (.*) \.\.\. FAILED", a.stdout + b.stdout, re.M)
    ok = re.findall(r"^test (.*) \.\.\. ok", a.stdout + b.stdout, re.M)
    return ok, bad, a.stdout + b.stdout


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    if not os.path.exists(S):
        os.makedirs("/tmp/plant", exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", S], check=True)
    for i, b in bugs.items():
        if len(sys.argv) > 2 and i not in sys.argv[2:]:
            continue
        sh("git checkout -q -- . && git clean -fdq")
        if sh("git rev-parse HEAD").stdout != sh("git rev-parse HEAD", "/repo").stdout:
            print(sh("git fetch -q /repo HEAD && git checkout -q FETCH_HEAD").stdout)
        d = f"/verif/seeded/{i}"
        os.makedirs(d, exist_ok=True)
        if "script" in b:
            open(f"{d}/demo.sh", "w").write(b["script"])
            if b.get("demo"):
                open(f"{d}/demo.rs", "w").write("#![allow(unused_imports)]\n" + USE + b["demo"])
        else:
            open(f"{d}/demo.rs", "w").write("#![allow(unused_imports)]\n" + USE + b["demo"])
            open(f"{d}/demo.sh", "w").write(DEMO)
        for n, t in b.get("extra", {}).items():
            open(f"{d}/{n}", "w").write(t)
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(f"{d}/meta.json", "w"), indent=1, ensure_ascii=False)
        good = sh(f"bash {d}/demo.sh")
        for e in b["edits"]:
            f, old, new = e if len(e) == 3 else (b["file"], *e)
            s = open(f"{S}/{f}").read()
            if s.count(old) != 1:
                print(i, "EDIT MATCHES", s.count(old), "times:", old[:60])
                break
            open(f"{S}/{f}", "w").write(s.replace(old, new))
        else:
            open(f"{d}/patch.diff", "w").write(sh("git diff").stdout)
            ok, bad, log = tests()
            r = sh(f"bash {d}/demo.sh")
            v = "KEEP" if good.returncode == 0 and r.returncode not in (0, 101 if "error: could not compile" in r.stdout else -1) and not bad and len(ok) >= 35 else "REJECT"
            print(f"{i}: {v} clean demo {good.returncode}, patched demo {r.returncode}, {len(ok)} ok, failed: {bad}")
            if v == "REJECT":
                shutil.rmtree(d)
                print("\n".join((good.stdout if good.returncode else "").splitlines()[-15:]))
                print("\n".join((r.stdout if "could not compile" in r.stdout else "").splitlines()[-15:]))
                if len(ok) + len(bad) < 35:
                    print("\n".join([l for l in log.splitlines() if "error" in l or "-->" in l][:10]))
        sh("git checkout -q -- .")


main()
