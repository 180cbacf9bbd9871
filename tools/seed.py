#!/usr/bin/env python3
"""Plants bugs: builds /verif/seeded/<id>/ from the descriptions in tools/seeds/*.py.

    seed.py make [ID...]     confirm in a scratch copy (compiles, 55 tests pass, demo passes/fails) and write
    seed.py check [ID...] [--all]   apply each to /repo, run its property's quick check, undo
"""
import glob, json, os, shutil, subprocess, sys, tempfile, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEEDED = os.path.join(VERIF, "seeded")
SCRATCH = "/tmp/seedrepo"

DEMO = '''#!/bin/sh
# Exits 0 where the property holds, nonzero where it is broken. Run with the repository as cwd.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp -r "$here"/files/. "$d/"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
xsd = { path = "$repo/xsd" }
rust_decimal = "1"
TOML
cd "$d" && CARGO_TARGET_DIR="$d/target" cargo run --offline -q
'''

def load():
    seeds = {}
    for p in sorted(glob.glob(os.path.join(HERE, "seeds", "*.py"))):
        spec = importlib.util.spec_from_file_location("s", p)
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        for s in m.SEEDS:
            assert s["id"] not in seeds, s["id"]
            seeds[s["id"]] = s
    return seeds

def sh(cmd, cwd=None, timeout=600):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def fresh():
    if not os.path.isdir(SCRATCH):
        sh(f"cp -a /repo {SCRATCH}")
    sh(f"git -C {SCRATCH} fetch -q /repo HEAD && git -C {SCRATCH} reset -q --hard FETCH_HEAD")

def apply(root, s):
    for path, old, new in s["edits"]:
        f = os.path.join(root, path)
        t = open(f).read()
        n = t.count(old)
        if n != 1:
            raise SystemExit(f"{s['id']}: {n} matches in {path} for\n{old}")
        open(f, "w").write(t.replace(old, new))

def tests():
    rc, out = sh("cargo test --offline --workspace 2>&1", cwd=SCRATCH)
    ok = sum(int(l.split("ok. ")[1].split()[0]) for l in out.splitlines() if l.startswith("test result: ok."))
    return rc, ok, out

def make(ids):
    seeds = load()
    fresh()
    for i in ids or [k for k in seeds if not os.path.exists(os.path.join(SEEDED, k, "ok"))]:
        s = seeds[i]
        d = os.path.join(SEEDED, i)
        tmp = tempfile.mkdtemp()
        files = os.path.join(tmp, "files")
        os.makedirs(os.path.join(files, "src"))
        for n, c in s["files"].items():
            p = os.path.join(files, n); os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(c)
        open(os.path.join(files, "src", "main.rs"), "w").write(s["main"])
        open(os.path.join(tmp, "demo.sh"), "w").write(DEMO); os.chmod(os.path.join(tmp, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(tmp, "meta.json"), "w"), indent=1)
        fresh()
        rc0, out0 = sh(f"sh {tmp}/demo.sh", cwd=SCRATCH)
        if rc0:
            print(i, "DEMO FAILS ON CLEAN TREE", out0[-1500:]); shutil.rmtree(tmp); continue
        apply(SCRATCH, s)
        open(os.path.join(tmp, "patch.diff"), "w").write(sh("git diff", cwd=SCRATCH)[1])
        trc, tok, tout = tests()
        rc1, out1 = sh(f"sh {tmp}/demo.sh", cwd=SCRATCH)
        good = trc == 0 and rc1 != 0
        print(i, s["property"], "ok" if good else "REJECTED", f"tests rc={trc} passed={tok} demo={rc1}")
        if not good:
            print("\n".join(l for l in tout.splitlines() if "FAILED" in l or l.startswith("error") or "failed" in l)[:600])
            shutil.rmtree(tmp); continue
        print("   ", [l for l in out1.splitlines() if l.strip()][-1:])
        shutil.rmtree(d, ignore_errors=True); shutil.copytree(tmp, d); shutil.rmtree(tmp)
    fresh()

def check(ids):
    others = "--all" in ids
    ids = [x for x in ids if x != "--all"]
    res = {}
    for i in ids or sorted(os.listdir(SEEDED)):
        d = os.path.join(SEEDED, i)
        meta = json.load(open(os.path.join(d, "meta.json")))
        rc, out = sh(f"git -C /repo apply {d}/patch.diff")
        assert rc == 0, out
        try:
            for p in [meta["property"]]:
                rc, out = sh(f"python3 mc.py {p} quick", cwd=VERIF, timeout=1800)
                v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
                r = "caught" if rc == 1 and v else "missed"
                print(i, p, "rc", rc, r.upper(), flush=True)
                f = os.path.join(VERIF, "tools", "seeds", "results.json")
                old = json.load(open(f)) if os.path.exists(f) else {}
                old[i] = r
                json.dump(old, open(f, "w"), indent=1, sort_keys=True)
                if rc not in (0, 1): print(out[-800:])
        finally:
            sh("git -C /repo checkout -- .")

if __name__ == "__main__":
    {"make": make, "check": check}[sys.argv[1]](sys.argv[2:])
