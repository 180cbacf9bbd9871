#!/usr/bin/env python3
"""Orchestrator: python3 mc.py PROP TIER | python3 mc.py replay DIR | python3 mc.py setup

Builds everything from /repo's working tree under /verif/.build, enumerates the schemas of the
property, compiles the code the real macro generates for them, runs every document of the bounded
space through it and compares with the reference model. See DESIGN.md."""
import concurrent.futures as cf
import json, os, re, resource, shutil, subprocess, sys, time

T0 = time.time()

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, ".build")
REPLAY = os.path.join(HERE, "replay")
EVID = os.path.join(HERE, "evidence")
JOBS = 8
ENV = dict(os.environ)
ENV.update({
    "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu",
    "CARGO_NET_OFFLINE": "true",
    "CARGO_TERM_COLOR": "never",
    "RUSTC_WRAPPER": "",
    "RUST_BACKTRACE": "0",
})
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR"):
    ENV.pop(k, None)

DOC_PROPS = {"C01", "C02", "C03", "C04", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
             "C17", "C18", "C20", "C22"}
DIRECT_PROPS = {"C05", "C06", "C08", "C19", "C20", "C21", "C23"}
# a schema of the corpus that the generator refuses, or whose code does not compile, breaks these
# properties; the others speak about values and documents, of which there are none then
GEN_MATTERS = lambda p: p not in ("C01", "C03", "C04")


class Broken(Exception):
    """The machinery cannot give an answer."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build():
    """Builds the harness against /repo's current tree; returns paths of the artifacts."""
    tgt = os.path.join(BUILD, "target")
    os.makedirs(BUILD, exist_ok=True)
    # the dev profile is fingerprinted by mtime; sources edited within the same second as a build
    # would be missed, so the workspace members are always rebuilt when their content changed
    import hashlib
    h = hashlib.sha256()
    for root, dirs, files in os.walk("/repo"):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p.encode())
            try:
                h.update(open(p, "rb").read())
            except OSError:
                pass
    stamp = os.path.join(BUILD, "repo.sum")
    if not os.path.exists(stamp) or open(stamp).read() != h.hexdigest():
        fp = os.path.join(tgt, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("xsd-") or d.startswith("harness-"):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    cmd = ["cargo", "build", "--offline", "--message-format=json", "--target-dir", tgt]
    r = subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=ENV, capture_output=True, text=True)
    if r.returncode != 0:
        errs = []
        for line in r.stdout.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                errs.append(m["message"]["rendered"])
        raise Broken("the harness does not build:\n" + "\n".join(errs) + r.stderr[-3000:])
    art = {}
    for line in r.stdout.splitlines():
        m = json.loads(line)
        if m.get("reason") != "compiler-artifact":
            continue
        name = m["target"]["name"].replace("-", "_")
        for f in m["filenames"]:
            if f.endswith(".rlib"):
                art[name] = f
        if m.get("executable"):
            art["bin:" + m["target"]["name"]] = m["executable"]
    open(stamp, "w").write(h.hexdigest())
    return art


def rustc(art, src, out, cwd, timeout=600, cap=True):
    deps = os.path.dirname(art["harness"])
    deps = deps if deps.endswith("deps") else os.path.join(deps, "deps")
    cmd = ["rustc", "--edition=2021", "--crate-name", "shard", "--crate-type", "bin", src, "-o", out,
           "--error-format=json", "-Copt-level=0", "-Cdebuginfo=0", "-Ccodegen-units=4",
           "-Cincremental=no" if False else "-Cpanic=unwind",
           *(["--cap-lints=allow"] if cap else []), "-L", "dependency=" + deps]
    for c in ("xsd", "harness", "rust_decimal"):
        cmd += ["--extern", f"{c}={art[c]}"]
    env = dict(ENV)
    env["CARGO_MANIFEST_DIR"] = cwd
    try:
        return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, "", "timeout")


def errors(r):
    out = []
    for line in r.stderr.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            out.append(line)
            continue
        if m.get("level", "").startswith("error"):
            out.append(((m.get("code") or {}).get("code") or "") + " " + m["message"] + " " + " ".join(c["message"] for c in m.get("children", [])))
    return " | ".join(out)[:1500]


def guard(cmd, timeout, cwd=None, memory=4 << 30):
    """Runs code under test: bounded in time and memory. Gives the exit code and the end of stderr."""
    def limit():
        resource.setrlimit(resource.RLIMIT_AS, (memory, memory))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        r = subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, errors="replace", timeout=timeout, preexec_fn=limit)
        return r.returncode, r.stderr[-1500:]
    except subprocess.TimeoutExpired:
        return 124, f"no end after {timeout} s"


class Run:
    def __init__(self, prop, tier, art):
        self.prop, self.tier, self.art, self.t0 = prop, tier, art, T0
        self.dir = os.path.join(BUILD, f"run-{prop}-{tier}")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.violations = []  # dicts: kind, suite, msg, xml
        self.stats = {}
        self.suites = []
        self.samples = []

    def violation(self, kind, suite, msg, xml=None, origin=""):
        self.violations.append(dict(kind=kind, suite=suite, msg=msg, xml=xml, origin=origin))

    def fresh(self):
        known = known_findings(self.prop)
        return [v for v in self.violations
                if not any(matches(k, v, self.suites[v["suite"]] if v["suite"] is not None else None) for k in known)]

    def stop(self):
        """Whether to go no further: the answer is known, or time is running out."""
        t = time.time() - self.t0
        quick = self.tier == "quick"
        return t > (720 if quick else 2700) or t > 200 and bool(self.fresh())

    def add(self, k, n):
        self.stats[k] = self.stats.get(k, 0) + n

    # ---- documents

    def enumerate(self):
        r = subprocess.run([self.art["bin:prep"], "write", self.prop, self.tier, self.dir], env=ENV, capture_output=True, text=True)
        if r.returncode != 0:
            raise Broken("enumeration failed: " + r.stderr[-2000:])
        self.suites = [json.loads(l) for l in open(os.path.join(self.dir, "suites.jsonl"))]
        log(f"{len(self.suites)} schemas")

    def generate(self):
        """Runs the generator on every schema in-process; crashes are attributed to the schema."""
        gen = {}

        def lane(k):
            out = os.path.join(self.dir, f"gen{k}.jsonl")
            prog = os.path.join(self.dir, f"gen{k}.progress")
            at = k
            crashes = 0
            while at < len(self.suites):
                open(out, "a").close()
                code, why = guard([self.art["bin:prep"], "gen", self.prop, self.tier, self.dir, out, prog, str(at), str(JOBS)], 600)
                if code == 0:
                    break
                if not os.path.exists(prog):
                    raise Broken("prep gen: " + why)
                at = int(open(prog).read())
                with open(out, "a") as f:
                    f.write(json.dumps({"suite": at, "kind": "crash", "msg": why, "size": 0}) + "\n")
                at += JOBS
                crashes += 1
                if crashes >= 4:
                    with open(out, "a") as f:
                        for i in range(at, len(self.suites), JOBS):
                            f.write(json.dumps({"suite": i, "kind": "skipped", "msg": "", "size": 0}) + "\n")
                    break
            return [json.loads(l) for l in open(out)] if os.path.exists(out) else []

        with cf.ThreadPoolExecutor(JOBS) as ex:
            for rows in ex.map(lane, range(JOBS)):
                for r in rows:
                    gen[r["suite"]] = r
        self.gen = gen
        ok = []
        for i in range(len(self.suites)):
            g = gen.get(i)
            if g is None:
                raise Broken(f"no generation result for suite {i}")
            if g["kind"] == "ok":
                ok.append(i)
            elif g["kind"] == "skipped":
                self.add("schemas_left_out_after_crashes", 1)
            elif GEN_MATTERS(self.prop):
                what = {"refused": "schema of the supported dialect refused", "panic": "generator panicked",
                        "crash": "generator crashed", "missing": "a definition is missing"}[g["kind"]]
                self.violation("generate", i, f"{what}: {g['msg']}")
        self.add("schemas", len(self.suites))
        self.add("schemas_generated", len(ok))
        return ok

    def shard_source(self, ids, d):
        lines = ["#![allow(warnings)]", "extern crate rust_decimal;"]
        where = {}
        for i in ids:
            s = self.suites[i]
            path = os.path.relpath(os.path.join(self.dir, f"s{i}", s["main"]), d)
            lines.append(f'#[xsd::all(schema = {json.dumps(path)})] pub mod s{i} {{}}')
            where[len(lines)] = i
        lines.append("fn main() { harness::shard(&[")
        for i in ids:
            lines.append(f"({i}, harness::exec!(s{i}::{self.suites[i]['root_ty']})),")
            where[len(lines)] = i
        lines.append("]); }")
        return "\n".join(lines) + "\n", where

    def compile_and_run(self, k, ids):
        d = os.path.join(self.dir, f"shard{k}")
        os.makedirs(d)
        left = list(ids)
        t0 = time.time()
        for attempt in range(60):
            if not left:
                return []
            if self.stop():
                self.add("schemas_left_out_for_lack_of_time", len(left))
                return []
            src, where = self.shard_source(left, d)
            p = os.path.join(d, "main.rs")
            open(p, "w").write(src)
            r = rustc(self.art, p, os.path.join(d, "shard"), d)
            if r.returncode == 0:
                break
            bad = {}
            for line in r.stderr.splitlines():
                try:
                    m = json.loads(line)
                except ValueError:
                    continue
                if m.get("level") not in ("error", "error: internal compiler error"):
                    continue
                for sp in m.get("spans", []):
                    while sp:
                        if sp["file_name"].endswith("main.rs") and sp["line_start"] in where:
                            bad.setdefault(where[sp["line_start"]], m["message"])
                            break
                        sp = (sp.get("expansion") or {}).get("span")
            if not bad:
                if len(left) == 1:
                    bad = {left[0]: "rustc failed: " + r.stderr[-600:]}
                else:
                    # the compiler itself (or the macro in it) died: bisect
                    h = len(left) // 2
                    a = self.compile_and_run(f"{k}a{attempt}", left[:h])
                    b = self.compile_and_run(f"{k}b{attempt}", left[h:])
                    return a + b
            for i, msg in bad.items():
                if GEN_MATTERS(self.prop):
                    self.violation("compile", i, "generated code does not compile: " + msg)
            left = [i for i in left if i not in bad]
        else:
            raise Broken("shard does not converge")
        t1 = time.time()
        out, prog = os.path.join(d, "out.jsonl"), os.path.join(d, "progress")
        open(out, "w").close()
        after, crashes = -1, 0
        while True:
            code, why = guard([os.path.join(d, "shard"), self.prop, self.tier, out, prog, str(after)], 1500)
            if code == 0:
                break
            if not os.path.exists(prog):
                raise Broken(f"shard {k}: {why}")
            after = int(open(prog).read())
            if code == 101:
                raise Broken(f"shard {k}, suite {after}: the machinery panicked: {why}")
            self.violation("crash", after, f"the generated code does not come back (exit {code}): {why}")
            crashes += 1
            if crashes >= 4 or self.stop():
                break
        os.remove(os.path.join(d, "shard"))
        rows = [json.loads(l) for l in open(out)]
        self.times = getattr(self, "times", []) + [(t1 - t0, time.time() - t1, len(left))]
        return rows

    def documents(self):
        self.enumerate()
        ok = self.generate()
        log(f"{len(ok)} generated")
        # balance by size of the generated code
        # (schemas that are known not to compile are kept apart: each costs a compilation)
        alone = [i for i in ok if self.suites[i]["family"] == "limits"]
        ok = [i for i in ok if self.suites[i]["family"] != "limits"]
        n = max(1, min(64, max(JOBS, len(ok) // 150)))
        n = min(n, max(1, len(ok)))
        bins = [[0, []] for _ in range(n)]
        for i in sorted(ok, key=lambda i: -self.gen[i]["size"]):
            b = min(bins, key=lambda b: b[0])
            b[0] += self.gen[i]["size"] + 2000
            b[1].append(i)
        bins += [[0, [i]] for i in alone]
        exhausted = True
        hits = {}
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(self.compile_and_run, k, sorted(b[1])) for k, b in enumerate(bins) if b[1]]
            for f in cf.as_completed(futs):
                for r in f.result():
                    self.add("schemas_executed", 1)
                    for key in ("docs", "valid", "rejected", "unspec", "encoded", "checks"):
                        self.add(key, r[key])
                    exhausted = exhausted and r["exhausted"] and not r["truncated"]
                    self.add("schemas_fully_exhausted", int(r["exhausted"] and not r["truncated"]))
                    for h, c in r["hits"].items():
                        hits[h] = hits.get(h, 0) + c
                    if "sample" in r and len(self.samples) < 4:
                        self.samples.append(r["sample"])
                    for x in r["findings"]:
                        self.violation(x["aspect"], r["suite"], x["msg"], x["xml"], x["origin"])
        self.stats["outcomes"] = hits
        self.stats["all_document_spaces_exhausted"] = exhausted
        if getattr(self, "times", None):
            log("shards: compile %.1fs run %.1fs (cpu-ish sums), %d shards" % (
                sum(t[0] for t in self.times), sum(t[1] for t in self.times), len(self.times)))
        if self.stats.get("schemas_executed", 0) == 0 and not self.violations:
            raise Broken("nothing was executed")

    # ---- direct exploration (no generated code)

    def direct(self):
        d = os.path.join(self.dir, "direct")
        os.makedirs(d)
        out = os.path.join(d, "out.json")
        code, why = guard([self.art["bin:direct"], self.prop, self.tier, d, out], 3000 if self.tier == "thorough" else 600, cwd=d, memory=16 << 30)
        if code != 0:
            progs = [open(os.path.join(d, f), errors="replace").read() for f in sorted(os.listdir(d)) if f.startswith("progress")]
            if code in (101, 124) or not progs:
                raise Broken(f"direct exploration: {why}")
            self.violation("crash", None, f"the code under test does not come back (exit {code}): {why[-300:]}",
                           "one of these was being executed:\n" + "\n----\n".join(p[:3000] for p in progs))
            return
        o = json.load(open(out))
        for k, v in o["stats"].items():
            self.add(k, v)
        self.samples += o["samples"][:4]
        for v in o["findings"]:
            self.violation(v["kind"], None, v["msg"], v.get("input"))

    def host(self):
        import host
        thorough = self.tier == "thorough"
        d = os.path.join(self.dir, "host")
        os.makedirs(d)
        host.files(d)
        cases = host.cases(thorough)
        # positive cases share programs; a program that fails is split
        pos = [c for c in cases if c[2] is None]
        neg = [c for c in cases if c[2] is not None]
        batches = [pos[i::max(1, len(pos) // 12)] for i in range(max(1, len(pos) // 12))]

        def merged(batch):
            if len(batch) == 1:
                return batch[0][1]
            # each program becomes a module of its own
            out = []
            for n, (_, src, _) in enumerate(batch):
                src = src.replace("crate::top", f"crate::case{n}::top").replace("fn main()", "pub fn main()")
                src = src.replace("#![deny(deprecated)]", "")
                out.append(f"mod case{n} {{\n{src}}}\n")
            out.append("fn main() { " + " ".join(f"case{n}::main();" for n in range(len(batch))) + " }\n")
            return "".join(out)

        def one(key, src):
            p, exe = os.path.join(d, f"{key}.rs"), os.path.join(d, f"{key}.bin")
            open(p, "w").write(src)
            r = rustc(self.art, p, exe, d, timeout=300, cap=False)
            return r, exe

        def positive(k, batch):
            r, exe = one(f"p{k}", merged(batch))
            why = None
            if r.returncode != 0:
                why = "does not compile: " + errors(r)
            else:
                e = subprocess.run([exe], capture_output=True, text=True, errors="replace", timeout=60)
                os.remove(exe)
                if e.returncode != 0:
                    why = "fails: " + e.stderr[-400:]
            if why and len(batch) > 1:
                return [x for n, c in enumerate(batch) for x in positive(f"{k}_{n}", [c])]
            return [(batch[0], why)] if why else []

        def negative(k, c):
            # (the code is not even emitted if the macro refuses)
            r, exe = one(f"n{k}", c[1])
            if r.returncode == 0:
                return [(c, "is accepted by the compiler")]
            text = errors(r)
            if "panicked" in text:
                return [(c, "panics: " + text)]
            if not re.search(c[2], text, re.S):
                return [(c, f"is refused, but not for the reason /{c[2]}/: {text}")]
            return []

        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(positive, k, b) for k, b in enumerate(batches)] + [ex.submit(negative, k, c) for k, c in enumerate(neg)]
            for f in futs:
                for c, why in f.result():
                    self.violation("host", None, f"host module, {c[0]}: the program {why}", c[1])
        self.add("states", len(cases))
        self.add("transitions", len(cases))
        self.add("traces", len(cases))
        self.add("host_programs", len(cases))
        self.samples.append("host module: " + pos[len(pos) // 2][0])

    def text(self):
        import text
        d = os.path.join(self.dir, "text")
        os.makedirs(d)

        def one(prog):
            name, schema, src, n = prog
            open(os.path.join(d, name + ".xsd"), "w").write(schema)
            p, exe = os.path.join(d, name + ".rs"), os.path.join(d, name + ".bin")
            open(p, "w").write(src)
            r = rustc(self.art, p, exe, d, timeout=600)
            if r.returncode != 0:
                return prog, 0, [("compile", "does not compile: " + errors(r))]
            code, out = 0, ""
            try:
                e = subprocess.run([exe], capture_output=True, text=True, errors="replace", timeout=300)
                code, out = e.returncode, e.stdout
            except subprocess.TimeoutExpired:
                code = 124
            os.remove(exe)
            bad = [("text", l[5:]) for l in out.splitlines() if l.startswith("FAIL ")]
            if code != 0:
                bad.append(("crash", f"exit {code}"))
            m = re.search(r"^COUNT (\d+)", out, re.M)
            return prog, int(m.group(1)) if m else 0, bad

        with cf.ThreadPoolExecutor(JOBS) as ex:
            for (name, schema, src, n), count, bad in ex.map(one, text.programs(self.tier == "thorough")):
                for kind, msg in bad[:20]:
                    t = re.match(r"(T\d+): ", msg)
                    one_type = re.search(r'<xs:simpleType name="%s">.*?</xs:simpleType>' % t.group(1), schema, re.S).group(0) if t else schema
                    self.violation(kind, None, msg, one_type)
                self.add("states", n)
                self.add("transitions", count)
                self.add("traces", n)
        self.samples.append("all enumerations over " + repr(text.UNIVERSE))

    # ---- results

    def finish(self, t0):
        known = known_findings(self.prop)
        fresh, listed = [], {}
        for v in self.violations:
            s = self.suites[v["suite"]] if v["suite"] is not None else None
            k = next((k for k in known if matches(k, v, s)), None)
            if k is None:
                fresh.append(v)
            else:
                listed.setdefault(k["what"], []).append(v)
        for w in listed:
            print(f"KNOWN-FINDING: property={self.prop} {w}")
        st = self.stats
        states = st.get("docs", 0) + st.get("states", 0)
        trans = st.get("checks", 0) + st.get("transitions", 0)
        traces = st.get("docs", 0) - st.get("unspec", 0) + st.get("traces", 0)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "model_checking",
            "coverage": dict({
                "states": states, "transitions": trans, "traces_validated_against_impl": traces,
                "samples": self.samples or ["(none)"],
                "rule": "states: distinct (schema, document) pairs or operation histories executed on the real code; transitions: "
                        "model-vs-implementation comparisons (decode, refuse, encode, re-decode, operation step); traces: executions "
                        "for which the reference model gives a verdict",
                "detail": st,
            }, exhaustive=not any("left_out" in k for k in st)),
            "assumptions": ["bounds of DESIGN.md: the schema families and document spaces enumerated there; every space is cut at a "
                            "whole deviation level, never sampled"],
            "wall_s": round(time.time() - t0, 2),
            "violations": len(fresh),
        }
        os.makedirs(EVID, exist_ok=True)
        json.dump(ev, open(os.path.join(EVID, f"{self.prop}.json"), "w"), indent=1)
        if fresh:
            self.report(fresh)
            return 1
        log("ok:", json.dumps(st))
        return 0

    def report(self, fresh):
        shown = {}
        for v in fresh:
            key = (v["suite"], v["kind"]) if v["suite"] is not None else (v["msg"][:80], v["kind"])
            shown.setdefault(key, v)
        os.makedirs(REPLAY, exist_ok=True)
        limit = int(os.environ.get("MC_SHOW", "5"))
        order = sorted(shown.values(), key=lambda v: len(v["xml"] or ""))
        with open(os.path.join(self.dir, "violations.jsonl"), "w") as f:
            for v in order:
                f.write(json.dumps(dict(v, desc=self.suites[v["suite"]]["desc"] if v["suite"] is not None else "")) + "\n")
        print(f"{len(fresh)} violations ({len(shown)} distinct), first {min(limit, len(shown))}:")
        for n, v in enumerate(order[:limit]):
            d = os.path.join(REPLAY, f"{self.prop}-{self.tier}-{n}")
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            s = None
            if v["suite"] is not None:
                s = self.suites[v["suite"]]
                shutil.copytree(os.path.join(self.dir, f"s{v['suite']}"), os.path.join(d, "schema"))
            if v["xml"] is not None:
                open(os.path.join(d, "doc.xml"), "w", newline="").write(v["xml"])
            json.dump(dict(property=self.prop, kind=v["kind"], msg=v["msg"], origin=v["origin"], suite=s), open(os.path.join(d, "finding.json"), "w"), indent=1)
            print(f"  [{v['kind']}] {s['family'] + ': ' + s['desc'] if s else ''}\n    {v['msg'][:1500]}")
            if v["xml"] is not None:
                print(f"    input: {v['xml'][:1500]}")
            print(f"VIOLATION property={self.prop} replay={d}")


def known_findings(prop):
    p = os.path.join(HERE, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["known"] if prop in k["properties"]]


def matches(k, v, s):
    """A listed finding names the exact schema (family and description) and, if given, the kind of
    failure and a part of the message."""
    if s is None or s["family"] != k.get("family"):
        return False
    if not any(s["desc"] == x for x in k["schemas"]):
        return False
    if "kinds" in k and v["kind"] not in k["kinds"]:
        return False
    return True


def replay(d):
    art = build()
    f = json.load(open(os.path.join(d, "finding.json")))
    print(f["kind"], f["msg"])
    if f["suite"] is None:
        print("input:", open(os.path.join(d, "doc.xml")).read() if os.path.exists(os.path.join(d, "doc.xml")) else "-")
        return 0
    w = os.path.join(BUILD, "replay")
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    main = os.path.relpath(os.path.join(os.path.abspath(d), "schema", f["suite"]["main"]), w)
    open(os.path.join(w, "main.rs"), "w").write(
        f"#![allow(warnings)]\nextern crate rust_decimal;\n#[xsd::all(schema = {json.dumps(main)})] pub mod s {{}}\n"
        f"fn main() {{ harness::shard(&[(0, harness::exec!(s::{f['suite']['root_ty']}))]) }}\n")
    r = rustc(art, os.path.join(w, "main.rs"), os.path.join(w, "shard"), w)
    if r.returncode != 0:
        for l in r.stderr.splitlines():
            try:
                print(json.loads(l)["rendered"])
            except ValueError:
                print(l)
        return 1
    if os.path.exists(os.path.join(d, "doc.xml")):
        print(open(os.path.join(d, "doc.xml")).read())
        subprocess.run([os.path.join(w, "shard"), "one", os.path.join(d, "doc.xml")])
    return 0


def main():
    if sys.argv[1] == "setup":
        build()
        return 0
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    prop, tier = sys.argv[1], sys.argv[2]
    t0 = time.time()
    art = build()
    log("built in %.1fs" % (time.time() - t0))
    run = Run(prop, tier, art)
    if prop == "C24":
        run.text()
    elif prop in DOC_PROPS or prop not in DIRECT_PROPS:
        run.documents()
    if prop in DIRECT_PROPS:
        run.direct()
    if prop == "C23":
        run.host()
    code = run.finish(t0)
    if code == 0 and not os.environ.get("MC_KEEP"):
        shutil.rmtree(run.dir, ignore_errors=True)
    log("%.1fs" % (time.time() - t0))
    return code


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("BROKEN:", e)
        sys.exit(2)
