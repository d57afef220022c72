#!/usr/bin/env python3
"""Runs the check of one property: builds what it needs from /repo's working tree, runs the property's parts in parallel,
writes evidence/<id>.json. Exit 0: held; 1: VIOLATION line printed; 2: the machinery failed."""
import argparse, concurrent.futures as cf, fcntl, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
B = os.path.join(V, ".build")
BIN = os.path.join(B, "bin")
T0 = time.time()

ENV = dict(os.environ)
ENV.update(HOME="/root", PATH="/opt/veriftools/go1.24.13/bin:/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
           GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", CARGO_NET_OFFLINE="true", GONOSUMDB="*", GONOSUMCHECK="1", GOWORK="off")
for k in ("GOOS", "GOARCH", "RUSTFLAGS", "CARGO_TARGET_DIR"):
    ENV.pop(k, None)


class Infra(Exception):
    pass


def sh(args, cwd=None, env=None, timeout=600):
    try:
        p = subprocess.run(args, cwd=cwd, env=env or ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Infra("timeout: %s" % " ".join(args))
    if p.returncode != 0:
        raise Infra("%s failed (%d):\n%s" % (" ".join(args), p.returncode, p.stdout.decode(errors="replace")[-6000:]))
    return p.stdout.decode(errors="replace")


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:16]


def files(root, exts):
    out = []
    for d, dirs, names in os.walk(root):
        dirs[:] = [x for x in dirs if x not in (".git", "target", "node_modules", ".build")]
        out += [os.path.join(d, n) for n in names if os.path.splitext(n)[1] in exts]
    return out


class Lock:
    def __init__(self, name):
        os.makedirs(B, exist_ok=True)
        self.f = open(os.path.join(B, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def keyed(kind, key):
    """A directory for one set of sources; directories of other sources of this kind are dropped."""
    d = os.path.join(B, "%s-%s" % (kind, key))
    for old in glob.glob(os.path.join(B, kind + "-*")):
        if old != d and os.path.isdir(old) and time.time() - os.path.getmtime(old) > 900:
            shutil.rmtree(old, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    os.utime(d)
    return d


def gobuild(name, pkgdir, pkg=".", extra=(), env=None):
    """Go's build cache is keyed by content. The binary goes to a path private to this run."""
    out = os.path.join(RUN, name)
    sh(["go", "build", *extra, "-o", out, pkg], cwd=pkgdir, env=env)
    return [out]


def b_prop():
    return gobuild("prop", os.path.join(V, "harness"), "./cmd/prop")


def b_gov1():
    return gobuild("gov1", os.path.join(V, "adapters/gov1"))


def b_gov2():
    return gobuild("gov2", os.path.join(V, "adapters/gov2"))


def b32(name):
    """The adapter as a 32-bit program (int and pointers are half as wide). Where the kernel cannot run those, the ordinary one."""
    e = dict(ENV)
    e["GOARCH"] = "386"
    e["CGO_ENABLED"] = "0"
    exe = gobuild(name + "-32", os.path.join(V, "adapters", name), ".", [], e)
    try:
        subprocess.run(exe, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60, check=True)
    except (OSError, subprocess.SubprocessError):
        print("note: 32-bit programs do not run here; %s-32 is a 64-bit one" % name)
        return gobuild(name + "-64", os.path.join(V, "adapters", name))
    return exe


def b_arch32():
    """The architecture of 32-bit Go programs, if they run here."""
    return ["386" if b32("gov1")[0].endswith("-32") else "amd64"]


def race(name):
    e = dict(ENV)
    e["CGO_ENABLED"] = "1"
    return gobuild(name + "-race", os.path.join(V, "adapters", name), ".", ["-race"], e)


def rust_sources():
    return [p for p in files(REPO, {".rs", ".toml"}) if "/c_bindings/tests" not in p] + [os.path.join(REPO, "Cargo.toml")]


def b_rust(release=False):
    a = os.path.join(V, "adapters/rust")
    kind = "rustrel" if release else "rust"
    d = keyed(kind, digest(rust_sources() + files(a, {".rs", ".toml", ".lock"})))
    exe = os.path.join(d, "release/adapter" if release else "debug/adapter")
    with Lock(kind):
        if not os.path.exists(os.path.join(d, "done")):
            e = dict(ENV)
            e["CARGO_TARGET_DIR"] = d
            sh(["cargo", "build", "--offline", "--locked", "-q", *(["--release"] if release else [])], cwd=a, env=e)
            open(os.path.join(d, "done"), "w").close()
    return [exe]


def b_rsdeps():
    """What generated Rust code is compiled against: the crate's library, and a stand-in for num_enum."""
    a = os.path.join(V, "adapters/rsdeps")
    d = keyed("rsdeps", digest(rust_sources() + files(a, {".rs", ".toml", ".lock"}) + files(os.path.join(V, "adapters/num_enum"), {".rs", ".toml"})))
    with Lock("rsdeps"):
        if not os.path.exists(os.path.join(d, "done")):
            e = dict(ENV)
            e["CARGO_TARGET_DIR"] = d
            sh(["cargo", "build", "--offline", "--locked", "-q"], cwd=a, env=e)
            open(os.path.join(d, "done"), "w").close()
    deps = os.path.join(d, "debug/deps")
    return [deps, *(glob.glob(os.path.join(deps, p))[0] for p in ("libpolyglot_rs-*.rlib", "libnum_enum-*.so"))]


def b_c(release=False):
    a = os.path.join(V, "adapters/c")
    kind = "crel" if release else "c"
    d = keyed(kind, digest(rust_sources() + [os.path.join(REPO, "polyglot.h.in"), os.path.join(REPO, "polyglot.h"), os.path.join(a, "adapter.c"), os.path.join(a, "lib.Cargo.toml")]))
    exe = os.path.join(d, "adapter")
    with Lock(kind):
        if not os.path.exists(os.path.join(d, "done")):
            shutil.copy(os.path.join(a, "lib.Cargo.toml"), os.path.join(d, "Cargo.toml"))
            e = dict(ENV)
            e["CARGO_TARGET_DIR"] = os.path.join(d, "target")
            sh(["cargo", "build", "--offline", "-q", *(["--release"] if release else [])], cwd=d, env=e)
            # the debug adapter is C against the header template, the release one C++ against the committed header with its kinds as enums
            h = open(os.path.join(REPO, "polyglot.h" if release else "polyglot.h.in")).read()
            for x in ("MAJOR", "MINOR", "MICRO"):
                h = h.replace("@_VERSION_%s@" % x, "1")
            os.makedirs(os.path.join(d, "include"), exist_ok=True)
            with open(os.path.join(d, "include/polyglot.h"), "w") as f:
                f.write(h)
            lib = os.path.join(d, "target/release" if release else "target/debug")
            front = ["g++", "-fpermissive", "-w", "-DPOLYGLOT_USE_C_ENUMS"] if release else ["gcc", "-std=gnu11", "-Wall"]
            sh([*front, "-g", "-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-I", os.path.join(d, "include"), os.path.join(a, "adapter.c"),
                "-o", exe, "-L", lib, "-lpolyglot", "-lpthread", "-Wl,-rpath," + lib])
            open(os.path.join(d, "done"), "w").close()
    return [exe]


def b_ts():
    out = os.path.join(RUN, "ts-adapter.js")
    sh(["/opt/veriftools/node/node_modules/.bin/esbuild", os.path.join(V, "adapters/ts/adapter.ts"), "--bundle", "--platform=node", "--target=node22",
        "--alias:polyglot-under-test=" + os.path.join(REPO, "index.ts"), "--outfile=" + out, "--log-level=error"], cwd=RUN)
    return ["/usr/bin/node", "--max-old-space-size=6000", out]


def plug(name, module, pkg):
    """The plugins are built inside their own modules, which must not be written to."""
    e = dict(ENV)
    e["GOFLAGS"] = "-mod=readonly"
    return gobuild(name, os.path.join(REPO, module), pkg, env=e)


def plug2(lang):
    """/repo/v2 has Rust and TypeScript generators but no main packages for them."""
    return gobuild("gen2", os.path.join(V, "adapters/gen2")) + [lang]


def b_exports():
    """Export data of what generated code may import, for go/types."""
    m = {}
    for a, lib in (("gov1", "github.com/loopholelabs/polyglot"), ("gov2", "github.com/loopholelabs/polyglot/v2")):
        out = sh(["go", "list", "-deps", "-export", "-f", "{{if .Export}}{{.ImportPath}}={{.Export}}{{end}}", lib, "errors"], cwd=os.path.join(V, "adapters", a))
        m.update(l.split("=", 1) for l in out.split("\n") if "=" in l)
    path = os.path.join(RUN, "exports.json")
    with open(path, "w") as f:
        json.dump(m, f)
    return [path]


BUILDERS = {"prop": b_prop, "gov1": b_gov1, "gov2": b_gov2, "gov1-race": lambda: race("gov1"), "gov2-race": lambda: race("gov2"),
            "gov1-32": lambda: b32("gov1"), "gov2-32": lambda: b32("gov2"), "rust-rel": lambda: b_rust(True), "c-rel": lambda: b_c(True), "go-arch32": b_arch32,
            "rust": b_rust, "c": b_c, "rsdeps": b_rsdeps, "ts": b_ts, "exports": b_exports, "tsdecl": lambda: ["/usr/bin/node", os.path.join(V, "adapters/tsdecl/decl.js")], "harness": lambda: [os.path.join(V, "harness")],
            "plug-go1": lambda: plug("plug-go1", ".", "./protoc-gen-go-polyglot"), "plug-go2": lambda: plug("plug-go2", "v2", "./protoc-gen-go-polyglot"),
            "plug-rs1": lambda: plug("plug-rs1", ".", "./protoc-gen-rs-polyglot"), "plug-ts1": lambda: plug("plug-ts1", ".", "./protoc-gen-ts-polyglot"),
            "genlib": lambda: gobuild("genlib", os.path.join(V, "adapters/genlib")),
            "genlib-race": lambda: race("genlib"),
            "plug-rs2": lambda: plug2("rs"), "plug-ts2": lambda: plug2("ts")}


def seed_for(base, part, shard):
    return int.from_bytes(hashlib.sha256(("%s/%s/%d" % (base, part, shard)).encode()).digest()[:7], "big") or 1


def known():
    """Known findings and repaired defects; only lines starting with 'finding:' suppress anything."""
    out = []
    path = os.path.join(V, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                out.append(line[len("finding:"):].strip().replace(" case=", " case=" + V + "/"))
    return out


def main():
    global RUN
    ap = argparse.ArgumentParser()
    ap.add_argument("id", help="property id, or 'setup'")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--part", default="")
    ap.add_argument("--checks", type=int, default=0)
    ap.add_argument("--no-regress", action="store_true", help="leave the regression cases out: generated ones only")
    ap.add_argument("--replay", default="", help="run one case file instead")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    os.makedirs(BIN, exist_ok=True)
    # stale run directories of killed runs
    for old in glob.glob(os.path.join(B, "run-*")):
        if time.time() - os.path.getmtime(old) > 6 * 3600:
            shutil.rmtree(old, ignore_errors=True)
    RUN = tempfile.mkdtemp(prefix="run-", dir=B)
    try:
        return setup() if a.id == "setup" else check(a, tier)
    finally:
        shutil.rmtree(RUN, ignore_errors=True)


def setup():
    with cf.ThreadPoolExecutor(8) as ex:
        for n, f in [(n, ex.submit(f)) for n, f in BUILDERS.items()]:
            f.result()
            print("built", n)
    return 0


def check(a, tier):
    prop = b_prop()
    parts = [p for p in json.loads(sh([prop[0], "-list"])) if p["Prop"] == a.id and a.part in p["Name"]]
    if not parts:
        raise Infra("no parts for " + a.id)
    if a.replay:
        rp = json.load(open(a.replay))["part"]
        parts = [p for p in parts if p["Name"] == rp] or parts[:1]
    needs = sorted({n for p in parts for n in p["Needs"] or []})
    argv = {}
    with cf.ThreadPoolExecutor(8) as ex:
        for n, f in [(n, ex.submit(BUILDERS[n])) for n in needs]:
            argv[n] = f.result()
    built = time.time() - T0
    argv["known"] = known()
    replays = os.path.join(V, "replays")
    jobs = []
    for p in parts:
        for s in range(1 if a.replay else p["Shards"]):
            jobs.append((p, s))
    # long parts first
    jobs.sort(key=lambda j: -j[0]["Weight"])

    def one(job):
        p, s = job
        name = "%s.%d" % (p["Name"], s)
        d = os.path.join(RUN, name)
        os.makedirs(d)
        rep = os.path.join(d, "report.json")
        cmd = [prop[0], "-part", p["Name"], "-seed", str(seed_for(a.seed, p["Name"], s)), "-batch", str(seed_for(a.seed, "batch", s) % 2**31), "-tier", tier, "-out", rep, "-dir", d, "-adapters", json.dumps(argv)]
        if a.checks:
            cmd += ["-checks", str(a.checks)]
        if a.replay:
            cmd += ["-replay", os.path.abspath(a.replay)]
        elif s == 0 and not a.no_regress:
            cmd += ["-corpus", os.path.join(V, "regress", p["Name"])]
        t = time.time()
        try:
            q = subprocess.run(cmd, cwd=d, env=ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=840 if tier == "quick" else 7200)
        except subprocess.TimeoutExpired:
            return {"part": p["Name"], "infra": name + " ran out of time"}
        if not os.path.exists(rep):
            return {"part": p["Name"], "infra": "%s ended with %d: %s" % (name, q.returncode, q.stdout.decode(errors="replace")[:3000])}
        r = json.load(open(rep))
        r["shard"], r["wall"] = s, time.time() - t
        return r

    with cf.ThreadPoolExecutor(8) as ex:
        reports = list(ex.map(one, jobs))

    viol = [r for r in reports if r.get("violation")]
    bad = [r for r in reports if r.get("infra")]
    shown = []
    for r in viol:
        src = r["replay"]
        if src.startswith(RUN):
            os.makedirs(replays, exist_ok=True)
            dst = os.path.join(replays, os.path.basename(src))
            shutil.copy(src, dst)
            src = dst
        shown.append((r, src))

    merged, hashes, samples = {}, {}, []
    for r in reports:
        if r.get("infra"):
            continue
        m = merged.setdefault(r["part"], {"evaluations": 0, "regression_cases": 0, "labels": {}, "rule": r.get("rule", ""), "seeds": [], "excluded": {}, "seconds": 0.0})
        m["evaluations"] += r["evaluations"]
        m["regression_cases"] += r.get("regressions", 0)
        m["seeds"].append(r.get("seed"))
        m["seconds"] = round(max(m["seconds"], r["wall"]), 1)
        for k, v in (r.get("labels") or {}).items():
            m["labels"][k] = m["labels"].get(k, 0) + v
        for k, v in (r.get("excluded") or {}).items():
            m["excluded"][k] = m["excluded"].get(k, 0) + v
        hashes.setdefault(r["part"], set()).update(r.get("hashes") or [])
        for s in (r.get("samples") or [])[:3 if r.get("shard") == 0 else 0]:
            samples.append({"part": r["part"], "case": s})
    for k, m in merged.items():
        m["distinct_nontrivial"] = len(hashes.get(k, ()))
        m["labels"] = dict(sorted(m["labels"].items(), key=lambda x: -x[1])[:60])
    findings = sorted({k for m in merged.values() for k in m["excluded"]})
    if not a.replay and not a.part:
        ev = {"property": a.id, "tier": tier, "seed": int(a.seed) if str(a.seed).lstrip("-").isdigit() else 0, "level": "exploration",
              "coverage": {"evaluations": sum(m["evaluations"] for m in merged.values()),
                           "distinct_nontrivial": sum(m["distinct_nontrivial"] for m in merged.values()),
                           "rule": "cases drawn by rapid generators (see DESIGN.md); non-trivial, per part: " + "; ".join(sorted({"%s: %s" % (k, m["rule"]) for k, m in merged.items()})),
                           "samples": samples[:24] or [{"part": "-", "case": "none"}], "parts": merged},
              "assumptions": ["the reference model in harness/ref states the wire format correctly", "the toolchains in the sandbox are correct"],
              "wall_s": round(time.time() - T0, 1), "violations": len(viol)}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", a.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    total = sum(m["evaluations"] for m in merged.values())
    print("%s: %d cases, %d distinct non-trivial, %d parts x shards, build %.1f s, total %.1f s" % (a.id, total, sum(m["distinct_nontrivial"] for m in merged.values()), len(jobs), built, time.time() - T0))
    for f in findings:
        print("KNOWN-FINDING: property=%s %s" % (a.id, f))
    for r, src in {src: (r, src) for r, src in shown}.values():
        print("  %s: %s" % (r["part"], r["violation"][:3000]))
        print("VIOLATION property=%s replay=%s" % (a.id, src))
    for r in bad:
        print("ERROR %s: %s" % (r["part"], r["infra"][:3000]), file=sys.stderr)
    if shown:
        return 1
    return 2 if bad else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Infra as e:
        print("ERROR:", e, file=sys.stderr)
        sys.exit(2)
