#!/usr/bin/env python3
"""Runs the check of one property: explores the specification with TLC, replays what TLC
emitted on the real code, writes evidence/<ID>.json.

exit 0: held on everything explored; exit 1 with a VIOLATION line: broken; exit 2: tool error."""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
import plan  # noqa: E402

TARGET = os.path.join(ROOT, "target")
TLA = "/opt/veriftools/tla"
FINDINGS = os.path.join(ROOT, "KNOWN_FINDINGS.txt")


def die(msg):
    print("TOOL-ERROR: " + msg[-6000:], flush=True)
    sys.exit(2)


def build_env(tables):
    e = dict(os.environ)
    e.update(HOME="/root", PATH="/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", ""),
             RUSTUP_TOOLCHAIN="nightly-2024-09-24", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
             CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=os.path.join(TARGET, "tables") if tables else TARGET,
             RUSTC_WRAPPER="", RUST_LOG="off",
             RUST_BACKTRACE="0", CARGO_PROFILE_DEV_OPT_LEVEL="3", CARGO_PROFILE_DEV_DEBUG="0")
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    if tables:
        e["RUSTFLAGS"] = "--cfg verif_hooks"
    return e


def harness(tables):
    return os.path.join(TARGET, "tables" if tables else "", "debug", "zkvh")


def build(tables):
    """The harness; with tables, the one that sees the inside of the proof system through the hooks in /repo."""
    t = time.time()
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"] + (["--features", "tables"] if tables else []),
                       cwd=os.path.join(ROOT, "harness"), env=build_env(tables),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(harness(tables)):
        die("the harness does not build:\n" + p.stdout)
    return time.time() - t


def known_findings(pid):
    out = set()
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            m = re.match(r"known: property=(\S+) key=(\S+) ", l)
            if m and m.group(1) == pid:
                out.add(m.group(2))
    return out


class Violation(Exception):
    pass


def run_tlc(work, unit, seed, i):
    """Returns (file with what was emitted, states, transitions, exhaustive)."""
    out = os.path.join(work, f"{unit['name']}.out")
    meta = os.path.join(work, f"meta{i}")
    env = dict(os.environ)
    env.update({k: str(v) for k, v in unit.get("env", {}).items()})
    env["OUT"] = "x"
    env["SEED"] = str(seed)
    env["WORK"] = work
    sim = unit.get("simulate")
    workers = unit.get("workers", 1 if sim else 8)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss" + unit.get("xss", "16m"), "-Xmx" + unit.get("mem", "6g"),
           "-cp", f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar", "tlc2.TLC",
           "-workers", str(workers), "-noGenerateSpecTE", "-metadir", meta]
    if sim:
        cmd += ["-simulate", f"num={sim[0]}", "-depth", str(sim[1]), "-seed", str(seed * 7919 + unit.get("salt", 0))]
    cmd += ["-config", unit["cfg"] + ".cfg", unit["module"] + ".tla"]
    with open(out, "w") as f:
        try:
            p = subprocess.run(cmd, cwd=os.path.join(ROOT, "spec"), env=env, stdout=f, stderr=subprocess.STDOUT,
                               timeout=unit.get("timeout", 1500))
        except subprocess.TimeoutExpired:
            die(f"TLC ran out of time on {unit['name']}")
    shutil.rmtree(meta, ignore_errors=True)
    gen = dist = None
    tail = []
    with open(out) as f:
        for l in f:
            if l.startswith('"'):
                continue
            tail.append(l)
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", l)
            if m:
                gen, dist = int(m.group(1)), int(m.group(2))
            m = re.match(r"The number of states generated: (\d+)", l)
            if m:
                gen = dist = int(m.group(1))
    if p.returncode != 0 or gen is None:
        die(f"TLC on {unit['name']} ended with {p.returncode}:\n" + "".join(tail)[-3000:])
    # simulation: every generated state but the initial ones is reached by one transition
    trans = gen - (sim[0] if sim else 0)
    return out, dist, max(trans, 0), not sim


def run_harness(args, seed, tier, limit, tables=False):
    env = dict(os.environ)
    env.update(VERIF_SEED=str(seed), VERIF_TIER=tier, RUST_BACKTRACE="0", RUST_LOG="off", RUST_MIN_STACK=str(256 << 20))
    try:
        p = subprocess.run([harness(tables)] + args, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=limit)
    except subprocess.TimeoutExpired:
        raise Violation(f"replaying {args[0]} did not end within {limit} s")
    res = None
    for l in p.stdout.splitlines():
        if l.startswith("RESULT "):
            res = json.loads(l[7:])
    if res is None:
        if p.returncode in (-6, -11, -4, -8):
            raise Violation(f"the code under test crashed (signal {-p.returncode}) while replaying {args[0]}: {p.stderr[-1500:]}")
        die(f"harness {args[0]} ended with {p.returncode}: {p.stderr[-3000:]}")
    return res


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    if pid == "BUILD":
        print(f"built in {build(False):.0f} s")
        try:
            print(f"built with the hooks in {build(True):.0f} s")
        except SystemExit:
            print("the checks of the tables will not run")
        return 0
    spec = plan.PLAN[pid]
    tb = build(spec.get("tables", False))
    units = spec["units"] + (spec.get("thorough", []) if tier == "thorough" else [])
    if tier == "thorough":
        units = [dict(u, **u.get("deep", {})) for u in units]
    os.makedirs(os.path.join(ROOT, "work"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + "_", dir=os.path.join(ROOT, "work"))
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, comparisons=0, units=[], samples=[])
    viols, known_hit = [], []
    known = known_findings(pid)
    try:
        def one(iu):
            i, u = iu
            if u.get("gen"):
                # deterministic program generator: chooses initial states for the specification
                g = subprocess.run([sys.executable, os.path.join(ROOT, "bin", u["gen"][0])] + [str(x) for x in u["gen"][1:]],
                                   env=dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier, WORK=work, UNIT=u["name"]),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if g.returncode != 0:
                    die("generator: " + g.stdout[-3000:])
            t = time.time()
            out, dist, trans, exh = run_tlc(work, u, seed, i)
            tt = time.time() - t
            res = []
            t = time.time()
            for r in u["replay"]:
                args = [r[0], out] + [str(x).replace("$WORK", work) for x in r[1:]]
                try:
                    res.append((r[0], run_harness(args, seed, tier, u.get("limit", 420), spec.get("tables", False))))
                except Violation as v:
                    res.append((r[0], {"traces": 0, "checks": 0, "samples": [], "violations": [{"what": str(v), "case": args}]}))
            if os.path.exists(out):
                os.remove(out)
            return u, dist, trans, exh, tt, time.time() - t, res
        par = [u for u in units if u.get("simulate") or u.get("workers") == 1]
        ser = [u for u in units if u not in par]
        results = []
        with concurrent.futures.ThreadPoolExecutor(max_workers=6) as ex:
            futs = [ex.submit(one, (100 + i, u)) for i, u in enumerate(par)]
            for i, u in enumerate(ser):
                results.append(one((i, u)))
            results += [f.result() for f in futs]
        for u, dist, trans, exh, tt, th, res in results:
            cov["states"] += dist
            cov["transitions"] += trans
            cov["units"].append(dict(model=u["module"], config=u["cfg"], states=dist, transitions=trans, exhaustive=exh,
                                     tlc_s=round(tt, 1), replay_s=round(th, 1),
                                     replays={n: {k: v for k, v in r.items() if k not in ("samples", "violations")} for n, r in res}))
            for n, r in res:
                cov["traces_validated_against_impl"] += r["traces"]
                cov["comparisons"] += r["checks"]
                cov["samples"] += r["samples"][:2]
                if r["traces"] < u.get("min_traces", 1) and not r["violations"]:
                    die(f"{n} replayed only {r['traces']} traces of {u['name']}")
                for v in r["violations"]:
                    if v.get("key") in known:
                        known_hit.append(v)
                    else:
                        viols.append(dict(v, unit=u["name"], replay=n))
        cov["exhaustive"] = all(r[3] for r in results)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    cov["samples"] = cov["samples"][:4]
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=spec.get("assumptions", plan.COMMON_ASSUMPTIONS), wall_s=round(time.time() - t0, 1), violations=len(viols))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    seen = set()
    for v in known_hit:
        if v["key"] not in seen:
            seen.add(v["key"])
            print(f"KNOWN-FINDING: property={pid} {v['key']} {str(v['what'])[:300]}")
    print(f"{pid}: {cov['states']} states, {cov['transitions']} transitions, {cov['traces_validated_against_impl']} traces replayed, "
          f"{cov['comparisons']} comparisons, build {tb:.0f} s, total {time.time() - t0:.0f} s")
    if viols:
        rp = os.path.join(ROOT, "evidence", f"{pid}.violation.json")
        with open(rp, "w") as f:
            json.dump(viols[:20], f, indent=1)
        for v in viols[:3]:
            print(f"  [{v['unit']}/{v['replay']}] {str(v['what'])[:700]}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
