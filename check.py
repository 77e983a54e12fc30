#!/usr/bin/env python3
"""Runs one check: builds the simulator around /repo's working tree, explores, reports.

  check.py C01            run the check of one property (tier from VERIF_TIER, seed from VERIF_SEED)
  check.py replay FILE    reproduce a violation from its replay file
  check.py setup          only build
"""
import fcntl
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "sim")
BUILD = os.path.join(HERE, ".build")
TARGET = os.path.join(BUILD, "target")
TOOL_TARGET = os.path.join(BUILD, "tool")
REPO = "/repo"
PROFILES = ("checked", "release", "plain")
EVIDENCE = os.path.join(HERE, "evidence")

with open(os.path.join(HERE, "checks.json")) as f:
    CONF = json.load(f)


def environment():
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("CARGO_PROFILE", "RUSTFLAGS", "CARGO_ENCODED", "CARGO_BUILD", "LD_PRELOAD", "RUST_BACKTRACE")):
            del env[k]
    home = env.setdefault("HOME", "/root")
    env["PATH"] = home + "/.cargo/bin:/usr/local/bin:" + env.get("PATH", "/usr/bin:/bin")
    env["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_INCREMENTAL"] = "0"
    env["CARGO_TERM_COLOR"] = "never"
    env["RUSTC_WRAPPER"] = ""
    return env


def tree_hash():
    """Contents of everything the library is built from (cargo itself goes by modification time)"""
    h = hashlib.sha256()
    for top in ("src", "libmbus_macros", "Cargo.toml", "Cargo.lock", ".cargo", "build.rs"):
        path = os.path.join(REPO, top)
        files = []
        if os.path.isfile(path):
            files = [path]
        else:
            for d, dirs, names in os.walk(path):
                dirs[:] = sorted(x for x in dirs if x != "target")
                files += [os.path.join(d, n) for n in sorted(names)]
        for name in files:
            h.update(name.encode())
            try:
                with open(name, "rb") as f:
                    h.update(hashlib.sha256(f.read()).digest())
            except OSError:
                h.update(b"?")
    return h.hexdigest()


def cargo(args, env, cwd):
    r = subprocess.run(["cargo"] + args, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def build():
    """All variants of the simulator, and the inspection tool as it ships"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        env = environment()
        stamp = os.path.join(BUILD, "stamp")
        now = tree_hash()
        try:
            with open(stamp) as f:
                before = f.read()
        except OSError:
            before = ""
        if before != now:
            if os.path.exists(stamp):
                os.remove(stamp)
            for profile in PROFILES:
                if os.path.isdir(os.path.join(TARGET, profile)):
                    cargo(["clean", "--offline", "--profile", profile, "--target-dir", TARGET,
                           "-p", "libmbus", "-p", "libmbus_macros", "-p", "mbdrive", "-p", "mbsim"], env, SIM)
            if os.path.isdir(TOOL_TARGET):
                cargo(["clean", "--offline", "--target-dir", TOOL_TARGET, "-p", "libmbus", "-p", "libmbus_macros"], env, REPO)
        jobs = []
        for profile in PROFILES:
            e = dict(env)
            e["RUSTC_WRAPPER"] = os.path.join(SIM, "rustc-wrap.sh")
            jobs.append((["build", "--offline", "--locked", "--profile", profile, "--target-dir", TARGET], e, SIM))
        jobs.append((["build", "--offline", "--locked", "--bin", "test_parse", "--target-dir", TOOL_TARGET], env, REPO))
        with ThreadPoolExecutor(len(jobs)) as pool:
            ended = list(pool.map(lambda j: cargo(*j), jobs))
        for j, (code, out) in zip(jobs, ended):
            if code != 0:
                print(out[-6000:])
                print("cannot build", " ".join(j[0]))
                return False
        shim = os.path.join(BUILD, "shim.so")
        source = os.path.join(SIM, "shim.c")
        if os.path.exists(source) and (not os.path.exists(shim) or os.path.getmtime(shim) < os.path.getmtime(source)):
            r = subprocess.run(["gcc", "-O1", "-fPIC", "-shared", "-o", shim, source, "-ldl"])
            if r.returncode != 0:
                return False
        with open(stamp, "w") as f:
            f.write(now)
    return True


def simulator(profile):
    return os.path.join(TARGET, profile, "mbsim")


def run_env(scratch):
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME")}
    env["TMPDIR"] = scratch
    env["MBSIM_TOOL"] = os.path.join(TOOL_TARGET, "debug", "test_parse")
    env["MBSIM_SHIM"] = os.path.join(BUILD, "shim.so")
    return env


def scratch_dir():
    """A directory for the files of simulated disks, in memory if possible"""
    for top in ("/dev/shm", None):
        try:
            return tempfile.TemporaryDirectory(prefix="mbsim-", dir=top, ignore_cleanup_errors=True)
        except OSError:
            pass
    raise OSError("no scratch directory")


def check(prop):
    with scratch_dir() as scratch:
        return check_in(prop, scratch)


def check_in(prop, scratch):
    t0 = time.time()
    conf = CONF["properties"][prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    print(f"{prop}: seed {seed}, {tier}", flush=True)
    if not build():
        return 2
    built = time.time()
    total = conf["runs"][tier]
    wall = CONF["wall_s"][tier]
    first = total * conf.get("checked_share", 75) // 100
    last = total - total * conf.get("plain_share", 3) // 100
    parts = [("checked", 0, first), ("release", first, last), ("plain", last, total)]
    results = []
    os.makedirs(EVIDENCE, exist_ok=True)
    code = 0
    for profile, lo, hi in parts:
        if hi <= lo:
            continue
        out = os.path.join(BUILD, f"{prop}-{profile}-{os.getpid()}.json")
        share = max(60, wall * (hi - lo) / total)
        cmd = [simulator(profile), "explore", prop, "--seed", str(seed & (2**63 - 1)), "--from", str(lo), "--to", str(hi),
               "--lanes", str(conf.get("lanes", 8)), "--wall", str(int(share)), "--profile", profile,
               "--out", out, "--replays", os.path.join(EVIDENCE, "replays")]
        r = subprocess.run(cmd, env=run_env(scratch), stdout=subprocess.PIPE, text=True)
        sys.stdout.write(r.stdout[-8000:])
        if r.returncode not in (0, 1):
            print(f"error of the check: simulator ended with {r.returncode}")
            return 2
        with open(out) as f:
            results.append(json.load(f))
        os.remove(out)
        if r.returncode == 1:
            code = 1
            break
    write_evidence(prop, conf, tier, seed, results, t0, built, code)
    if code == 1:
        print(f"VIOLATION property={prop} replay={results[-1]['replay']}")
    else:
        runs = sum(r["runs"] for r in results)
        print(f"{prop}: held in {runs} simulated runs, {time.time() - t0:.1f} s")
    return code


def write_evidence(prop, conf, tier, seed, results, t0, built, code):
    counters = {}
    for r in results:
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
    runs = sum(r["runs"] for r in results)
    sim_wall = sum(r["wall_s"] for r in results) or 1e-9
    faults = {k[len("fault: "):]: v for k, v in counters.items() if k.startswith("fault: ")}
    probes = {k: v for k, v in counters.items() if not k.startswith("fault: ")}
    samples = [s for r in results for s in r["samples"]][:4]
    if not samples:
        samples = [r["violation"] for r in results if r["violation"]]
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in results),
            "rule": conf["rule"],
            "samples": samples,
            "runs_and_seeds_per_hour": int(runs / sim_wall * 3600),
            "simulated_seconds": sum(r["sim_s"] for r in results),
            "simulator_wall_s": round(sim_wall, 2),
            "build_wall_s": round(built - t0, 2),
            "library_steps_executed": sum(r["steps"] for r in results),
            "faults_injected": faults,
            "counts": probes,
            "abstract_states_reached": max(r["states"] for r in results),
            "state_measure": conf["states"],
            "library_edges_reached": {r["profile"]: f"{r['edges_hit']} of {r['edges']}" for r in results},
            "parts": [
                {k: r[k] for k in ("profile", "from", "to", "runs", "nontrivial", "distinct", "cut_short", "digest")}
                for r in results
            ],
            "real_components": conf["real"],
            "stub_components": conf["stub"],
        },
        "assumptions": CONF["assumptions"] + conf.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if code == 1 else 0,
    }
    path = os.path.join(EVIDENCE, prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)
        f.write("\n")
    os.replace(path + ".tmp", path)


def replay(path):
    with open(path) as f:
        head = dict(l.rstrip("\n").split(" ", 1) for l in f.readlines()[:6] if " " in l)
    if not build():
        return 2
    with scratch_dir() as scratch:
        r = subprocess.run([simulator(head.get("profile", "checked")), "replay", path], env=run_env(scratch))
    if r.returncode == 1:
        print(f"VIOLATION property={head.get('property')} replay={path}")
    return r.returncode


def main():
    if len(sys.argv) == 2 and sys.argv[1] == "setup":
        return 0 if build() else 2
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        return replay(os.path.abspath(sys.argv[2]))
    if len(sys.argv) == 2 and sys.argv[1] in CONF["properties"]:
        return check(sys.argv[1])
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception as e:  # an error of the check, never a verdict
        print("error of the check:", repr(e))
        sys.exit(2)
