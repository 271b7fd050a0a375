#!/usr/bin/env python3
"""check.py ID [quick|thorough]: builds the monitors against /repo's working tree, runs the workloads of
one property on all cores, judges what was observed and writes evidence/ID.json.

exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: no verdict."""
import hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MON_REPO", "/repo")
MON = os.environ.get("MON_DIR", os.path.join(HERE, "mon"))
TARGET = os.environ.get("MON_TARGET", os.path.join(HERE, "target"))
EVID = os.environ.get("MON_EVIDENCE", os.path.join(HERE, "evidence"))
NPROC = int(os.environ.get("MON_WORKERS", "8"))
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP, signal.SIGSYS}
HANG = {signal.SIGPROF}  # per-case CPU-time budget used up

sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS, VARIANTS  # noqa: E402


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def env_for(variant):
    e = dict(os.environ)
    e.update(HOME="/root", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUST_BACKTRACE="0",
             PATH="/root/.cargo/bin:" + os.environ.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"))
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(VARIANTS[variant].get("env", {}))
    return e


def build(variant):
    v = VARIANTS[variant]
    tdir = os.path.join(TARGET, variant)
    cmd = ["cargo", "build", "--release", "--offline", "--manifest-path", os.path.join(MON, "Cargo.toml"), "--target-dir", tdir] + v.get("args", [])
    p = subprocess.run(cmd, env=env_for(variant), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if p.returncode != 0:
        log(p.stdout[-6000:])
        log("BUILD-FAILED variant", variant)
        sys.exit(2)
    exe = os.path.join(tdir, *v.get("sub", []), "release", "mon")
    return exe


def replay(exe, env, prop, case, extra, timeout=200):
    """(returncode, output); None when it did not finish"""
    try:
        p = subprocess.run([exe, prop, "--replay", case] + extra, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as t:
        return None, (t.stdout or b"").decode(errors="replace")


def known_list():
    out = {}
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                f = dict(x.split("=", 1) for x in line.split() if x.startswith(("property=", "key=")))
                out[f["key"]] = (f["property"], line.split("key=" + f["key"], 1)[1].strip())
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = CHECKS[prop]
    t0 = time.time()
    known = {k: v for k, v in known_list().items() if v[0] == prop}
    scratch = tempfile.mkdtemp(prefix="mon-%s-" % prop)
    try:
        run(prop, tier, seed, c, t0, known, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(prop, tier, seed, c, t0, known, scratch):
    secs_total = float(os.environ.get("MON_SECS", c["secs"][tier]))
    plan = c.get("variants", [("plain", 1.0)])
    with ThreadPoolExecutor() as ex:
        exes = dict(zip([v for v, _ in plan], ex.map(build, [v for v, _ in plan])))
    log("built in %.1fs" % (time.time() - t0))
    reports, violations, inconclusive = [], [], []
    for variant, share in plan:
        exe, env = exes[variant], env_for(variant)
        env.update(VARIANTS[variant].get("run_env", {}))
        secs = secs_total * share
        nproc = min(NPROC, VARIANTS[variant].get("workers", NPROC))
        procs = []
        for w in range(nproc):
            out = os.path.join(scratch, "%s-%d.json" % (variant, w))
            errf = open(out + ".err", "wb")
            a = [exe, prop, "--seed", str(seed), "--secs", "%.2f" % secs, "--worker", str(w), "--nworkers", str(nproc), "--tier", tier, "--out", out,
                 "--variant", variant, "--known", ",".join(known)]
            procs.append((w, out, subprocess.Popen(a, env=env, stdout=errf, stderr=errf, cwd=scratch, preexec_fn=os.setsid)))
        limit = time.time() + secs + 240
        for w, out, p in procs:
            try:
                p.wait(max(1, limit - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                inconclusive.append("%s worker %d: watchdog" % (variant, w))
                continue
            err = open(out + ".err", errors="replace").read()
            cur = open(out + ".cur").read().strip() if os.path.exists(out + ".cur") else "?"
            rc = p.returncode
            if rc == 0 and os.path.exists(out):
                r = json.load(open(out))
                r["variant"] = variant
                reports.append(r)
                for v in r["violations"]:
                    violations.append(dict(v, variant=variant))
            elif rc < 0 and (-rc in CRASH or -rc in HANG):
                if "memory allocation of" in err or "OUT-OF-MEMORY" in err:
                    inconclusive.append("%s worker %d: out of memory" % (variant, w))
                    continue
                rr, txt = replay(exe, env, prop, cur, ["--tier", tier, "--variant", variant, "--known", ",".join(known)])
                again = rr is not None and rr != 0 and rr != 70
                if -rc in HANG and not again:
                    inconclusive.append("%s worker %d: CPU budget used up in %s, not reproduced" % (variant, w, cur))
                    continue
                violations.append({"case": cur, "variant": variant, "reproduced": again,
                                   "message": "the process died with signal %d (%s)" % (-rc, "endless execution" if -rc in HANG else "crash") + " " + (err + txt)[-1500:]})
            elif rc in VARIANTS[variant].get("report_rc", []):
                violations.append({"case": cur, "variant": variant, "message": "sanitizer report: " + err[:3000]})
            else:
                inconclusive.append("%s worker %d: exit %s in %s: %s" % (variant, w, rc, cur, err[-1500:]))
    # every reported failure is replayed once more in a process of its own
    confirmed = []
    for v in violations[:8]:
        if "reproduced" not in v and ":" in v["case"]:
            env = env_for(v["variant"])
            env.update(VARIANTS[v["variant"]].get("run_env", {}))
            rr, txt = replay(exes[v["variant"]], env, prop, v["case"], ["--tier", tier, "--variant", v["variant"], "--known", ",".join(known)])
            v["reproduced"] = rr is not None and rr != 0
            v["replay_output"] = txt[-2000:]
        confirmed.append(v)
    stats, distinct, samples, evals, notes, seen_known = {}, set(), [], 0, [], set()
    by_variant = {}
    for r in reports:
        evals += r["evals"]
        by_variant[r["variant"]] = by_variant.get(r["variant"], 0) + r["evals"]
        distinct.update(r["distinct"])
        for k, v in r["stats"].items():
            stats[k] = max(stats.get(k, 0), v) if k.startswith("max:") else stats.get(k, 0) + v
        if len(samples) < 3:
            samples.extend(r["samples"][:1])
        notes.extend(n for n in r["notes"] if n not in notes)
        seen_known.update(r["known"])
    os.makedirs(EVID, exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": c["rule"], "samples": samples,
                       "observed": dict(sorted(stats.items())), "workers": NPROC, "cases_by_build": by_variant, "inconclusive": inconclusive, "notes": notes,
                       "known_findings_seen": sorted(seen_known)},
          "assumptions": c.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k][1]))
    if confirmed:
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        for v in confirmed:
            h = hashlib.sha1((v["case"] + v["variant"]).encode()).hexdigest()[:10]
            path = os.path.join(d, "%s-%s.json" % (prop, h))
            v.update(property=prop, tier=tier, seed=seed,
                     how="cd /verif && python3 check.py %s (or: target/%s/.../mon %s --replay %s)" % (prop, v["variant"], prop, v["case"]))
            json.dump(v, open(path, "w"), indent=1)
            log("  ", v["case"], v["message"][:600])
        for v in confirmed[:1]:
            h = hashlib.sha1((v["case"] + v["variant"]).encode()).hexdigest()[:10]
            print("VIOLATION property=%s replay=%s" % (prop, os.path.join(d, "%s-%s.json" % (prop, h))))
        sys.exit(1)
    need = c.get("min_evals", 1)
    if inconclusive or evals < need or not distinct:
        log("INCONCLUSIVE", prop, "evaluations", evals, inconclusive)
        # a few lost workers do not undo what the others observed
        if len(inconclusive) > 2 or evals < need or not distinct:
            sys.exit(2)
    print("held: property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.0fs" % (prop, tier, seed, evals, len(distinct), time.time() - t0))
    sys.exit(0)


main()
