#!/usr/bin/env python3
"""Decides one property: runs TLC on the specification, makes it print its tables and vectors, builds
the harness against /repo's working tree, and runs it on them.

usage: check.py <property>          (VERIF_SEED, VERIF_TIER from the environment)
       check.py --setup             builds the harness
exit 0: held on everything explored; 1: VIOLATION; 2: the check itself failed
"""
import concurrent.futures as cf
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

from checks import CHECKS  # noqa: E402


class CheckError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e["CARGO_TARGET_DIR"] = os.path.join(HARNESS, "target")
    return e


def build(bins):
    """Builds binaries of the harness; returns what is wrong with the generated types, if they do not compile."""
    for package, some in (("harness", [b for b in bins if b != "codec"]), ("codec", [b for b in bins if b == "codec"])):
        if not some:
            continue
        cmd = ["cargo", "build", "--release", "--offline", "--quiet", "-p", package]
        for b in some:
            cmd += ["--bin", b]
        r = subprocess.run(cmd, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=840)
        if r.returncode == 0:
            continue
        places = set(re.findall(r"^ *--> (\S+?):", r.stdout, re.M))
        panics = "proc-macro derive panicked" in r.stdout
        # (E0277: what was derived lacks or does not meet a bound)
        bounds = set(re.findall(r"^error\[(E\d+)\]", r.stdout, re.M)) == {"E0277"}
        if package == "codec" and "codec/src/types.rs" in places and (
                panics or bounds or not any(p.startswith("codec/") and p != "codec/src/types.rs" for p in places)):
            # the code the derive macros make for types of the specification
            return r.stdout[:1500]
        raise CheckError("the harness does not build:\n" + r.stdout[-4000:])
    return None


def tlc(module, cfg, work, timeout, extra=()):
    """Runs TLC; returns (printed lines, distinct states, states generated)."""
    tag = cfg.replace(".cfg", "")
    d = os.path.join(work, "tlc_" + tag)
    os.makedirs(os.path.join(d, "tmp"))
    # TLC runs in a copy of the specification, so that nothing is written beside it
    for f in os.listdir(SPEC):
        if f.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(SPEC, f), d)
    for f in os.listdir(work):
        if f.endswith(".ndjson"):
            os.link(os.path.join(work, f), os.path.join(d, f))
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx6g", "-Djava.io.tmpdir=" + os.path.join(d, "tmp"),
           "-cp", JAR, "tlc2.TLC", "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-config", cfg]
    cmd += list(extra) + [module]
    try:
        r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC ran out of time on %s" % cfg)
    lines, other, distinct, generated = [], [], 0, 0
    for l in r.stdout.split("\n"):
        if l.startswith('"'):
            try:
                lines.append(json.loads(l))
                continue
            except ValueError:
                pass
        other.append(l)
        if " distinct states found" in l and " states generated, " in l and not l.startswith("Progress"):
            w = l.replace(",", "").split()
            generated, distinct = int(w[0]), int(w[3])
        if l.startswith("The number of states generated:"):
            generated = int(l.split(":")[1].strip().replace(",", ""))
    shutil.rmtree(d, ignore_errors=True)
    if r.returncode != 0:
        raise CheckError("TLC on %s (%s):\n%s" % (module, cfg, "\n".join(other)[-3500:]))
    return lines, distinct, generated


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_harness(prop, run, files, work, timeout):
    cases = os.path.join(work, "cases_" + run["bin"])
    os.makedirs(cases, exist_ok=True)
    cmd = [os.path.join(HARNESS, "target", "release", run["bin"]), "--prop", prop, "--seed", str(SEED),
           "--tier", TIER, "--cases", cases]
    for name in run.get("files", []):
        cmd += ["--" + name, files[name]]
    for k, v in run.get("args", {}).items():
        cmd += ["--" + k, str(v)]
    e = env()
    e["VERIF_WORK"] = work
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                           timeout=timeout, preexec_fn=limits, env=e)
    except subprocess.TimeoutExpired:
        raise CheckError("the harness ran out of time: " + " ".join(cmd))
    stats, mismatches, findings = {}, [], []
    for l in r.stdout.split("\n"):
        if l.startswith("STATS "):
            stats = json.loads(l[6:])
        elif l.startswith("MISMATCH "):
            mismatches.append(json.loads(l[9:]))
        elif l.startswith("FINDING "):
            findings.append(json.loads(l[8:]))
    if r.returncode < 0:
        # killed by a signal: stack overflow, abort, out of memory
        last = []
        for f in sorted(os.listdir(cases)):
            with open(os.path.join(cases, f), errors="replace") as h:
                last.append(h.readline()[:2000])
        mismatches.append({"property": prop, "what": "the process was killed by signal %d: %s" %
                           (-r.returncode, r.stderr.strip()[-500:]), "case": " | ".join(x for x in last if x)})
    elif r.returncode == 101 or (r.returncode not in (0, 1)) or not stats:
        raise CheckError("harness %s failed (%d):\n%s" % (run["bin"], r.returncode, (r.stdout + r.stderr)[-3000:]))
    return stats, mismatches, findings


def known_findings(prop):
    out = {}
    with open(os.path.join(ROOT, "KNOWN_FINDINGS")) as f:
        for l in f:
            w = l.split(None, 3)
            if len(w) == 4 and w[0] == "finding:" and w[1] == "property=" + prop:
                out[w[2].removeprefix("key=")] = w[3].strip()
    return out


def main():
    if sys.argv[1] == "--setup":
        bins = sorted({r["bin"] for c in CHECKS.values() for r in c["runs"]})
        build(bins)
        print("built", " ".join(bins))
        return 0
    prop = sys.argv[1]
    c = CHECKS[prop]
    start = time.time()
    budget = 6 * 3600 if THOROUGH else 800
    work = tempfile.mkdtemp(prefix="verif-" + prop + "-")
    try:
        known = known_findings(prop)
        states = generated = 0
        files, printed = {}, {}
        with cf.ThreadPoolExecutor(max_workers=5) as ex:
            b = ex.submit(build, sorted({r["bin"] for r in c["runs"]}))
            jobs = {}
            emits = {e[0]: e for e in c.get("emit", [])}
            if THOROUGH:
                emits.update({e[0]: e for e in c.get("emit_thorough", [])})
            for name, module, cfg in emits.values():
                jobs[ex.submit(tlc, module, cfg, work, budget, ["-workers", "1"])] = name
            mcs = list(c.get("mc", [])) + (list(c.get("mc_thorough", [])) if THOROUGH else [])
            for module, cfg in mcs:
                jobs[ex.submit(tlc, module, cfg, work, budget, ["-workers", "2" if not THOROUGH else "8"])] = None
            for f in cf.as_completed(jobs):
                lines, d, g = f.result()
                states += d
                generated += g
                name = jobs[f]
                if name:
                    if not lines:
                        raise CheckError("the specification printed nothing for " + name)
                    files[name] = os.path.join(work, name + ".lines")
                    printed[name] = len(lines)
                    with open(files[name], "w") as h:
                        h.write("\n".join(lines) + "\n")
            refused = b.result()
        stats, mismatches, findings = {}, [], []
        samples = []
        if refused:
            mismatches.append({"property": prop, "what": "derived types of the specification do not compile",
                               "case": refused})
        for run in c["runs"] if not refused else []:
            s, m, f = run_harness(prop, run, files, work, budget - (time.time() - start) if not THOROUGH else budget)
            mismatches += m
            findings += f
            samples += s.pop("samples", [])
            for k, v in s.items():
                stats[k] = stats.get(k, 0) + v
        traced = 0
        for post in c.get("post", []) if not refused else []:
            s, m = post(prop, work, tlc, run_harness, files, THOROUGH, SEED)
            if s is None:
                if not mismatches:
                    raise CheckError("the harness recorded nothing")
                continue
            mismatches += m
            for k, v in s.items():
                stats[k] = stats.get(k, 0) + v
            states += s.get("trace_states", 0)
        seen = set()
        for f in findings:
            if f["key"] in known:
                if f["key"] not in seen:
                    print("KNOWN-FINDING: property=%s %s" % (prop, known[f["key"]]))
                seen.add(f["key"])
            else:
                mismatches.append({"property": prop, "what": f["key"], "case": f["case"]})
        evaluations = stats.pop("evaluations", 0)
        distinct = stats.pop("distinct", 0)
        stats.pop("violations", None)
        cov = {
            "states": states,
            "transitions": generated,
            "traces_validated_against_impl": evaluations,
            "distinct_nontrivial": distinct,
            "rule": c["rule"],
            "samples": samples[:8],
            "vectors_printed_by_spec": printed,
        }
        for k, v in sorted(stats.items()):
            cov[k] = v
        ev = {
            "property": prop, "tier": TIER, "seed": SEED, "level": c.get("level", "model_checking"),
            "coverage": cov, "assumptions": c.get("assumptions", []),
            "wall_s": round(time.time() - start, 2), "violations": len(mismatches),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as h:
            json.dump(ev, h, indent=1, ensure_ascii=True)
        if mismatches:
            os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
            path = os.path.join(ROOT, "replays", "%s-%d.json" % (prop, SEED))
            with open(path, "w") as h:
                json.dump({"property": prop, "seed": SEED, "tier": TIER,
                           "rerun": "VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s" % (SEED, TIER, prop),
                           "violations": mismatches}, h, indent=1)
            for m in mismatches[:5]:
                print("  %s\n    %s" % (m["what"][:1500], m["case"][:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        print("%s: held (%d states, %d evaluations, %.1fs)" % (prop, states, evaluations, time.time() - start))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("CHECK ERROR:", e)
        sys.exit(2)
