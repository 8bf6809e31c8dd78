#!/usr/bin/env python3
"""check.py PID [quick|thorough]: decides one property by symbolic execution of the real code.

build posy + harness to LLVM bitcode -> link on demand, stub panics, simplify (vsym prep) -> explore
symbolically (vsym run) -> replay every violation on the natively compiled code -> evidence.
exit 0: held within the bounds; exit 1: VIOLATION; anything else: the check itself could not decide."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
H = V + "/harness"
B = V + "/build"
REPO = "/repo"
T0 = time.time()


def die(msg, code=2):
    print("CHECK-ERROR:", msg, flush=True)
    sys.exit(code)


def sh(cmd, env=None, cwd=None, timeout=None, out=None):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, env=e, cwd=cwd, timeout=timeout, stdout=out or subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build_engine(res):
    r = sh(["bash", V + "/vsym/build.sh", B + "/engine"])
    g = sh(["gcc", "-O1", "-w", "-rdynamic", "-o", B + "/runner", H + "/runner.c", "-ldl", "-lpthread"])
    res["engine"] = (r.returncode or g.returncode, r.stdout + g.stdout)


def build_bitcode(pid, out):
    tgt = B + "/target"
    shutil.copy(REPO + "/Cargo.lock", H + "/Cargo.lock")
    os.chmod(H + "/Cargo.lock", 0o644)
    env = {
        "POSY_VERIF_ROOT": "%s/roots/%s.rs" % (H, pid),
        "RUSTUP_TOOLCHAIN": "1.70",
        "CARGO_TARGET_DIR": tgt,
        "RUSTFLAGS": "--cfg posy_verif -C embed-bitcode=yes -Awarnings",
        "CARGO_NET_OFFLINE": "true",
        "CARGO_TERM_COLOR": "never",
        "CARGO_INCREMENTAL": "0",
    }
    for k in ("RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        os.environ.pop(k, None)
    r = sh(["cargo", "rustc", "--release", "--offline", "--lib", "--", "--emit=llvm-bc,link"], env=env, cwd=H)
    if r.returncode:
        return r.stdout[-6000:]
    shutil.copy(tgt + "/release/deps/posy_sym.bc", out + "/posy.bc")
    shutil.copy(tgt + "/release/deps/libposy_sym.so", out + "/libposy.so")
    sysroot = sh(["rustc", "--print", "sysroot"], env=env, cwd=H).stdout.strip()
    libs = []
    for d in (tgt + "/release/deps", sysroot + "/lib/rustlib/x86_64-unknown-linux-gnu/lib"):
        libs += sorted(d + "/" + f for f in os.listdir(d) if f.endswith(".rlib"))
    open(out + "/rlibs", "w").write("\n".join(libs) + "\n")
    return None


def native(out, entry, cases):
    """cases: [(inputs, params)] -> list of list of output lines"""
    f = out + "/cases-%d" % threading.get_ident()
    with open(f, "w") as fh:
        for inputs, params in cases:
            fh.write("case\n")
            for k, v in params.items():
                fh.write("param %s %d\n" % (k, v))
            for _, h in inputs:
                if h:
                    fh.write("in %s\n" % h)
            fh.write("end\n")
    scratch = out + "/scratch-%d" % threading.get_ident()
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    try:
        r = sh([B + "/runner", out + "/libposy.so", entry, f], cwd=scratch, env={"VSYM_SCRATCH": scratch}, timeout=60 + 21 * len(cases))
    except subprocess.TimeoutExpired:
        return None, "timeout"
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    res, cur = [], None
    for l in r.stdout.splitlines():
        if l.startswith("CASE "):
            cur = []
            res.append(cur)
        elif cur is not None:
            cur.append(l)
    if len(res) != len(cases):
        return None, r.stdout[-2000:]
    return res, None


def reproduces(v, lines):
    if v["kind"] == "assert":
        return ("FAIL " + v["id"]) in lines
    if v["kind"] in ("panic", "abort"):
        return "PANIC" in lines
    if v["kind"] == "deadlock":
        return "DEADLOCK" in lines
    # memory errors / undefined behaviour / runaway loops: any abnormal end counts
    return any(l in ("PANIC", "CRASH", "DEADLOCK", "TIMEOUT") or l.startswith("SIGNAL") for l in lines)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.path.insert(0, V)
    from plan import PLAN

    plan = PLAN[pid]
    os.makedirs(B, exist_ok=True)
    out = "%s/%s-%s" % (B, pid, tier)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    ev_path = "%s/evidence/%s.json" % (V, pid)
    os.makedirs(V + "/evidence", exist_ok=True)
    if os.path.exists(ev_path):
        os.remove(ev_path)

    lock = open(B + "/.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    res = {}
    th = threading.Thread(target=build_engine, args=(res,))
    th.start()
    err = build_bitcode(pid, out)
    th.join()
    fcntl.flock(lock, fcntl.LOCK_UN)
    if res["engine"][0]:
        die("engine build failed:\n" + res["engine"][1][-4000:])
    if err:
        die("harness build failed (does the code under test still compile, with the same crate-public names?):\n" + err)
    vsym = B + "/engine/vsym"
    st = sh([vsym, "selftest", str(seed)])
    if st.returncode:
        die("engine self test failed: " + st.stdout[-2000:])
    entries = plan["entries"]
    fns = sorted({e["fn"] for e in entries})
    r = sh([vsym, "prep", out + "/posy.bc", out + "/p.bc", "--rlibs", out + "/rlibs", "--entries", ",".join(fns), "--stubs", H + "/stubs.txt"])
    if r.returncode:
        die("prep failed: " + r.stdout[-3000:])
    t_build = time.time() - T0
    print("build %.1fs; %s" % (t_build, r.stdout.strip().splitlines()[-1] if r.stdout.strip() else ""), flush=True)

    known = {}
    kf = V + "/known_findings.jsonl"
    if os.path.exists(kf):
        for l in open(kf):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d["property"] == pid and d.get("status") == "known":
                    known[d["id"]] = d

    budget = plan.get("time", {}).get(tier, 150 if tier == "quick" else 2400)
    deadline = time.time() + budget
    tot = {}
    runs_done, bounds, functions, samples_all, events = [], {}, {}, [], {}
    violations, known_hit, problems = [], set(), []
    validated = mismatched = 0
    entry_ok = {}
    reach_all = {}
    # smallest bound of every entry first, then the next one of each, and so on
    sched, stopped = [], set()
    ladders = [list(e["runs"]) + (list(e.get("thorough", [])) if tier == "thorough" else []) for e in entries]
    for i in range(max(len(l) for l in ladders)):
        sched += [(e, i, l[i]) for e, l in zip(entries, ladders) if i < len(l)]
    sched.sort(key=lambda x: 0 if x[1] < x[0].get("min", 1) else x[1])
    for e, i, params in sched:
        if True:
            name = e.get("key", e["fn"])
            if name in stopped:
                continue
            if tier == "quick" and time.time() - T0 > 90 and any(v["reproduced"] for v in violations):
                break  # a violation is reported anyway
            left = deadline - time.time()
            first = i < e.get("min", 1)
            if left < 3 and not first:
                continue
            share = max(min(left, e.get("cap", 1e9)), 240 if first else 10)
            p = dict(params)
            for k in known:
                p["known_" + k] = 1
            od = out + "/run"
            shutil.rmtree(od, ignore_errors=True)
            os.makedirs(od)
            cmd = [vsym, "run", out + "/p.bc", "--entry", e["fn"], "--out", od, "--jobs", "8", "--time", str(int(share))]
            for k, v in p.items():
                cmd += ["--param", "%s=%d" % (k, v)]
            t1 = time.time()
            for attempt in (0, 1):
                try:
                    r = sh(cmd, timeout=share + 60)
                    rc, log = r.returncode, r.stdout
                except subprocess.TimeoutExpired:
                    rc, log = -1, "hard timeout"
                rj = od + "/result.json"
                d = json.load(open(rj)) if os.path.exists(rj) else None
                if d is not None and not (d.get("error") or "").startswith("worker died"):
                    break
                if log != "hard timeout":
                    print("  engine process died, running again: " + log[-1500:], flush=True)
            if d is None or d.get("error"):
                problems.append("%s %s: engine error %s" % (e["fn"], params, (d or {}).get("error") or log[-600:]))
                if d is None or not d["violations"]:
                    print("  %-22s %-24s ENGINE ERROR %s" % (e["fn"], params, ((d or {}).get("error") or log[-300:])), flush=True)
                    stopped.add(name)
                    continue
            for k, v in d["stats"].items():
                tot[k] = tot.get(k, 0) + v
            for f, c in d["functions"].items():
                functions[f] = functions.get(f, 0) + c
            for k, c in d["reach"].items():
                reach_all.setdefault(name, {}).setdefault(k, 0)
                reach_all[name][k] += c
                if k.startswith("known:"):
                    known_hit.add(k[6:])
            for k, c in d.get("events", {}).items():
                events[k] = events.get(k, 0) + c
            print("  %-22s %-24s paths %-7d queries %-6d %.1fs%s%s" % (e["fn"], params, d["stats"]["paths"], d["stats"]["smt"], time.time() - t1, " INCOMPLETE " + d["incomplete"] if d["incomplete"] else "", " violations %s" % d["violation_counts"] if d["violations"] else ""), flush=True)
            # the engine is checked against the compiled code: same inputs, same logged observations
            smp = [s for s in d["samples"] if s.get("end") in ("return", "end")][: plan.get("validate", 12)]
            if smp and e.get("native", True):
                got, why = native(out, e["fn"], [(s["inputs"], p) for s in smp])
                if got is None:
                    problems.append("native replay of samples failed: " + why)
                else:
                    for s, lines in zip(smp, got):
                        want = ["LOG %s %d" % (t, v) for t, v in s["log"]]
                        have = [l for l in lines if l.startswith("LOG ")]
                        okend = any(l in ("RETURN", "END") for l in lines) and not any(l.startswith(("FAIL", "PANIC", "CRASH", "SIGNAL", "ASSUME", "UNDERRUN")) for l in lines)
                        if want == have and okend:
                            validated += 1
                        else:
                            mismatched += 1
                            json.dump({"entry": e["fn"], "params": p, "sample": s, "native": lines}, open(out + "/mismatch-%d.json" % mismatched, "w"), indent=1)
            if len(samples_all) < 40:
                samples_all += [{"entry": e["fn"], "params": params, "inputs": s["inputs"], "observed": s["log"][:20]} for s in smp[:4]]
            for v in d["violations"]:
                v["params"] = p
                if e.get("native", True):
                    got, why = native(out, e["fn"], [(v["inputs"], p)])
                    v["native"] = got[0] if got else [why]
                    v["reproduced"] = bool(got) and reproduces(v, got[0])
                else:
                    v["reproduced"] = True
                    v["native"] = ["not replayed: " + e["native_why"]]
                violations.append(v)
            if d["incomplete"] or d.get("error"):
                if not d["violations"]:
                    runs_done.append({"entry": e["fn"], "params": params, "complete": False, "paths": d["stats"]["paths"], "why": d["incomplete"] or d.get("error")})
                    stopped.add(name)
            else:
                entry_ok[name] = entry_ok.get(name, 0) + 1
                bounds[name] = params
                runs_done.append({"entry": e["fn"], "params": params, "complete": True, "paths": d["stats"]["paths"]})
            if d["violations"]:
                stopped.add(name)
        if any(v["reproduced"] for v in violations) and tier == "quick":
            break
    # -------------------------------------------------------------- verdict
    real = [v for v in violations if v["reproduced"]]
    ghost = [v for v in violations if not v["reproduced"]]
    rp = None
    if real:
        os.makedirs(B + "/replay", exist_ok=True)
        rp = "%s/replay/%s-%s.json" % (B, pid, tier)
        json.dump(real, open(rp, "w"), indent=1)
    for e in entries:
        name = e.get("key", e["fn"])
        if not real and entry_ok.get(name, 0) < e.get("min", 1):
            problems.append("%s: smallest bound not completed" % name)
        if not real:
            for w in e.get("reach", []):
                if not reach_all.get(name, {}).get(w):
                    problems.append("%s: witness %r never reached (vacuous)" % (name, w))
    if mismatched:
        problems.append("%d sampled paths behave differently in the compiled code (see %s/mismatch-*.json)" % (mismatched, out))
    posyf = {f: c for f, c in functions.items() if f.startswith("posy") or "posy" in f}
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": plan.get("level", "model_checking"),
        "coverage": {
            "states": int(tot.get("paths", 0)),
            "transitions": int(tot.get("forks", 0)),
            "traces_validated_against_impl": validated,
            "samples": samples_all[:30],
            "instructions_executed": int(tot.get("steps", 0)),
            "bounds": plan["bounds"],
            "outside_the_bounds": plan.get("outside", ""),
            "bounds_reached": bounds,
            "runs": runs_done,
            "functions_encoded": sorted(f for f, _ in sorted(posyf.items(), key=lambda x: -x[1])[:150]),
            "functions_encoded_total": len(functions),
            "queries_discharged": int(tot.get("smt", 0)),
            "queries_sat": int(tot.get("smtSat", 0)),
            "queries_unsat": int(tot.get("smtUnsat", 0)),
            "solver_time_s": round(tot.get("smtTime", 0), 2),
            "decided_by_byte_domains": int(tot.get("domDec", 0)),
            "domain_decisions_cross_checked_with_solver": int(tot.get("xcheck", 0)),
            "assertions_evaluated": int(tot.get("asserts", 0)),
            "assertions_symbolic": int(tot.get("assertsSym", 0)),
            "witnesses_reached": reach_all,
            "events": events,
        },
        "assumptions": plan.get("assumptions", []) + COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - T0, 1),
        "violations": len(real),
    }
    ev["coverage"]["violations_detail"] = [{"id": v["kind"] + ": " + v["id"], "entry": v["entry"], "params": v["params"], "inputs": v["inputs"], "replay": rp} for v in real]
    json.dump(ev, open(ev_path, "w"), indent=1)
    for k in sorted(known_hit):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]["what"] if k in known else k))
    if real:
        for v in real[:6]:
            print("  %s: %s\n    inputs %s\n    at %s" % (v["kind"], v["id"], json.dumps([[n, printable(h)] for n, h in v["inputs"]])[:600], " < ".join(v["stack"][:5])[:400]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    if ghost:
        json.dump(ghost, open(out + "/unreproduced.json", "w"), indent=1)
        die("%d solver counterexamples do not reproduce on the compiled code: %s" % (len(ghost), ghost[0]["id"]), 3)
    if problems:
        for p in problems:
            print("CHECK-ERROR:", p)
        sys.exit(2)
    print("OK property=%s paths=%d queries=%d validated=%d bounds=%s %.1fs" % (pid, tot.get("paths", 0), tot.get("smt", 0), validated, json.dumps(bounds), time.time() - T0))
    if not os.environ.get("VSYM_KEEP"):
        shutil.rmtree(out, ignore_errors=True)
    sys.exit(0)


def printable(h):
    b = bytes.fromhex(h)
    return b.decode("ascii") if all(32 <= c < 127 for c in b) else h


COMMON_ASSUMPTIONS = [
    "rustc 1.70 front end and LLVM 18 simplification passes preserve the semantics of the code; the executor implements LLVM IR faithfully (cross-checked per run by replaying sampled paths natively)",
    "memory allocation never fails; freed memory is not reused (use-after-free is not looked for: posy is safe Rust)",
    "std containers may see any hash values (hashing is stubbed to a constant); error messages are not formatted (eyre stand-in)",
]
if __name__ == "__main__":
    main()
