#!/usr/bin/env python3
"""Driver of the deterministic-simulation checks.

  run_check.py PROP [quick|thorough]      build, explore seeds, gate, minimise, report
  run_check.py --replay FILE              re-execute a replay file (prints its event log)

Environment: VERIF_SEED (base seed), VERIF_TIER, CHECK_SECONDS (exploration time), CHECK_JOBS.
"""
import json, os, re, subprocess, sys, time, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.environ.get("SIM_BUILD", os.path.join(HERE, "build"))
REPLAYS = os.path.join(HERE, "replays")
JOBS = int(os.environ.get("CHECK_JOBS", "8"))
sys.path.insert(0, os.path.join(HERE, "tools"))
import meta


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(prop):
    r = sh(["bash", os.path.join(HERE, "sim", "build.sh"), BUILD, prop])
    if r.returncode != 0:
        print("build failed for", prop); print(r.stdout[-4000:]); sys.exit(2)
    return os.path.join(BUILD, "sim_" + prop)


def execute(binary, text, tag):
    d = os.path.join(BUILD, "tmp"); os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "%s_%d_%s.plan" % (os.path.basename(binary), os.getpid(), tag))
    with open(f, "w") as h: h.write(text)
    try:
        r = subprocess.run([binary, "exec", f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=400)
        return json.loads(r.stdout.strip().splitlines()[-1])
    except Exception as e:
        return {"status": "ERROR", "cls": "", "msg": str(e), "hash": "", "ticks": 0, "words": 0}
    finally:
        try: os.unlink(f)
        except OSError: pass


# ------------------------------------------------------------------ minimisation
def shrink_int(s):
    try: v = int(s)
    except ValueError: return []
    out = []
    for c in (0, 1, -1, 2, v // 2, v - (1 if v > 0 else -1), abs(v)):
        if abs(c) < abs(v) or (c == -v and v < 0):
            if str(c) not in out: out.append(str(c))
    return out


def field_variants(key, f):
    """Simpler values for one field, most aggressive first."""
    out = []
    if ";" in f and key.startswith("draws"):
        seg = f.split(";")
        out.append(seg[0])
        for i in range(1, len(seg)): out.append(";".join(seg[:i] + seg[i + 1:]))
        for i in range(1, len(seg)):
            w = seg[i].split(",")
            if len(w) == 3:
                for j in (1, 2):
                    for v in shrink_int(w[j])[:4]:
                        w2 = list(w); w2[j] = v
                        out.append(";".join(seg[:i] + [",".join(w2)] + seg[i + 1:]))
        return out
    if "@" in f:
        if ";" in f:
            parts = f.split(";")
            for i in range(len(parts)):
                out.append(";".join(parts[:i] + parts[i + 1:]))
            for i in range(len(parts)):
                for v in field_variants(key, parts[i])[:12]: out.append(";".join(parts[:i] + [v] + parts[i + 1:]))
            return out
        terms = f.split(",")
        if len(terms) > 1:
            h = len(terms) // 2
            out += [",".join(terms[:h]), ",".join(terms[h:])]
            for i in range(len(terms)): out.append(",".join(terms[:i] + terms[i + 1:]))
        for i, t in enumerate(terms):
            c, _, m = t.partition("@")
            for v in shrink_int(c):
                if v != "0": out.append(",".join(terms[:i] + [v + "@" + m] + terms[i + 1:]))
            es = m.split(".")
            for k, e in enumerate(es):
                for v in shrink_int(e)[:2]:
                    es2 = es[:k] + [v] + es[k + 1:]
                    out.append(",".join(terms[:i] + [c + "@" + ".".join(es2)] + terms[i + 1:]))
        return out
    if re.fullmatch(r"-?\d+", f): return shrink_int(f)
    if re.fullmatch(r"-?\d+(,-?\d+)+", f):
        w = f.split(",")
        for i in range(len(w)): out.append(",".join(w[:i] + w[i + 1:]))
        for i in range(len(w)):
            for v in shrink_int(w[i])[:3]: out.append(",".join(w[:i] + [v] + w[i + 1:]))
    return out


def minimise(binary, text, cls, budget):
    t0 = time.time(); best = [l for l in text.split("\n") if l and not l.startswith("#")]
    tried = set(); n = 0
    pool = ThreadPoolExecutor(JOBS)

    def test_many(cands):
        """first candidate that still fails in the same class, or None"""
        nonlocal n
        cands = [c for c in cands if tuple(c) not in tried]
        for i in range(0, len(cands), JOBS):
            if time.time() - t0 > budget: return None
            ch = cands[i:i + JOBS]
            for c in ch: tried.add(tuple(c))
            rs = list(pool.map(lambda kc: execute(binary, "\n".join(kc[1]) + "\n", "m%d" % kc[0]), list(enumerate(ch))))
            n += len(ch)
            for c, r in zip(ch, rs):
                if r["status"] == "FAIL" and r["cls"] == cls: return c
        return None

    changed = True
    while changed and time.time() - t0 < budget:
        changed = False
        # drop blocks of lines, then single lines
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() - t0 < budget:
            ops = [i for i, l in enumerate(best)]
            c = test_many([best[:i] + best[i + size:] for i in range(0, len(ops), size)])
            if c is not None: best = c; changed = True; size = min(size, max(1, len(best) // 2))
            else: size //= 2
        # simplify fields
        progress = True
        while progress and time.time() - t0 < budget:
            progress = False
            cands = []
            for i, l in enumerate(best):
                p = l.split("|")
                for k in range(1, len(p)):
                    for v in field_variants(p[0], p[k]):
                        cands.append(best[:i] + ["|".join(p[:k] + [v] + p[k + 1:])] + best[i + 1:])
            c = test_many(cands[:400])
            if c is not None: best = c; changed = True; progress = True
    pool.shutdown()
    return "\n".join(best) + "\n", n


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) plan=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        f = sys.argv[2]; text = open(f).read()
        prop = re.search(r"^# property=(\S+)", text, re.M).group(1)
        b = build(prop)
        r = subprocess.run([b, "exec", f, "-v"], stdout=subprocess.PIPE, text=True).stdout
        print(r)
        j = json.loads(r.strip().splitlines()[-1])
        sys.exit(1 if j["status"] == "FAIL" else 0)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    info = meta.INFO[prop]
    secs = float(os.environ.get("CHECK_SECONDS", info["quick_s"] if tier == "quick" else info["thorough_s"]))
    t0 = time.time()
    binary = build(prop)
    tb = time.time() - t0
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "tmp"), exist_ok=True)
    print("check %s tier=%s seed=%d build=%.1fs exploring %.0fs with %d workers" % (prop, tier, seed, tb, secs, JOBS), flush=True)

    fails = []      # (plan text, origin, cls, msg)
    known_plans = {os.path.normpath(os.path.join(HERE, p)): what for p, what in known_findings(prop)}
    # regression corpus: plans of past failures and hand-made probes, always run first
    cdir = os.path.join(HERE, "corpus", prop); ncorpus = 0
    known_hit = []
    if os.path.isdir(cdir):
        files = sorted(os.listdir(cdir))
        with ThreadPoolExecutor(JOBS) as pool:
            rs = list(pool.map(lambda f: execute(binary, open(os.path.join(cdir, f)).read(), "c_" + f), files))
        for f, r in zip(files, rs):
            ncorpus += 1
            full = os.path.normpath(os.path.join(cdir, f))
            if r["status"] == "FAIL":
                if full in known_plans: known_hit.append(known_plans[full])
                else: fails.append((open(full).read(), "corpus/" + f, r["cls"], r["msg"]))
    # seeded search
    te = time.time(); procs = []
    for w in range(JOBS):
        out = os.path.join(BUILD, "tmp", "batch_%s_%d_%d.json" % (prop, os.getpid(), w))
        cmd = [binary, "batch", str(seed), str(w), str(JOBS), str(info.get("max_runs", 10**9)), str(secs), out, tier]
        procs.append((subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True), out, w))
    stats = []
    for p, out, w in procs:
        err = p.communicate()[1]
        if err.strip(): print(err.strip()[:800])
        if p.returncode != 0 or not os.path.exists(out):
            print("worker %d ended with %s" % (w, p.returncode)); sys.exit(2)
        stats.append(json.load(open(out))); os.unlink(out)
    explore_s = time.time() - te
    tot = lambda k: sum(s[k] for s in stats)
    counts = {}
    for s in stats:
        for k, v in s["counts"].items(): counts[k] = counts.get(k, 0) + v
    sigs = set(); sites = set(); cov = 0
    for s in stats:
        sigs |= set(s["sigs"]); sites |= set(s["sites"]); cov |= int(s["cov"] or "0", 16)
    samples = [x for s in stats for x in s["samples"]][:6]
    for s in stats:
        for f in s["fails"]:
            r = subprocess.run([binary, "gen", str(seed), str(f["index"]), tier], stdout=subprocess.PIPE, text=True)
            fails.append((r.stdout, "seed %d run %d" % (seed, f["index"]), f["cls"], f["msg"]))
    # determinism: re-run a sample of the runs in fresh processes
    sample_idx = [h for s in stats for h in s["hashes"][:info.get("determinism", 6)]]
    def rerun(h):
        t = subprocess.run([binary, "gen", str(seed), str(h[0]), tier], stdout=subprocess.PIPE, text=True).stdout
        return execute(binary, t, "d%d" % h[0])["hash"] == h[1]
    with ThreadPoolExecutor(JOBS) as pool: same = list(pool.map(rerun, sample_idx))
    diverged = [h[0] for h, ok in zip(sample_idx, same) if not ok]
    if diverged: print("WARNING: runs that did not repeat exactly:", diverged[:10])

    # gate, minimise, report: one report per failure class
    violations = []; ungated = []
    by_cls = {}
    for f in fails: by_cls.setdefault(f[2], []).append(f)
    for cls, lst in sorted(by_cls.items()):
        text = origin = None
        for cand in lst[:6]:
            with ThreadPoolExecutor(3) as pool:
                rs = list(pool.map(lambda i: execute(binary, cand[0], "g%d" % i), range(3)))
            if all(r["status"] == "FAIL" and r["cls"] == cls for r in rs) and len(set(r["hash"] for r in rs)) == 1:
                text, origin = cand[0], cand[1]; break
            ungated.append((cls, cand[1], [r["status"] + ":" + r["cls"] for r in rs]))
        if text is None: continue
        mintext, tried = minimise(binary, text, cls, 45 if tier == "quick" else 180)
        r1 = execute(binary, mintext, "f1"); r2 = execute(binary, mintext, "f2")
        if not (r1["status"] == "FAIL" and r1["cls"] == cls and r1["hash"] == r2["hash"]): mintext = text; r1 = execute(binary, text, "f3")
        name = "%s_%s_%s.plan" % (prop, re.sub(r"[^A-Za-z0-9]+", "_", cls)[:30], hashlib.sha1(mintext.encode()).hexdigest()[:8])
        path = os.path.join(REPLAYS, name)
        with open(path, "w") as h:
            h.write("# property=%s class=%s origin=%s\n# %s\n# expected hash %s (%d candidate plans tried while minimising)\n# replay: python3 /verif/run_check.py --replay %s\n"
                    % (prop, cls, origin, r1["msg"].replace("\n", " ")[:1500], r1["hash"], tried, path))
            h.write(mintext)
        violations.append((cls, path, r1["msg"], origin))
        if len(violations) >= 3: break

    wall = time.time() - t0
    hours = max(explore_s, 1e-9) / 3600
    faults = {k: v for k, v in sorted(counts.items())}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": tot("runs") + ncorpus, "distinct_nontrivial": len(sigs), "rule": info["rule"],
              "samples": samples or ["none"],
              "runs": tot("runs"), "corpus_plans": ncorpus, "invalid_plans": tot("invalid"), "abandoned_runs": tot("abandoned"),
              "runs_per_hour": int(tot("runs") / hours), "seeds_per_hour": int(tot("runs") / hours),
              "simulated_time_basic_blocks": tot("ticks"), "longest_run_basic_blocks": max(s["max_ticks"] for s in stats),
              "random_words_delivered": tot("words"), "library_allocations": tot("allocs"),
              "faults_and_probes": faults, "distinct_allocation_fault_sites": len(sites),
              "distinct_interleavings_or_paths": {"measure": "hash of the executed basic-block sequence combined with the event log, non-trivial runs only", "count": len(sigs)},
              "control_flow_edges_hit": bin(cov).count("1"),
              "determinism_reruns": len(sample_idx), "determinism_mismatches": len(diverged),
              "real_components": info["real"], "stub_components": info["stub"]},
          "assumptions": info["assumptions"], "wall_s": round(wall, 2), "violations": len(violations)}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as h: json.dump(ev, h, indent=1)
    print("%d runs (%d distinct non-trivial, %d invalid, %d abandoned) in %.1fs; determinism %d/%d; wall %.1fs"
          % (tot("runs"), len(sigs), tot("invalid"), tot("abandoned"), explore_s, len(sample_idx) - len(diverged), len(sample_idx), wall))
    print("probes:", json.dumps(faults))
    for k in known_hit: print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for cls, path, msg, origin in violations:
        print("  %s (%s): %s" % (cls, origin, msg[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if violations: sys.exit(1)
    if ungated:
        print("failures that did not pass the gate:", ungated[:5]); sys.exit(2)
    sys.exit(0)


main()
