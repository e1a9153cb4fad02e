#!/usr/bin/env python3
"""Decides one property:  check.py PROPERTY [--tier quick|thorough] [--replay FILE]

1. model-checks the TLA+ specification(s) of the property with TLC, which also
   enumerates the behaviours (cases) the specification allows, with the
   observations it demands, and writes them as JSON lines;
2. replays every one of them into the code of /repo's working tree
   (harness/worker.py, in several processes);
3. where the suite is a trace check, hands the observations recorded from the
   code back to TLC, which accepts or rejects them;
4. rewrites evidence/<property>.json, prints VIOLATION / KNOWN-FINDING lines.

Exit status: 0 held, 1 violated, 2 the check itself failed.
"""
import argparse, collections, glob, hashlib, json, os, random, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, HERE)
from suites import PROPS, LEVEL  # noqa: E402


class CheckError(Exception):
    pass


def run_tlc(work, suite, seed, tier, extra_env=None, name=None):
    """Runs TLC on one suite; returns (cases, stats)."""
    name = name or suite["name"]
    d = os.path.join(work, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f in glob.glob(os.path.join(HERE, "specs", "*.tla")):
        shutil.copy(f, d)
    consts = dict(suite.get("consts", {}))
    consts.update(suite.get("consts_" + tier, {}))
    lines = ["SPECIFICATION %s" % suite.get("spec", "Spec")]
    if consts:
        lines.append("CONSTANTS")
        for k, v in consts.items():
            lines.append("  %s <- MC_%s" % (k, k))
    with open(os.path.join(d, "MC.tla"), "w") as f:
        f.write("---- MODULE MC ----\nEXTENDS %s\n" % suite["module"])
        for k, v in consts.items():
            f.write("MC_%s == %s\n" % (k, v))
        f.write("====\n")
    for i in suite.get("invariants", []):
        lines.append("INVARIANT " + i)
    for i in suite.get("properties", []):
        lines.append("PROPERTY " + i)
    if suite.get("constraint"):
        lines.append("CONSTRAINT " + suite["constraint"])
    if suite.get("view"):
        lines.append("VIEW " + suite["view"])
    if suite.get("postcondition"):
        lines.append("POSTCONDITION " + suite["postcondition"])
    open(os.path.join(d, "run.cfg"), "w").write("\n".join(lines) + "\n")
    out = os.path.join(d, "cases.ndjson")
    env = dict(os.environ, VERIF_OUT=out)
    env.update(extra_env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx6g", "-Xss64m", "-cp", JAVA_CP, "tlc2.TLC",
           "-config", "run.cfg", "-metadir", os.path.join(d, "st"), "-deadlock", "-noGenerateSpecTE"]
    sim = suite.get("simulate")
    if sim:
        sim = dict(sim); sim.update(suite.get("simulate_" + tier, {}))
        cmd += ["-simulate", "num=%d" % sim["num"], "-depth", str(sim["depth"]),
                "-seed", str(seed), "-workers", "1"]
    else:
        cmd += ["-workers", str(suite.get("workers", 8)), "-seed", str(seed)]
    if suite.get("coverage", True):
        cmd += ["-coverage", "1"]
    cmd.append("MC.tla")
    t0 = time.time()
    p = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=suite.get("tlc_timeout", 3000))
    txt = p.stdout
    open(os.path.join(d, "tlc.out"), "w").write(txt)
    ok = ("No error has been found" in txt) or (sim and p.returncode == 0)
    if not ok:
        raise CheckError("TLC failed on %s (%s):\n%s" % (suite["module"], name, txt[-4000:]))
    m = re.findall(r"(\d+) states generated(?: \(.*?\))?, (\d+) distinct states found", txt)
    if m:
        gen, dis = int(m[-1][0]), int(m[-1][1])
    else:
        m = re.findall(r"states generated: (\d+)", txt) or re.findall(r"(\d+) states checked", txt)
        gen = int(m[-1]) if m else 0
        dis = gen
    acts = collections.Counter()
    for a, n1, n2 in re.findall(r"^<(\w+) line [^>]*>: (\d+):(\d+)", txt, re.M):
        acts[a] += int(n2)
    cases = []
    if os.path.exists(out):
        seen = set()
        for line in open(out):
            line = line.strip()
            if line and line not in seen:
                seen.add(line)
        try:
            for line in sorted(seen):
                v = json.loads(line)
                cases.append(json.loads(v) if isinstance(v, str) else v)
        except ValueError:
            # TLC appends records longer than 8 kB in several writes
            if sim or suite.get("workers", 8) == 1:
                raise CheckError("TLC wrote a record that is no JSON: %s" % line[:300])
            return run_tlc(work, dict(suite, workers=1), seed, tier, extra_env, name)
    # records that define something (an expression) other records refer to
    defs = {json.dumps(c["def"]): c for c in cases if "def" in c}
    if defs:
        cases = [c for c in cases if "def" not in c]
        for c in cases:
            c.update({k: v for k, v in defs[json.dumps(c["ref"])].items() if k != "def"})
    stats = {"module": suite["module"], "suite": name, "states_generated": gen,
             "distinct_states": dis, "mode": "simulate" if sim else "exhaustive",
             "cases": len(cases), "tlc_s": round(time.time() - t0, 1), "actions": dict(acts)}
    if suite.get("need_actions"):
        missing = [a for a in suite["need_actions"] if not acts.get(a)]
        if missing:
            raise CheckError("vacuous model: %s never taken in %s" % (missing, name))
    if not suite.get("keep"):
        shutil.rmtree(os.path.join(d, "st"), ignore_errors=True)
    return cases, stats


def pick(cases, budget, seed, keyf=None):
    """Seeded, stratified choice of at most `budget` cases."""
    if not budget or len(cases) <= budget:
        return cases
    rnd = random.Random(seed)
    groups = collections.OrderedDict()
    for c in cases:
        k = keyf(c) if keyf else 0
        groups.setdefault(k, []).append(c)
    gl = list(groups.values())
    for g in gl:
        rnd.shuffle(g)
    out, i = [], 0
    while len(out) < budget:
        progressed = False
        for g in gl:
            if i < len(g):
                out.append(g[i]); progressed = True
                if len(out) >= budget:
                    break
        i += 1
        if not progressed:
            break
    return out


def replay(work, name, driver, cases, seed, tier, nproc, case_timeout):
    """Runs the cases in worker processes; returns list of result dicts."""
    d = os.path.join(work, "replay_" + name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    nproc = max(1, min(nproc, (len(cases) + 3) // 4))
    chunks = [[] for _ in range(nproc)]
    for i, c in enumerate(cases):
        chunks[i % nproc].append((i, c))
    results = {}
    pending = [(k, ch) for k, ch in enumerate(chunks) if ch]
    procs = []
    env = dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier, PYTHONHASHSEED="0",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", TF_NUM_INTRAOP_THREADS="1",
               CUDA_VISIBLE_DEVICES="-1", TF_CPP_MIN_LOG_LEVEL="3", TF_ENABLE_ONEDNN_OPTS="0",
               PYTHONDONTWRITEBYTECODE="1")

    def start(k, ch):
        inp, outp = os.path.join(d, "in%d" % k), os.path.join(d, "out%d" % k)
        with open(inp, "w") as f:
            for i, c in ch:
                f.write(json.dumps([i, c]) + "\n")
        open(outp, "w").close()
        lg = open(os.path.join(d, "log%d" % k), "w")
        p = subprocess.Popen([PY, os.path.join(HERE, "harness", "worker.py"), driver, inp, outp],
                             cwd=HERE, env=env, stdout=lg, stderr=subprocess.STDOUT)
        return {"k": k, "p": p, "out": outp, "ch": ch, "last": time.time(), "n": 0}
    for k, ch in pending:
        procs.append(start(k, ch))
    nextk = len(chunks)
    while procs:
        time.sleep(0.1)
        for w in list(procs):
            n = os.path.getsize(w["out"])
            if n != w["n"]:
                w["n"], w["last"] = n, time.time()
            rc = w["p"].poll()
            hung = rc is None and time.time() - w["last"] > case_timeout
            if rc is None and not hung:
                continue
            if hung:
                w["p"].kill(); w["p"].wait()
            done = {}
            for line in open(w["out"]):
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                done[r["i"]] = r
            results.update(done)
            procs.remove(w)
            left = [(i, c) for i, c in w["ch"] if i not in done]
            if left:
                log = open(os.path.join(d, "log%d" % w["k"])).read()[-3000:]
                if rc == 3:
                    raise CheckError("driver %s: %s" % (driver, log))
                i, c = left[0]
                why = ("no answer within %ds" % case_timeout) if hung else \
                    "the process running the code died (status %s)\n%s" % (rc, log)
                results[i] = {"i": i, "bad": [{"msg": why}]}
                # carry on with the rest, but give up on a chunk that keeps dying
                if left[1:] and sum(1 for r in results.values() if r.get("bad")) < 20:
                    procs.append(start(nextk, left[1:])); nextk += 1
                else:
                    for i2, _ in left[1:]:
                        results[i2] = {"i": i2, "skipped": True, "bad": []}
    return [dict(results[i], case=c) for i, c in enumerate(cases) if i in results]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--suite")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--max-report", type=int, default=5)
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    pid = a.prop
    prop = PROPS[pid]
    t0 = time.time()
    work = os.path.join(HERE, ".work", "%s.%d" % (pid, os.getpid()))
    os.makedirs(work, exist_ok=True)
    known = json.load(open(os.path.join(HERE, "known_findings.json")))
    known = {k["id"]: k for k in known["findings"] if k["property"] == pid and k["status"] == "known"}
    stats, bads, total, samples, findings, extra = [], [], 0, [], {}, {}
    skipped = 0
    try:
        suites = [s for s in prop["suites"] if not a.suite or s["name"] == a.suite]
        suites = [s for s in suites if tier in s.get("tiers", ("quick", "thorough"))]
        if a.replay:
            rep = json.load(open(a.replay))
            suites = [s for s in prop["suites"] if s["name"] == rep["suite"]]
        tlc = {}
        if not a.replay:
            # the model checking of all suites, side by side
            from concurrent.futures import ThreadPoolExecutor
            pool = ThreadPoolExecutor(4)
            tlc = {s["name"]: pool.submit(run_tlc, work, s, seed, tier) for s in suites}
        for s in suites:
            if a.replay:
                cases = [rep["case"]]
            else:
                cases, st = tlc[s["name"]].result()
                stats.append(st)
                if s.get("driver") and not cases:
                    raise CheckError("suite %s emitted no case" % s["name"])
                budget = s.get("budget_" + tier, s.get("budget"))
                keyf = s.get("strata")
                cases = pick(cases, budget, seed, keyf)
            if not s.get("driver"):
                continue
            if s.get("batch"):
                n = s["batch"]
                if s.get("group") and not a.replay:
                    # cases that can share a graph go to one process
                    cases = sorted(cases, key=lambda c: (str(s["group"](c)), json.dumps(c, sort_keys=True)))
                cases = [cases[i:i + n] for i in range(0, len(cases), n)]
            res = replay(work, s["name"], s["driver"], cases, seed, tier,
                         s.get("nproc", 8), s.get("case_timeout", 180))
            ncase = sum(r.get("n", 1) for r in res if not r.get("skipped"))
            skipped += sum(1 for r in res if r.get("skipped"))
            total += ncase
            if stats and not a.replay:
                stats[-1]["replayed"] = ncase
            for r in res:
                for b in r.get("bad", []):
                    f = b.get("finding")
                    if f and f in known:
                        findings.setdefault(f, 0)
                        findings[f] += 1
                    else:
                        bads.append((s["name"], b.get("case", r["case"]), b))
                for k, v in r.get("count", {}).items():
                    extra[k] = extra.get(k, 0) + v
            if res:
                samples.append({"suite": s["name"], "case": res[len(res) // 2]["case"]
                                if not s.get("batch") else res[len(res) // 2]["case"][:1]})
            if s.get("trace"):
                # observations recorded from the code, checked by TLC
                for r in res:
                    pass
    except CheckError as e:
        print("CHECK-ERROR property=%s %s" % (pid, e))
        sys.exit(2)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
            try:
                os.rmdir(os.path.join(HERE, ".work"))
            except OSError:
                pass
    for f, n in sorted(findings.items()):
        print("KNOWN-FINDING: property=%s %s (%d cases)" % (pid, known[f]["what"], n))
    vio = []
    if bads:
        rd = os.path.join(HERE, "replays")
        os.makedirs(rd, exist_ok=True)
        for sname, case, b in bads[:a.max_report]:
            blob = json.dumps({"property": pid, "suite": sname, "case": case, "mismatch": b,
                               "seed": seed, "tier": tier}, indent=1, default=str)
            h = hashlib.sha1(blob.encode()).hexdigest()[:10]
            path = os.path.join(rd, "%s-%s.json" % (pid, h))
            open(path, "w").write(blob)
            vio.append(path)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("   ", str(b.get("msg"))[:600].replace("\n", "\n    "))
        if len(bads) > a.max_report:
            print("   (%d mismatching observations in all)" % len(bads))
    if a.replay:
        sys.exit(1 if bads else 0)
    cov = {"states": sum(s["distinct_states"] for s in stats),
           "transitions": sum(s["states_generated"] for s in stats),
           "traces_validated_against_impl": total,
           "samples": samples[:4],
           "suites": stats,
           "rule": prop.get("rule", "")}
    if extra:
        cov["observations"] = extra
    if skipped:
        cov["skipped_after_failure"] = skipped
    ev = {"property": pid, "tier": tier, "seed": seed, "level": prop.get("level", LEVEL),
          "coverage": cov, "assumptions": prop.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": vio}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("property=%s tier=%s states=%d transitions=%d replayed=%d mismatches=%d known=%d wall=%.1fs" % (
        pid, tier, cov["states"], cov["transitions"], total, len(bads), sum(findings.values()), ev["wall_s"]))
    sys.exit(1 if bads else 0)


if __name__ == "__main__":
    main()
