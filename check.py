"""Decides one property: python3-vt check.py C02 [--thorough] [--keep-going]

1. every unit (function under contract) of the property is verified from /repo's current source;
2. its Lean lemmas, if any, are compiled again;
3. the real code is run against the property's concrete oracle (bounded cross-check of the engine).
A failed obligation is reported as a violation, with a replayed failing input where one is found."""
import sys, os, json, time, hashlib, importlib, subprocess, tempfile, shutil, traceback
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("CORAL_REPO", "/repo")
os.environ["CORAL_REPO"] = REPO
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable

import registry

def unit_worker(module, prop, index, roles, conn):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
        sys.setrecursionlimit(20000)
        import threading
        threading.stack_size(512 << 20)
        box = {}
        def body():
            try:
                mod = importlib.import_module("contracts." + module)
                u = mod.units(prop)[index]
                u.roles = roles
                if roles:
                    # the second pass also gets more time, in case the machine was busy
                    u.cand_ms = 5 * (u.cand_ms or 4000)
                u.run()
                box["r"] = u.report()
            except BaseException as e:
                box["r"] = {"unit": "%s[%d]" % (module, index), "error": "engine: %s" % traceback.format_exc()[-2500:], "obligations": [], "paths": 0,
                            "functions": [], "contracts_used": [], "assumptions": [], "secs": 0, "restarts": 0, "covered": [], "dropped_invariants": [], "reached": []}
        t = threading.Thread(target=body)
        t.start(); t.join()
        conn.send_bytes(json.dumps(box["r"], default=str).encode())
    except BaseException as e:
        try:
            conn.send_bytes(json.dumps({"unit": "?", "error": "engine: %s" % e, "obligations": []}).encode())
        except Exception:
            pass
    finally:
        conn.close()
        os._exit(0)

def run_units(prop, jobs, limit, budget):
    """jobs: [(module, index, name, roles)] -> {name: report}"""
    ctx = mp.get_context("fork")
    todo, live, out = list(jobs), [], {}
    t0 = time.time()
    while todo or live:
        while todo and len(live) < 8:
            j = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=unit_worker, args=(j[0], prop, j[1], j[3], b))
            p.start(); b.close()
            live.append((j, p, a, time.time()))
        for e in list(live):
            j, p, a, ts = e
            r = None
            if a.poll(0.02):
                try:
                    r = json.loads(a.recv_bytes())
                except EOFError:
                    r = {"unit": j[2], "error": "verifier process ended (memory?)", "obligations": []}
            elif not p.is_alive() and not a.poll(0):
                r = {"unit": j[2], "error": "verifier process ended (memory?)", "obligations": []}
            elif time.time() - ts > limit or time.time() - t0 > budget:
                r = {"unit": j[2], "error": "time limit", "obligations": []}
            if r is not None:
                if p.is_alive():
                    p.join(1)
                if p.is_alive():
                    p.kill()
                p.join()
                live.remove(e)
                r["unit"] = j[2]
                for k, d in (("paths", 0), ("functions", []), ("contracts_used", []), ("assumptions", []), ("secs", 0), ("restarts", 0), ("covered", []), ("dropped_invariants", []), ("reached", [])):
                    r.setdefault(k, d)
                out[j[2]] = r
    return out

def bad(r):
    """Why a unit's report is not a proof, or None."""
    if r.get("error"):
        return r["error"]
    f = [o for o in r["obligations"] if o["status"] != "proved"]
    if f:
        return "obligation %r not discharged (%s)%s" % (f[0]["name"], f[0]["status"], " " + f[0]["detail"] if f[0].get("detail") else "")
    if not r["obligations"]:
        return "no obligations were generated"
    miss = [x for x in r.get("must_reach", []) if x not in r.get("reached", [])]
    if miss:
        return "vacuous: %s is never reached" % miss
    return None

def run_lean(spec):
    """[(theorem, statement hash)], error"""
    if not spec:
        return [], None, 0
    t0 = time.time()
    res, err = [], None
    for fn, theorems in spec:
        path = os.path.join(HERE, "lean", fn)
        src = open(path).read()
        d = tempfile.mkdtemp(prefix="vlean")
        try:
            f = os.path.join(d, "x.lean")
            with open(f, "w") as h:
                h.write(src + "\n" + "".join("#print axioms %s\n" % t for t in theorems))
            p = subprocess.run(["lean", f], capture_output=True, text=True, timeout=600, cwd=d)
        except subprocess.TimeoutExpired:
            return res, "lean: time limit", time.time() - t0
        finally:
            shutil.rmtree(d, ignore_errors=True)
        txt = p.stdout + p.stderr
        if p.returncode != 0 or "error" in txt or "sorry" in txt:
            return res, "lean: %s" % txt[-1500:], time.time() - t0
        for t in theorems:
            import re
            m = re.search(r"'%s' (does not depend on any axioms|depends on axioms: \[(.*?)\])" % re.escape(t), txt, re.S)
            if not m:
                return res, "lean: theorem %s missing" % t, time.time() - t0
            ax = set(x.strip() for x in (m.group(2) or "").replace("\n", " ").split(",") if x.strip())
            if ax - {"propext", "Classical.choice", "Quot.sound"}:
                return res, "lean: %s depends on %s" % (t, ax), time.time() - t0
            res.append(t)
    return res, err, time.time() - t0

def oracle(prop, module, seed, secs, maxcases, given=None):
    d = tempfile.mkdtemp(prefix="voracle")
    try:
        cmd = [PY, os.path.join(HERE, "oracles", "run.py"), module, prop, str(seed), str(secs), str(maxcases)]
        if given is not None:
            f = os.path.join(d, "given.json")
            json.dump(given, open(f, "w"), default=str)
            cmd.append(f)
        w = os.path.join(d, "work")
        os.mkdir(w)
        env = dict(os.environ, CORAL_REPO=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TMPDIR=w, HOME=w)
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=secs + 60, cwd=w, env=env, stdin=subprocess.DEVNULL)
        return json.loads(p.stdout.strip().split("\n")[-1])
    except subprocess.TimeoutExpired:
        return {"evaluations": 0, "distinct": 0, "violations": [], "samples": [], "rule": "", "error": "oracle time limit"}
    except Exception as e:
        return {"evaluations": 0, "distinct": 0, "violations": [], "samples": [], "rule": "", "error": "oracle: %s" % e}
    finally:
        shutil.rmtree(d, ignore_errors=True)

def known_findings(prop):
    out = []
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            if l.startswith("finding: property=%s " % prop):
                kv = l.strip().split(" ", 2)[2]
                key, _, text = kv.partition(" ")
                out.append((key[4:] if key.startswith("key=") else key, text))
    return out

def source_hash():
    h = hashlib.sha256()
    for n in sorted(os.listdir(os.path.join(REPO, "coral"))):
        if n.endswith(".py"):
            h.update(open(os.path.join(REPO, "coral", n), "rb").read())
    return h.hexdigest()

def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    P = registry.PROPS[prop]
    if tier == "thorough":
        os.environ.setdefault("PYVC_PROVE_MS", "60000")
        os.environ.setdefault("PYVC_UNIT_S", "1500")
    else:
        os.environ.setdefault("PYVC_UNIT_S", "600")
    total = 790 if tier == "quick" else 3000
    limit = 620 if tier == "quick" else 1600
    jobs, reports, err = [], {}, None
    mods = {}
    try:
        for m in P["contracts"]:
            mods[m] = importlib.import_module("contracts." + m)
            for i, u in enumerate(mods[m].units(prop)):
                jobs.append((m, i, u.name, False))
    except Exception as e:
        err = "contracts cannot be loaded: %s" % traceback.format_exc()[-1500:]
    # the concrete cross-check and Lean run beside the verifier
    from concurrent.futures import ThreadPoolExecutor
    ex = ThreadPoolExecutor(2)
    osecs, ocases = P.get("osecs", 8), 10 ** 9
    if tier == "thorough":
        osecs = 120
    fo = ex.submit(oracle, prop, P["oracle"], seed, osecs, ocases) if P["oracle"] else None
    fl = ex.submit(run_lean, P["lean"]) if P["lean"] else None
    reports = run_units(prop, jobs, limit, total - 160)
    # units that failed: once more, matching renamed locals
    again = [j for j in jobs if bad(reports[j[2]]) and not any(o["status"] == "refuted" and o.get("model") is not None and "loop" not in o["name"] and not reports[j[2]].get("dropped_invariants") for o in reports[j[2]]["obligations"])]
    if again and time.time() - t0 < total - 400:
        again = [(m, i, n, True) for m, i, n, _ in again]
        for n, r in run_units(prop, again, limit, total - 100 - (time.time() - t0)).items():
            r["second_pass"] = True
            if not bad(r):
                reports[n] = r
    theorems, lerr, lsecs = fl.result() if fl else ([], None, 0)
    o = fo.result() if fo else {"evaluations": 0, "distinct": 0, "violations": [], "samples": [], "rule": "", "error": None}
    failed = [(n, bad(r)) for n, r in reports.items() if bad(r)]
    if err:
        failed.append(("contracts", err))
    if lerr:
        failed.append(("lean", lerr))
    violations = list(o["violations"])
    searched = None
    if failed and not violations and P["oracle"]:
        given = []
        try:
            om = importlib.import_module("oracles_models") if False else None
        except Exception:
            pass
        models = []
        for n, r in reports.items():
            for ob in r["obligations"]:
                if ob["status"] != "proved" and ob.get("model"):
                    models.append((n, ob["model"]))
        given = replay_cases(prop, P["oracle"], models)
        left = max(20, min(60 if tier == "quick" else 600, 860 - (time.time() - t0)))
        searched = oracle(prop, P["oracle"], seed + 1000, left, 10 ** 9, given)
        violations += searched["violations"]
    finds = known_findings(prop)
    fresh, old = [], {}
    for x in violations:
        k = next((k for k, t in finds if k in json.dumps(x["case"]) or k in x["what"]), None)
        if k is None:
            fresh.append(x)
        else:
            old[k] = x
    status = 0
    lines = []
    for k, t in finds:
        lines.append("KNOWN-FINDING: property=%s %s" % (prop, t))
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    rfile = os.path.join("evidence", "replay", "%s.json" % prop)
    nobl = sum(len(r["obligations"]) for r in reports.values())
    ndis = sum(1 for r in reports.values() for ob in r["obligations"] if ob["status"] == "proved")
    if fresh or failed:
        status = 1
        rep = {"property": prop, "repo": REPO, "source": source_hash(), "oracle": P["oracle"], "failing_input": fresh[0] if fresh else None,
               "other_failing_inputs": fresh[1:], "failed": [{"unit": n, "why": w, "obligations": [ob for ob in reports.get(n, {}).get("obligations", []) if ob["status"] != "proved"],
                                                             "dropped_invariants": reports.get(n, {}).get("dropped_invariants", [])} for n, w in failed],
               "searched": {k: searched[k] for k in ("evaluations", "distinct", "error")} if searched else None}
        json.dump(rep, open(os.path.join(HERE, rfile), "w"), indent=1, default=str)
        for n, w in failed:
            lines.append("FAILED %s: %s" % (n, str(w)[:600]))
        if fresh:
            lines.append("failing input (real code, CPython): %s -- %s" % (json.dumps(fresh[0]["case"])[:800], fresh[0]["what"]))
            lines.append("VIOLATION property=%s replay=%s" % (prop, rfile))
        else:
            lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rfile))
    backends = {}
    for r in reports.values():
        for ob in r["obligations"]:
            backends[ob["backend"]] = backends.get(ob["backend"], 0) + (ob["status"] == "proved")
    if theorems:
        backends["lean"] = len(theorems)
    assumptions = sorted(set(a for r in reports.values() for a in r["assumptions"]) | set(registry.BASE_ASSUMPTIONS))
    functions = sorted(set(f for r in reports.values() for f in r["functions"]))
    bounded = [n for n in reports if "bounded" in n]
    count = lambda names, ok: sum(1 for n in names for ob in reports[n]["obligations"] if not ok or ob["status"] == "proved")
    rest = [n for n in reports if n not in bounded]
    lemmas = [t for f, ts in P["lean"] or [] for t in ts]
    # bounded units are not counted as proved
    unbounded = {"obligations": count(rest, False) + len(lemmas), "discharged": count(rest, True) + len(theorems)}
    bounds = {"bounded_obligations": count(bounded, False), "bounded_discharged": count(bounded, True)} if bounded else {}
    if P["level"] == "other":
        bounds["explanation"] = registry.BOUNDED + registry.NOTES.get(prop, "")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": P["level"],
          "coverage": {**unbounded, **bounds,
                       "checker_cmd": "python3-vt /verif/check.py %s" % prop,
                       "trusted_base": registry.TRUSTED,
                       "functions_under_contract": functions,
                       "contracts_used_at_call_sites": sorted(set(c for r in reports.values() for c in r["contracts_used"])),
                       "units": {n: {"obligations": len(r["obligations"]), "paths": r["paths"], "restarts": r["restarts"], "seconds": round(r["secs"], 2),
                                     "goals": r["covered"], "reached": r["reached"], "candidates_dropped": len(r["dropped_invariants"]), "error": r.get("error")} for n, r in reports.items()},
                       "discharged_by": backends, "lean_theorems": theorems, "lean_seconds": round(lsecs, 1),
                       "solver_seconds": round(sum(ob["secs"] for r in reports.values() for ob in r["obligations"]), 2),
                       "repo_source_sha256": source_hash(), "bounded_units": bounded,
                       "cpython_cross_check_bounded": {"evaluations": o["evaluations"], "distinct_nontrivial": o["distinct"], "rule": o["rule"], "samples": o["samples"], "error": o["error"], "seconds": osecs}},
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(fresh) + (len(failed) if not fresh else 0)}
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, default=str)
    print("%s: %d obligations, %d discharged, %d functions, %d concrete cases, %.1fs" % (prop, nobl, ndis, len(functions), o["evaluations"], time.time() - t0))
    if o["error"]:
        print("note: oracle: %s" % o["error"])
    for l in lines:
        print(l)
    sys.stdout.flush()
    return status

def replay_cases(prop, module, models):
    """Cases of the oracle's vocabulary for solver models (computed by the oracle module itself)."""
    if not models:
        return []
    code = ("import sys,json,os\nsys.dont_write_bytecode=True\nsys.path[:0]=[%r,%r]\nimport importlib\nm=importlib.import_module('oracles.%s')\nout=[]\n"
            "for n,mo in json.load(sys.stdin):\n  try:\n    out+=m.from_model(%r,n,mo)\n  except Exception: pass\nprint(json.dumps(out))" % (REPO, HERE, module, prop))
    try:
        p = subprocess.run([PY, "-c", code], input=json.dumps(models, default=str), capture_output=True, text=True, timeout=30)
        return json.loads(p.stdout.strip().split("\n")[-1])
    except Exception:
        return []

if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        p = sys.argv[1] if len(sys.argv) > 1 else "?"
        try:
            os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
            with open(os.path.join(HERE, "evidence", "replay", p + ".json"), "w") as f:
                json.dump({"property": p, "error": traceback.format_exc()}, f)
        except Exception:
            pass
        print("VIOLATION property=%s replay=evidence/replay/%s.json no-failing-input-found" % (p, p))
        rc = 1
    sys.stdout.flush()
    os._exit(rc)
