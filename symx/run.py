"""Run a property's check: explore every task symbolically, replay candidates on the real code, write evidence."""
import importlib
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True


# ------------------------------------------------------------------ encoding
def enc(x):
    import datetime as D
    if isinstance(x, bool) or x is None: return x
    if isinstance(x, int): return x if abs(x) < 2 ** 53 else {"i": str(x)}
    if isinstance(x, float): return {"f": x.hex()}
    if isinstance(x, str):
        try:
            x.encode("utf-8")
            return x
        except UnicodeEncodeError:
            return {"s": [ord(c) for c in x]}
    if isinstance(x, (bytes, bytearray)): return {"b": bytes(x).hex()}
    if isinstance(x, (list, tuple)): return [enc(y) for y in x]
    if isinstance(x, dict): return {"d": [[enc(k), enc(v)] for k, v in x.items()]}
    if isinstance(x, D.datetime): return {"t": "datetime", "v": x.isoformat()}
    if isinstance(x, D.date): return {"t": "date", "v": x.isoformat()}
    if isinstance(x, D.time): return {"t": "time", "v": x.isoformat()}
    return {"r": repr(x)}


def dec(x):
    import datetime as D
    if isinstance(x, dict):
        if "i" in x: return int(x["i"])
        if "f" in x: return float.fromhex(x["f"])
        if "s" in x: return "".join(map(chr, x["s"]))
        if "b" in x: return bytes.fromhex(x["b"])
        if "d" in x: return {dec(k): dec(v) for k, v in x["d"]}
        if "t" in x: return getattr(D, x["t"]).fromisoformat(x["v"])
        return x
    if isinstance(x, list): return [dec(y) for y in x]
    return x


def same(a, b):
    if isinstance(a, dict) and "f" in a and isinstance(b, dict) and "f" in b:
        x, y = float.fromhex(a["f"]), float.fromhex(b["f"])
        return x == y or x != x and y != y or abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict) and "d" in a and "d" in b:
        return same(a["d"], b["d"])
    return a == b


# -------------------------------------------------------------------- native
def native_main():
    """stdin: JSON list of jobs {check, fn, params, inputs}; stdout: JSON list of results"""
    from symx import loader, api, state
    import signal
    loader.load_native()
    jobs = json.load(sys.stdin)
    out = []
    mods = {}

    def onalarm(*a):
        raise TimeoutError("replay timeout")
    signal.signal(signal.SIGALRM, onalarm)
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    for j in jobs:
        if j["check"] not in mods:
            mods[j["check"]] = loader.load_harness(os.path.join(ROOT, "checks", j["check"] + ".py"), j["check"], False)
            state.record(("pynmeagps",), [mods[j["check"]].__dict__])
        state.restore()
        fn = getattr(mods[j["check"]], j["fn"])
        s = api.NativeS({k: dec(v) for k, v in j["inputs"].items()}, j["params"])
        r = {"failed": [], "obs": [], "error": None, "assumed": False, "checks": 0}
        signal.alarm(int(j.get("timeout", 30)))
        try:
            fn(s, j["params"])
        except (api.CheckFailed, api.WorkExceeded):
            pass
        except api.AssumeFailed:
            r["assumed"] = True
        except (TimeoutError, MemoryError) as e:
            if s.limited: s.failed.append(s.limited)
            elif isinstance(e, MemoryError): s.failed.append("unexpected MemoryError")
            else: r["error"] = "timeout"
        except Exception as e:
            s.failed.append("unexpected %s" % type(e).__name__)
            r["detail"] = "".join(traceback.format_exception(e))[-800:]
        except BaseException as e:
            r["error"] = "".join(traceback.format_exception(e))[-1500:]
        signal.alarm(0)
        s.close()
        r["failed"], r["checks"] = s.failed, s.checks
        try:
            r["obs"] = [enc(x) for x in s.obs]
        except Exception as e:
            r["obs"] = []
        out.append(r)
    sys.stdout.write("\n@@RESULT@@" + json.dumps(out))


def run_native(jobs, timeout=300):
    if not jobs:
        return []
    p = subprocess.run([sys.executable, os.path.join(HERE, "run.py"), "--native"], input=json.dumps(jobs), text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    if "@@RESULT@@" not in p.stdout:
        raise RuntimeError("native replay failed: " + p.stderr[-2000:])
    return json.loads(p.stdout.split("@@RESULT@@")[-1])


def confirmed(check, t, r, known):
    """does a candidate of this task fail on the real code (and is it not a listed finding)?"""
    jobs = [dict(check=check, fn=t["fn"], params=t.get("params", {}), inputs=m) for l, ms, d in r["candidates"] for m in ms]
    jobs += [dict(check=check, fn=t["fn"], params=t.get("params", {}), inputs=i) for w, i in r["partial"]]
    try:
        rep = run_native(jobs[:20], timeout=120)
    except Exception:
        return False
    return any(x["failed"] and not x["assumed"] and not any(k["task"] == t["name"] and k["label"] == x["failed"][0] for k in known) for x in rep)


# ------------------------------------------------------------------ one task
_H = {}


def run_task(arg):
    check, task, tier, seed, soft = arg
    from symx import loader, core, api, state
    sys.setrecursionlimit(5000)
    out = {"name": task["name"]}
    t0 = time.time()
    try:
        if "pkg" not in _H:
            _H["pkg"] = loader.load_instrumented()
        if check not in _H:
            _H[check] = loader.load_harness(os.path.join(ROOT, "checks", check + ".py"), check, True)
            state.record(("sx_pynmeagps",), [_H[check].__dict__])
        fn = getattr(_H[check], task["fn"])
        params = task.get("params", {})
        e = core.Explorer(timeout_ms=task.get("timeout_ms", 20000), max_paths=task.get("max_paths", 20000),
                          max_time=min(task.get("max_time", 400), soft), seed=seed, max_concretise=task.get("max_concretise", 6),
                          tick_limit=task.get("tick_limit", 400000))
        e.want_samples = task.get("want_samples", 2)

        def body():
            fn(api.S(e, params), params)
        e.explore(body)
        out.update(paths=e.paths, decisions=e.decisions_total, queries=e.queries, solver_time=round(e.solver_time, 3),
                   checks=e.checks_total, reached=e.checks_reached, aborted=e.aborted, inconclusive=e.inconclusive[:8],
                   ninconclusive=len(e.inconclusive), cuts=e.cuts, functions=sorted(e.functions), labels=e.labels,
                   incomplete=e.incomplete, boxes=e.icp_boxes,
                   candidates=[(l, [{k: enc(v) for k, v in m.items()} for m in ms], d) for l, ms, d in e.candidates],
                   partial=[(w, {k: enc(v) for k, v in i.items()}) for w, i in e.partial],
                   samples=[({k: enc(v) for k, v in i.items()}, [enc(x) for x in o]) for i, o in e.samples])
    except Exception:
        out["error"] = traceback.format_exc()[-3000:]
    except core.EngineStop:
        out["error"] = traceback.format_exc()[-3000:]
    out["wall"] = round(time.time() - t0, 2)
    return out


def main():
    if sys.argv[1:2] == ["--native"]:
        return native_main()
    if sys.argv[1:2] == ["--replay"]:
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    check = pid.lower()
    from symx import loader
    loader.load_instrumented()          # also before forking: workers inherit it
    cm = loader.load_harness(os.path.join(ROOT, "checks", check + ".py"), check, False)
    tasks = cm.tasks(tier, loader.load_native())
    if only:
        tasks = [t for t in tasks if re.search(only, t["name"])]
    names = [t["name"] for t in tasks]
    assert len(set(names)) == len(names), "duplicate task names"
    budget = 640 if tier == "quick" else 6 * 3600
    nproc = int(os.environ.get("SX_PROCS", "8"))
    tasks.sort(key=lambda t: -t.get("cost", 1))
    results = []
    known = load_known(pid)
    bytask = {t["name"]: t for t in tasks}
    stop_at = None      # once a counterexample is confirmed on the real code, the rest gets a short grace only
    with mp.get_context("fork").Pool(nproc, maxtasksperchild=None) as pool:
        # a first sweep with a small share per task (it finds shallow defects at once, whatever has become expensive),
        # then what is left, long ones first
        todo, probe = tasks, 5 if len(tasks) > nproc else None
        while todo:
            again = []
            it = pool.imap_unordered(run_task, [(check, t, tier, seed, probe or budget * 0.5) for t in todo], chunksize=1)
            for i in range(len(todo)):
                left = (stop_at or t0 + budget) - time.time()
                try:
                    r = it.next(timeout=max(0.1, left))
                except mp.TimeoutError:
                    again = []
                    break
                if probe and not r.get("candidates") and not r.get("error") and (r.get("incomplete") or "").startswith("time"):
                    again.append(bytask[r["name"]])
                    continue
                results.append(r)
                if (r.get("candidates") or r.get("partial")) and stop_at is None and confirmed(check, bytask[r["name"]], r, known):
                    stop_at = min(t0 + budget, time.time() + (20 if tier == "quick" else 300))
                if os.environ.get("SX_VERBOSE"):
                    print("  %-50s %6.1fs paths=%s checks=%s q=%s %s" % (r["name"], r["wall"], r.get("paths"), r.get("checks"), r.get("queries"),
                          ("ERR " + r["error"][-220:].replace("\n", " | ") if r.get("error") else "") + (" INC " + str(r["inconclusive"][:2]) if r.get("inconclusive") else "")
                          + (" INCOMPLETE " + r["incomplete"] if r.get("incomplete") else "") + (" CAND " + str(len(r["candidates"])) if r.get("candidates") else "")), flush=True)
            todo, probe = sorted(again, key=lambda t: -t.get("cost", 1)), None
        pool.terminate()
    problems, violations, known_hits = [], [], []
    soft = []           # what the engine could not decide (never the case on the tree the bounds were set for)
    undecided = set()
    done = {r["name"] for r in results}
    for n in names:
        if n not in done:
            soft.append("task %s did not finish" % n)
            undecided.add(n)
    jobs, meta = [], []
    pjobs, pmeta = [], []
    vjobs, vmeta = [], []
    for r in sorted(results, key=lambda r: r["name"]):
        t = bytask[r["name"]]
        if r.get("error"):
            soft.append("task %s: engine error: %s" % (r["name"], r["error"]))
            undecided.add(r["name"])
            continue
        if r["incomplete"] and not r["candidates"]:
            soft.append("task %s incomplete: %s" % (r["name"], r["incomplete"]))
            undecided.add(r["name"])
        for x in r["inconclusive"]:
            soft.append("task %s: %s" % (r["name"], x))
            undecided.add(r["name"])
        for w, i in r["partial"]:
            pjobs.append(dict(check=check, fn=t["fn"], params=t.get("params", {}), inputs=i))
            pmeta.append(r["name"])
        if r["reached"] == 0 and not r["candidates"]:
            (soft if r["inconclusive"] or r["incomplete"] or r["cuts"] else problems).append("task %s is vacuous: no path reached a check" % r["name"])
        for l in t.get("must_reach", ()):
            if not r["labels"].get(l):
                (soft if r["inconclusive"] or r["incomplete"] or r["candidates"] else problems).append("task %s never reached check '%s'" % (r["name"], l))
        for l, ms, d in r["candidates"]:
            for m in ms:
                jobs.append(dict(check=check, fn=t["fn"], params=t.get("params", {}), inputs=m))
                meta.append((r["name"], l, d))
        for i, o in r["samples"]:
            vjobs.append(dict(check=check, fn=t["fn"], params=t.get("params", {}), inputs=i))
            vmeta.append((r["name"], o))
    left = max(60, budget + 60 - (time.time() - t0))
    # replay candidates on the real code
    rep = run_native(jobs[:400], timeout=left) if jobs else []
    groups = {}
    for (n, l, d), j, r in zip(meta, jobs, rep):
        g = groups.setdefault((n, l), {"ok": None, "bad": None, "d": d})
        if r["failed"] and g["ok"] is None:
            g["ok"] = (j, r)
        elif not r["failed"]:
            g["bad"] = (j, r)
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    for f in os.listdir(os.path.join(ROOT, "replays")):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(ROOT, "replays", f))
    for (n, l), g in sorted(groups.items()):
        if g["ok"]:
            j, r = g["ok"]
            k = next((k for k in known if k["task"] == n and (k["label"] == r["failed"][0])), None)
            if k is not None:
                known_hits.append(k["what"])
                continue
            path = os.path.join(ROOT, "replays", "%s-%d.json" % (pid, len(violations) + 1))
            json.dump(dict(property=pid, task=n, label=r["failed"][0], job=j), open(path, "w"), indent=1)
            violations.append((n, r["failed"][0], path, j["inputs"]))
        else:
            j, r = g["bad"]
            if l.startswith("unexpected ") and r["checks"] and not r["assumed"] and not r["error"]:
                # an exception of the engine's own making: the real code runs through on this input
                soft.append("task %s: %s: %s (not on the real code)" % (n, l, g["d"]))
                undecided.add(n)
                continue
            undecided.add(n)
            soft.append("candidate of task %s (%s: %s) does not reproduce on the real code: inputs %s -> %s" % (
                n, l, g["d"], json.dumps(j["inputs"])[:600], json.dumps({k: r[k] for k in ("failed", "assumed", "error")})[:600]))
    # paths the engine could not follow: their inputs still run on the real code
    for n, j, r in zip(pmeta, pjobs, run_native(pjobs[:300], timeout=left) if pjobs else []):
        if r["failed"] and not r["assumed"] and not any(v[0] == n and v[1] == r["failed"][0] for v in violations):
            k = next((k for k in known if k["task"] == n and k["label"] == r["failed"][0]), None)
            if k is not None:
                known_hits.append(k["what"])
                continue
            path = os.path.join(ROOT, "replays", "%s-%d.json" % (pid, len(violations) + 1))
            json.dump(dict(property=pid, task=n, label=r["failed"][0], job=j), open(path, "w"), indent=1)
            violations.append((n, r["failed"][0], path, j["inputs"]))
    # validate sampled paths on the real code
    validated = 0
    rep = run_native(vjobs[:1500], timeout=max(60, budget + 90 - (time.time() - t0))) if vjobs else []
    for (n, o), j, r in zip(vmeta, vjobs, rep):
        if r["error"] is None and not r["failed"] and not r["assumed"] and same(r["obs"], o):
            validated += 1
        elif r["failed"]:
            path = os.path.join(ROOT, "replays", "%s-%d.json" % (pid, len(violations) + 1))
            json.dump(dict(property=pid, task=n, label=r["failed"][0], job=j), open(path, "w"), indent=1)
            violations.append((n, r["failed"][0], path, j["inputs"]))
        else:
            undecided.add(n)
            soft.append("sampled path of task %s behaves differently on the real code: inputs %s: engine %s, real %s" % (
                n, json.dumps(j["inputs"])[:400], json.dumps(o)[:500], json.dumps(r)[:700]))
    if len(undecided) * 10 > len(tasks) * 9:
        problems.append("%d of %d tasks undecided" % (len(undecided), len(tasks)))
    wall = time.time() - t0
    ev = evidence(pid, tier, seed, cm, tasks, results, validated, vjobs, problems, violations, known_hits, wall, soft)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if not only:
        json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    c = ev["coverage"]
    print("%s %s: %d tasks, %d paths, %d assertions decided, %d solver queries (%.1f s), %d sampled paths validated, wall %.1f s" % (
        pid, tier, len(results), c["states"], c["assertions_decided"], c["solver_queries"], c["solver_time_s"], validated, wall))
    for k in sorted(set(known_hits)):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    for n, l, path, inp in violations[:10]:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  task %s: %s; inputs %s" % (n, l, json.dumps(inp)[:500]))
    for p in problems[:6]:
        print("PROBLEM: " + (p[:200] + " ... " + p[-700:] if len(p) > 900 else p))
    for p in soft[:6]:
        print("NOT-EXPLORED: " + p[:500])
    if len(soft) > 6: print("... %d not explored" % len(soft))
    if len(problems) > 6: print("... %d problems" % len(problems))
    sys.stdout.flush()
    if violations:
        os._exit(1)
    os._exit(2 if problems else 0)


def load_known(pid):
    f = os.path.join(ROOT, "known-findings.json")
    if not os.path.exists(f): return []
    return [k for k in json.load(open(f))["findings"] if k["property"] == pid]


def replay(path):
    d = json.load(open(path))
    r = run_native([d["job"]])[0]
    print(json.dumps(r, indent=1))
    if r["failed"]:
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return sys.exit(1)


def evidence(pid, tier, seed, cm, tasks, results, validated, vjobs, problems, violations, known, wall, soft):
    ok = [r for r in results if not r.get("error")]
    cuts, funcs, labels = {}, set(), {}
    for r in ok:
        for k, v in r["cuts"].items(): cuts[k] = cuts.get(k, 0) + v
        funcs.update(r["functions"])
        for k, v in r["labels"].items(): labels[k] = labels.get(k, 0) + v
    samples = [dict(task=vj["fn"], params=str(vj["params"])[:200], inputs=json.dumps(vj["inputs"])[:400]) for vj in vjobs[:: max(1, len(vjobs) // 8)]][:8]
    if not samples:
        samples = [dict(task=t["name"], fn=t["fn"]) for t in tasks[:5]]
    return dict(property=pid, tier=tier, seed=seed, level="model_checking",
                coverage=dict(states=sum(r["paths"] for r in ok), transitions=sum(r["decisions"] for r in ok),
                              traces_validated_against_impl=validated, samples=samples,
                              tasks=len(ok), infeasible_or_assumed_paths=sum(r["aborted"] for r in ok),
                              paths_reaching_a_check=sum(r["reached"] for r in ok),
                              assertions_decided=sum(r["checks"] for r in ok), assertion_labels=dict(sorted(labels.items())[:60]),
                              boxes_pruned=sum(r["boxes"] for r in ok),
                              solver_queries=sum(r["queries"] for r in ok), solver_time_s=round(sum(r["solver_time"] for r in ok), 2),
                              functions_encoded=sorted(funcs), bounds=cm.BOUNDS[tier] if isinstance(cm.BOUNDS, dict) else cm.BOUNDS,
                              concretisation_cuts=dict(sorted(cuts.items())[:40]), problems=[p[:300] for p in problems[:20]], not_explored=[p[:300] for p in soft[:40]],
                              known_findings=sorted(set(known)),
                              meaning="states = feasible symbolic paths of the real code, transitions = solver-decided branch decisions; "
                                      "each path covers every input satisfying its path condition"),
                assumptions=list(cm.ASSUMPTIONS), wall_s=round(wall, 1), violations=len(violations))


if __name__ == "__main__":
    main()
