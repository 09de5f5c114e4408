"""Runs the tasks of a property: symbolic exploration in worker processes, then replay on the real package."""
import json
import multiprocessing
import os
import resource
import shutil
import sys
import time
import traceback
from multiprocessing import connection

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)

from engine import core, realise, rewrite  # noqa: E402
from checks import domain, registry  # noqa: E402

FORK = multiprocessing.get_context("fork")
CORES = max(1, min(8, os.cpu_count() or 1))


def limits(mem_gb):
    resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))


# --------------------------------------------------------------------------- workers


def explore(task, tier, seed, deadline, budget):
    """Symbolic exploration of one task."""
    deadline = min(deadline, time.time() + budget)
    func = registry.harness(task["harness"])
    c = core.Context(max_paths=task.get("max_paths", 20000), deadline=deadline, query_ms=task.get("query_ms", 30000),
                     seed=seed)
    start = time.time()

    def harness(ctx):
        func(domain.SymDom(ctx, tier), *task["args"])

    c.explore(harness, sample_models=task.get("samples", 2))
    return {"stats": c.stats.as_dict(), "reached": c.reached, "problems": c.problems,
            "cexes": [{"label": x.label, "detail": x.detail, "path": x.path, "inputs": x.realise} for x in c.cexes],
            "models": [m for m in c.path_models if m is not None], "functions": sorted(c.functions),
            "wall": time.time() - start}


def replay(task, tier, desc, fillers):
    """Run the harness on the real package with the files of one assignment."""
    func = registry.harness(task["harness"])
    sys.dont_write_bytecode = True
    if sys.path[0] != rewrite.REPO:
        sys.path.insert(0, rewrite.REPO)
    out = []
    for kind in fillers:
        inputs = realise.build(desc, kind)
        dom = domain.ConDom(inputs, tier)
        status, failures = "held", []
        try:
            func(dom, *task["args"])
        except domain.AssumptionFailed:
            status = "outside"
        except Exception as exc:  # pylint: disable=broad-except
            where = traceback.extract_tb(exc.__traceback__)[-1]
            failures.append({"label": "exception", "detail": "%s: %.200s at %s:%d" % (
                type(exc).__name__, exc, where.filename, where.lineno)})
        if status == "held":
            failures = dom.failures + failures
            if failures:
                status = "failed"
        out.append({"filler": kind, "status": status, "failures": failures, "notes": inputs["notes"],
                    "reached": dom.reached})
        if status == "failed":
            break
    return out


def _child(conn, func, args, mem_gb):
    limits(mem_gb)
    devnull = os.open(os.devnull, os.O_RDONLY)
    os.dup2(devnull, 0)
    try:
        conn.send(("ok", func(*args)))
    except BaseException as exc:  # pylint: disable=broad-except
        conn.send(("error", "%s: %s\n%s" % (type(exc).__name__, _text(exc), traceback.format_exc(limit=-6))))
    conn.close()
    os._exit(0)


def _text(exc):
    try:
        return str(exc)[:300]
    except BaseException:  # pylint: disable=broad-except
        return "?"


def run_all(jobs, workers, deadline, mem_gb=3, grace=30, stop=None, reserve=0):
    """jobs: [(func, args, timeout)]; each in a process of its own.  Returns [(status, value)].

    stop(number, result) is told of each result; once it returns true, the remaining jobs are abandoned.
    reserve: so many workers take the jobs from the end of the list."""
    results = [None] * len(jobs)
    todo = list(range(len(jobs)))[::-1]
    active = {}
    while todo or active:
        while todo and len(active) < workers:
            last = reserve and sum(front for _, _, _, front in active.values()) >= workers - reserve
            num = todo.pop(0 if last else -1)
            if time.time() > deadline:
                results[num] = ("error", "time budget exhausted before the task started")
                continue
            func, args, timeout = jobs[num]
            here, there = FORK.Pipe(False)
            proc = FORK.Process(target=_child, args=(there, func, args, mem_gb))
            proc.start()
            there.close()
            active[here] = (num, proc, min(time.time() + timeout, deadline + grace), not last)
        if not active:
            break
        ready = connection.wait(list(active), timeout=1.0)
        for conn in list(active):
            num, proc, limit, _ = active[conn]
            if conn in ready:
                try:
                    results[num] = conn.recv()
                except (EOFError, OSError):
                    results[num] = ("error", "worker died (memory limit or crash)")
            elif time.time() > limit:
                results[num] = ("error", "time limit of a worker exceeded")
            else:
                continue
            proc.join(0.2)
            if proc.is_alive():
                proc.kill()
                proc.join()
            conn.close()
            del active[conn]
            if stop is not None and stop(num, results[num]):
                for _, proc, _, _ in active.values():
                    proc.kill()
                    proc.join()
                return [res or ("error", "abandoned") for res in results]
    return results


# --------------------------------------------------------------------------- a check


def check(pid, tier, seed):
    begin = time.time()
    prop = registry.PROPERTIES[pid]
    budget = prop.get("budget", {}).get(tier, 600 if tier == "quick" else 3000)
    deadline = begin + budget
    tasks = registry.tasks(pid, tier)
    share = budget if tier == "thorough" else 300
    jobs = [(explore, (t, tier, seed, deadline, share), share + 60) for t in tasks]
    # Long tasks first.
    order = sorted(range(len(tasks)), key=lambda i: -tasks[i].get("weight", 1))
    violations, unconfirmed, tried = [], [], []

    def confirmed(num, result):
        """A counterexample of this task that replays on the real code ends the exploration."""
        task = tasks[order[num]]
        if result[0] != "ok" or tried.count(task["harness"]) > 1:
            return False
        for cex in result[1]["cexes"][:2]:
            if cex["inputs"]:
                tried.append(task["harness"])
                confirm([(task, cex)], tier, time.time() + 60, violations, [])
        return bool(violations)

    done = run_all([jobs[i] for i in order], CORES, deadline, mem_gb=prop.get("mem_gb", 3), stop=confirmed,
                   reserve=2)
    results = [None] * len(tasks)
    for i, res in zip(order, done):
        results[i] = res

    total = {name: 0 for name in core.Stats.FIELDS}
    reached, functions, problems, candidates, models = {}, set(), [], [], []
    for task, (status, res) in zip(tasks, results):
        name = registry.title(task)
        if status != "ok":
            problems.append("%s: %s" % (name, res))
            continue
        for key, val in res["stats"].items():
            total[key] += val
        for key, val in res["reached"].items():
            reached[key] = reached.get(key, 0) + val
        functions.update(res["functions"])
        problems += ["%s: %s: %s" % ((name,) + tuple(p)) for p in res["problems"]]
        if not res["reached"] and not res["cexes"] and not res["problems"]:
            problems.append("%s: no assertion was reached" % name)
        for want in task.get("reach", ()):
            if want not in res["reached"] and not res["cexes"]:
                problems.append("%s: never reached: %s" % (name, want))
        candidates += [(task, cex) for cex in res["cexes"]]
        models += [(task, m) for m in res["models"]]

    # Counterexamples first; then one assignment per sampled path.
    replay_deadline = max(deadline, time.time() + 60) + (120 if tier == "quick" else 600)
    candidates = _spread(candidates)
    for group in (candidates[:16], candidates[16:48]):
        if group and not violations:
            confirm(group, tier, replay_deadline, violations, unconfirmed)
    unconfirmed += [(t, x, "no concrete input") for t, x in candidates if not x["inputs"]]

    validated, outside, invalid = 0, 0, []
    if not violations:
        chosen = _pick_models(models, prop.get("validate", {}).get(tier, 48 if tier == "quick" else 400), seed)
        got = run_all([(replay, (t, tier, m, _fillers(i)), t.get("replay_s", 150)) for i, (t, m) in
                       enumerate(chosen)], CORES, replay_deadline, mem_gb=6)
        for (task, model), (status, res) in zip(chosen, got):
            if status != "ok":
                invalid.append("%s: %s" % (registry.title(task), res))
                continue
            for item in res:
                if item["status"] == "failed":
                    violations.append((task, {"label": item["failures"][0]["label"], "detail": "on a sampled path",
                                              "path": "", "inputs": model}, item))
                    break
                if item["status"] == "held":
                    validated += 1
                else:
                    outside += 1
    problems += ["validation: " + text for text in invalid]

    lines = _report(pid, violations)
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": total["paths"], "transitions": total["branches"],
            "traces_validated_against_impl": validated,
            "samples": _samples(models, tasks),
            "tasks": len(tasks), "tasks_finished": sum(1 for r in results if r[0] == "ok"),
            "functions_encoded": sorted(functions), "bounds": prop["bounds"], "outside_the_bounds": prop["outside"],
            "queries": total["queries"], "queries_sat": total["sat"], "queries_unsat": total["unsat"],
            "queries_exact_aliasing": total["precise_queries"], "solver_s": round(total["solver_s"], 2),
            "assertions_discharged_by_structural_identity": total["asserts_structural"],
            "assertions_discharged_by_solver": total["asserts_solver"],
            "forks": total["decisions"], "infeasible_paths": total["infeasible_paths"],
            "assertion_points_reached": reached, "replays_outside_premises": outside,
            "candidates_not_reproduced": len(unconfirmed), "inconclusive": problems[:40],
        },
        "assumptions": prop["assumptions"], "wall_s": round(time.time() - begin, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as fh:
        json.dump(evidence, fh, indent=1)
    print("%s %s: %d tasks, %d paths, %d branches, %d queries, %.1f s solver, %d traces validated (%d outside), %.1f s"
          % (pid, tier, len(tasks), total["paths"], total["branches"], total["queries"], total["solver_s"], validated,
             outside, time.time() - begin))
    if violations:
        for line in lines:
            print(line)
        return 1
    for task, cex, why in unconfirmed[:10]:
        print("INCONCLUSIVE %s: %s (%s): not reproduced on the real code: %s"
              % (registry.title(task), cex["label"], cex["detail"], why))
    for text in problems[:20]:
        print("INCONCLUSIVE " + text)
    return 2 if unconfirmed or problems else 0


def confirm(group, tier, deadline, violations, unconfirmed):
    """Replay counterexamples on the real package; the confirmed ones become violations."""
    group = [(t, x) for t, x in group if x["inputs"]]
    got = run_all([(replay, (t, tier, x["inputs"], realise.FILLERS), t.get("replay_s", 150))
                   for t, x in group], CORES, deadline, mem_gb=6)
    for (task, cex), (status, res) in zip(group, got):
        bad = [r for r in res if r["status"] == "failed"] if status == "ok" else []
        if bad:
            violations.append((task, cex, bad[0]))
        else:
            unconfirmed.append((task, cex, res if status != "ok" else
                                ", ".join("%s: %s" % (r["filler"], r["status"]) for r in res)))


def _fillers(num):
    kinds = realise.FILLERS
    return [kinds[num % len(kinds)], kinds[(num + 2) % len(kinds)]]


def _spread(candidates):
    """Different tasks and labels first."""
    seen, first, rest = set(), [], []
    for task, cex in candidates:
        mark = (task["harness"], cex["label"].split("[")[0])
        (rest if mark in seen else first).append((task, cex))
        seen.add(mark)
    return first + rest


def _pick_models(models, count, seed):
    models = [m for m in models if not m[0].get("no_validation")]
    if len(models) <= count:
        return models
    step = len(models) / count
    start = seed % max(1, int(step))
    return [models[min(len(models) - 1, int(start + i * step))] for i in range(count)]


def _samples(models, tasks):
    out = []
    for task, model in models[:: max(1, len(models) // 4)][:4]:
        out.append({"task": registry.title(task), "ints": model["ints"], "bools": model["bools"],
                    "files": {n: {"size": f["size"], "pinned": f["bytes"][:8],
                                  "streams": [{k: s[k] for k in ("start", "zlen", "dlen", "valid")}
                                              for s in f["streams"]]} for n, f in model["files"].items()}})
    return out or [{"task": registry.title(tasks[0])}]


def _report(pid, violations):
    base = os.path.join(ROOT, "replays", pid)
    shutil.rmtree(base, ignore_errors=True)
    lines = []
    for num, (task, cex, item) in enumerate(violations[:5]):
        path = os.path.join(base, str(num))
        os.makedirs(path)
        with open(os.path.join(path, "case.json"), "w") as fh:
            json.dump({"property": pid, "task": task, "label": cex["label"], "detail": cex["detail"],
                       "filler": item["filler"], "failures": item["failures"], "inputs": cex["inputs"]}, fh, indent=1)
        inputs = realise.build(cex["inputs"], item["filler"])
        for name, data in inputs["files"].items():
            if len(data) <= 1 << 22:
                with open(os.path.join(path, name.replace("/", "_").replace(":", "_") + ".bin"), "wb") as fh:
                    fh.write(data)
        first = item["failures"][0]
        lines.append("  %s: %s: %s" % (registry.title(task), first["label"], first["detail"]))
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
    return lines
