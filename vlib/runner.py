""" Runs the sub-checks of one property over several processes, writes evidence and replay files """
import argparse
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

from . import engine, support

WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
SHRINK_BUDGET = 75      # wall seconds left for shrinking after the first failure is seen
#: quick cases, in multiples of what the sub-checks say
QUICK = 3
HARD_LIMIT = {"quick": 780, "thorough": 6 * 3600}


def _seed():
    raw = os.environ.get("VERIF_SEED", "1")
    try:
        return int(raw)
    except ValueError:
        return engine.shard_seed(raw) % (2 ** 31)


def _worker(conn, prop, sub, shard, n, seed):
    def send(kind, payload):
        conn.send((kind, payload))
    try:
        devnull = open(os.devnull, "w")
        sys.stderr = devnull
        engine.run_shard(prop, sub, shard, n, seed, send)
        send("done", None)
    except BaseException as E:
        try:
            send("error", engine.describe(E))
        except Exception:
            pass
    finally:
        conn.close()
        os._exit(0)


def run_tasks(prop, tasks, seed, tier, shrink=True):
    """ Returns (stats per sub, first failure or None, the same made smaller or None, errors) """
    stats, errors = {}, []
    found, final = None, None
    running = {}
    queue = list(tasks)
    started = time.monotonic()
    found_at = None
    ctx = multiprocessing.get_context("fork")

    def start():
        sub, shard, n = queue.pop(0)
        recv, send = ctx.Pipe(False)
        proc = ctx.Process(target=_worker, args=(send, prop, sub, shard, n, seed))
        proc.start()
        send.close()
        running[recv] = (proc, sub.name, shard)

    def stop_all(keep=None):
        for conn, (proc, _n, _s) in list(running.items()):
            if conn is keep:
                continue
            proc.kill()
            proc.join()
            conn.close()
            del running[conn]

    def absorb(payload):
        s = stats.setdefault(payload["sub"], {
            "n": 0, "distinct": set(), "nontrivial": set(), "labels": {}, "samples": []})
        s["n"] += payload["n"]
        s["distinct"].update(payload["distinct"])
        s["nontrivial"].update(payload["nontrivial"])
        for key, value in payload["labels"].items():
            s["labels"][key] = s["labels"].get(key, 0) + value
        s["samples"].extend(payload["samples"][:max(0, 2 - len(s["samples"]))])

    finder = None
    while queue or running:
        while queue and len(running) < WORKERS and found is None:
            start()
        if found is not None:
            queue = []
        ready = multiprocessing.connection.wait(list(running), timeout=1.0)
        for conn in ready:
            if conn not in running:
                continue
            proc, name, shard = running[conn]
            try:
                kind, payload = conn.recv()
            except EOFError:
                proc.join()
                conn.close()
                del running[conn]
                if conn is not finder or final is None:
                    errors.append("worker {}#{} ended without an answer (exit {})".format(name, shard, proc.exitcode))
                continue
            if kind == "stats":
                absorb(payload)
            elif kind == "found":
                if found is None:
                    found, found_at, finder = payload, time.monotonic(), conn
                    stop_all(keep=conn if shrink else None)
                    break
            elif kind == "final":
                final = payload
            elif kind == "error":
                errors.append("{}#{}: {}".format(name, shard, payload))
                proc.join()
                conn.close()
                del running[conn]
            elif kind == "done":
                proc.join()
                conn.close()
                del running[conn]
        if final is not None:
            stop_all()
            break
        if found_at is not None and time.monotonic() - found_at > SHRINK_BUDGET:
            stop_all()
            break
        if time.monotonic() - started > HARD_LIMIT[tier]:
            stop_all()
            if found is None:
                errors.append("time budget exhausted: inconclusive")
            break
    return stats, found, final, errors


def load_known(here, prop):
    path = os.path.join(here, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [e for e in json.load(f)["findings"] if e["property"] == prop]


def replay_in_child(sub, cases):
    """ Run a list of cases in one fresh process; True when the last one fails """
    ctx = multiprocessing.get_context("fork")
    recv, send = ctx.Pipe(False)

    def target():
        sys.stderr = open(os.devnull, "w")
        out = None
        for case in cases:
            out, _c, _t = engine.run_case(sub, case)
        send.send(out)
        send.close()
        os._exit(0)
    proc = ctx.Process(target=target)
    proc.start()
    send.close()
    try:
        out = recv.recv()
    except EOFError:
        out = None
    proc.join()
    return out


def shorten(sub, cases, error, budget=90):
    """ Drop earlier cases of a history as long as its last case still fails """
    deadline = time.monotonic() + budget
    size = max(1, (len(cases) - 1) // 2)
    while time.monotonic() < deadline:
        smaller, at = False, 0
        while at < len(cases) - 1 and time.monotonic() < deadline:
            attempt = cases[:at] + cases[min(at + size, len(cases) - 1):]
            out = replay_in_child(sub, attempt)
            if out is not None:
                cases, error, smaller = attempt, out, True
            else:
                at += size
        if size == 1 and not smaller:
            break
        size = max(1, size // 2)
    return cases, error


def main(argv, here):
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    parser.add_argument("--replay")
    parser.add_argument("--sub", action="append")
    parser.add_argument("--scale", type=float, default=1.0)
    parser.add_argument("--labels", action="store_true")
    parser.add_argument("--no-shrink", action="store_true", help="stop at the first failure, do not look for a smaller one")
    args = parser.parse_args(argv)
    began = time.monotonic()
    prop = args.property
    seed = _seed()
    try:
        support.load()
        import multiprocessing.connection  # noqa
        module = importlib.import_module("vlib.props." + prop.lower())
        subs = module.SUBS
    except BaseException:
        # the code under test cannot even be imported, or the harness is broken: no verdict
        traceback.print_exc()
        return 2
    by_name = {s.name: s for s in subs}

    if args.replay:
        with open(args.replay) as f:
            data = json.load(f)
        sub = by_name[data["sub"]]
        out = replay_in_child(sub, data.get("history") or [data["case"]])
        if out is None:
            print("replay: the property holds on this case")
            return 0
        print(out)
        print("VIOLATION property={} replay={}".format(prop, args.replay))
        return 1

    tasks = []
    for sub in subs:
        if args.sub and sub.name not in args.sub:
            continue
        n = int((sub.quick * QUICK if args.tier == "quick" else sub.thorough) * args.scale)
        n = max(1, n)
        shards = max(1, min(WORKERS if args.tier == "quick" else 4 * WORKERS, n // 20))
        base, extra = divmod(n, shards)
        for shard in range(shards):
            tasks.append((sub, shard, base + (1 if shard < extra else 0)))
    # interleave: the first shard of every sub first
    tasks.sort(key=lambda t: t[1])

    stats, found, final, errors = run_tasks(prop, tasks, seed, args.tier, not args.no_shrink)

    # findings which are listed as known: probed on their exact input
    known_lines = []
    for entry in load_known(here, prop):
        if entry.get("status") != "known":
            continue
        sub_name, case = entry["probe"]["sub"], entry["probe"]["case"]
        probes = getattr(module, "PROBES", {})
        probe = engine.Sub(sub_name, None, probes[sub_name])
        if replay_in_child(probe, [case]) is not None:
            known_lines.append("KNOWN-FINDING: property={} {}".format(prop, entry["what"]))

    violations = 0
    code = 0
    if found is not None:
        sub = by_name[found["sub"]]
        cases, error = None, None
        for failure in (final, found):
            # alone, in a process of its own
            if failure is not None and cases is None:
                out = replay_in_child(sub, [failure["case"]])
                if out is not None:
                    cases, error = [failure["case"]], out
        if cases is None:
            # it only fails after the cases which ran before in the same process
            out = replay_in_child(sub, found["history"])
            if out is not None:
                cases, error = shorten(sub, found["history"], out)
        if cases is not None:
            record = {"property": prop, "sub": sub.name, "case": cases[-1], "error": error, "seed": seed, "tier": args.tier}
            if len(cases) > 1:
                record["history"] = cases
            os.makedirs(os.path.join(here, "replays"), exist_ok=True)
            path = os.path.join("replays", "{}-{}-{}.json".format(prop, sub.name, engine.shard_seed(engine.dumps(cases))))
            with open(os.path.join(here, path), "w") as f:
                json.dump(record, f, indent=1, sort_keys=True)
            violations = 1
            code = 1
            print("--- {} / {} fails on the case{}:".format(
                prop, sub.name, " (after {} other cases in the same process)".format(len(cases) - 1) if len(cases) > 1 else ""))
            print(engine.dumps(cases[-1])[:3000])
            print(error)
            print("VIOLATION property={} replay={}".format(prop, path))
        else:
            errors.append("a failure of {} did not reproduce: {}".format(sub.name, found["error"]))
    if errors and code == 0:
        for e in errors:
            print("HARNESS ERROR: " + e)
        code = 2
    for line in known_lines:
        print(line)

    evaluations = sum(s["n"] for s in stats.values())
    nontrivial = sum(len(s["nontrivial"]) for s in stats.values())
    samples = []
    for name, s in stats.items():
        for case in s["samples"]:
            samples.append({"sub": name, "case": case})
    rules = "; ".join("{}: {}".format(s.name, s.rule) for s in subs if s.name in stats)
    evidence = {
        "property": prop,
        "tier": args.tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": nontrivial,
            "rule": "Hypothesis-generated plain-data cases run against the oracle of each sub-check; counted "
                    "non-trivial (distinct by content) when -- " + rules,
            "samples": samples[:12],
            "subchecks": {
                name: {"evaluations": s["n"], "distinct": len(s["distinct"]),
                       "distinct_nontrivial": len(s["nontrivial"]), "labels": dict(sorted(s["labels"].items()))}
                for name, s in sorted(stats.items())
            },
            "exhaustive": False
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - began, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    with open(os.path.join(here, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
    print("{} tier={} seed={} cases={} distinct non-trivial={} wall={:.1f}s exit={}".format(
        prop, args.tier, seed, evaluations, nontrivial, time.monotonic() - began, code))
    if args.labels:
        for name, s in sorted(stats.items()):
            print("  {} n={} distinct={} nontrivial={}".format(name, s["n"], len(s["distinct"]), len(s["nontrivial"])))
            for key, value in sorted(s["labels"].items()):
                print("      {:<40} {}".format(key, value))
    return code
