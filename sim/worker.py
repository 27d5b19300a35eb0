"""Worker process: executes the cases of one bucket, or one replay, or helps another worker (peer)."""
from __future__ import annotations

import argparse
import copy
import gc
import hashlib
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import core  # noqa: E402  (captures the real functions)

_now = time.monotonic
HANG_SECONDS = 40


class Hang(BaseException):
    """A run does not end."""


def _alarm(signum, frame):
    raise Hang()


def load_property(name):
    return importlib.import_module(f"props.{name.lower()}")


def guarded(seconds, fn):
    """Run `fn` with a (real time) guard against runs that never end."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds, 2.0)
    try:
        return fn()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def reset_after_failure(bench):
    core._tls.task = None
    sys.settrace(None)
    bench.factory.current = None
    for name in bench.factory._own():
        sys.modules.pop(name, None)


def execute(prop, bench, scenario):
    """One simulated run. A run that does not end is a violation too."""
    try:
        return guarded(HANG_SECONDS, lambda: prop.run(bench, copy.deepcopy(scenario)))
    except (Hang, TimeoutError):
        from runner import Outcome, Violation

        reset_after_failure(bench)
        out = Outcome(None, [Violation("hang", f"the run does not end ({HANG_SECONDS} s, no simulated step is missing)")])
        out.fatal = True
        return out


def _get(scenario, path):
    for key in path:
        if isinstance(scenario, dict) and key not in scenario:
            return None
        if isinstance(scenario, list) and key >= len(scenario):
            return None
        scenario = scenario[key]
    return scenario


def _set(scenario, path, value):
    scenario = copy.deepcopy(scenario)
    target = scenario
    for key in path[:-1]:
        target = target[key]
    target[path[-1]] = value
    return scenario


def parts_of(prop, scenario):
    paths = []
    for path in getattr(prop, "PARTS", [("ops",), ("faults",), ("schedule",)]):
        if path[-1] == "*":
            lists = _get(scenario, path[:-1]) or []
            paths.extend([(*path[:-1], i) for i in range(len(lists))])
        elif _get(scenario, path) is not None:
            paths.append(path)
    return paths


def minimise(prop, bench, scenario, kind, *, max_runs=400, seconds=60):
    """Delta debugging of the operations, faults and schedule, then of the arguments."""
    runs = 0
    start = _now()

    def fails(candidate):
        nonlocal runs
        if runs >= max_runs or _now() - start > seconds:
            return None
        runs += 1
        try:
            out = execute(prop, bench, candidate)
        except Exception:  # noqa: BLE001
            reset_after_failure(bench)
            return None  # The candidate is not a valid scenario
        if getattr(out, "fatal", False):
            return None
        if any(v["kind"] == kind for v in out.violations):
            return out
        return None

    best = scenario
    changed = True
    while changed and runs < max_runs and _now() - start < seconds:
        changed = False
        for path in parts_of(prop, best):
            items = _get(best, path)
            if not items:
                continue
            size = max(1, len(items) // 2)
            while size >= 1:
                i = 0
                while i < len(_get(best, path)):
                    items = _get(best, path)
                    candidate = _set(best, path, items[:i] + items[i + size :])
                    if fails(candidate) is not None:
                        best, changed = candidate, True
                    else:
                        i += size
                size //= 2
        for simplify in (getattr(prop, "simplify", None), default_simplify):
            if simplify is None:
                continue
            progress = True
            while progress and runs < max_runs and _now() - start < seconds:
                progress = False
                for candidate in simplify(best):
                    if runs >= max_runs or _now() - start > seconds:
                        break
                    if len(json.dumps(candidate)) >= len(json.dumps(best)):
                        continue
                    if fails(candidate) is not None:
                        best, progress, changed = candidate, True, True
                        break
    return best, runs


def default_simplify(scenario):
    """Remove optional arguments of the operations and simplify their data."""
    import data as D

    def op_lists(obj):
        for key in ("ops", "pre", "post"):
            if isinstance(obj.get(key), list):
                yield (key,), obj[key]
        for i, lst in enumerate(obj.get("tasks", [])):
            yield ("tasks", i), lst

    if scenario.get("max_write"):
        yield {k: v for k, v in scenario.items() if k != "max_write"}
    for path, ops in op_lists(scenario):
        for i, op in enumerate(ops):
            if not isinstance(op, dict):
                continue
            for key in ("pos", "via", "pathlib", "comments", "loader", "strat", "enc"):
                if key in op:
                    yield _set(scenario, (*path, i), {k: v for k, v in op.items() if k != key})
            if "data" in op:
                for simpler in D.shrink(op["data"]):
                    yield _set(scenario, (*path, i, "data"), simpler)
            if op.get("op") == "yaml" and op["text"] != "a: 1 # doc\n":
                yield _set(scenario, (*path, i, "text"), "a: 1 # doc\n")


class Stats:
    def __init__(self):
        self.runs = 0
        self.nontrivial = 0
        self.digests = set()
        self.states = set()
        self.inter = set()
        self.fired = {}
        self.kinds = {}
        self.probes = {}
        self.seconds = 0.0
        self.steps = 0
        self.switches = 0
        self.samples = []

    def add(self, scenario, out):
        self.runs += 1
        if out.nontrivial:
            self.nontrivial += 1
            self.digests.add(out.digest)
        for name in ("fired", "kinds", "probes"):
            mine = getattr(self, name)
            for key, value in getattr(out, name).items():
                mine[key] = mine.get(key, 0) + value
        self.states |= out.states
        if out.inter is not None:
            self.inter.add(out.inter)
        self.seconds += out.seconds
        self.steps += out.steps
        self.switches += out.switches
        if len(self.samples) < 2 and out.nontrivial and self.runs % 7 == 3:
            self.samples.append({"scenario": scenario, "events": out.log[:60], "digest": out.digest})

    def dump(self):
        return {
            "runs": self.runs,
            "nontrivial": self.nontrivial,
            "digests": sorted(self.digests),
            "states": sorted(self.states),
            "inter": sorted(self.inter),
            "fired": self.fired,
            "kinds": self.kinds,
            "probes": self.probes,
            "seconds": self.seconds,
            "steps": self.steps,
            "switches": self.switches,
            "samples": self.samples,
        }


def preload():
    import numpy  # noqa: F401
    import numpy.typing  # noqa: F401
    import pandas  # noqa: F401
    import yaml  # noqa: F401
    import typing_extensions  # noqa: F401


def make_bench(args):
    preload()
    from runner import Bench

    bench = Bench(args.root, args.source)
    image = bench.fresh()  # Warm the caches of compiled code up
    del image
    gc.collect()
    gc.freeze()
    gc.disable()
    return bench


def violation_record(prop, bench, scenario, out, violation, index, *, args, shrink=True):
    record = {
        "property": prop.ID,
        "index": index,
        "kind": violation["kind"],
        "message": violation["message"],
        "scenario": scenario,
        "original_size": len(json.dumps(scenario)),
        "digest": out.digest,
        "hashseed": os.environ.get("PYTHONHASHSEED"),
        "log": out.log[-200:],
        "shrink_runs": 0,
    }
    if getattr(out, "fatal", False) or not shrink:
        return record
    if out.schedule is not None:
        scenario = dict(scenario, schedule=out.schedule)
        again = execute(prop, bench, scenario)
        if not any(v["kind"] == violation["kind"] for v in again.violations):
            return record
    small, runs = minimise(prop, bench, scenario, violation["kind"], seconds=args.shrink_seconds)
    final = execute(prop, bench, small)
    matching = [v for v in final.violations if v["kind"] == violation["kind"]]
    if matching:
        record.update(
            scenario=small, message=matching[0]["message"], digest=final.digest, log=final.log[-200:], shrink_runs=runs
        )
        record["full_scenario"] = scenario
    return record


def run_bucket(args):
    prop = load_property(args.prop)
    bench = make_bench(args)
    known = set(filter(None, args.known.split(",")))
    stats = Stats()
    result = {"violation": None, "known": {}, "error": None, "cases_done": 0, "cases": 0}
    start = _now()
    fatal = False
    images = bench.factory.count
    try:
        if hasattr(prop, "setup"):
            prop.setup(bench, args)
        total = args.cases or prop.cases(args.tier)
        indexes = list(range(args.bucket, total, args.buckets))
        result["cases"] = len(indexes)
        for count, index in enumerate(indexes):
            if _now() - start > args.soft_seconds:
                break
            rng = random.Random(f"{prop.ID}:{args.seed}:{index}")
            generator = prop.scenarios(bench, rng, args.tier, index)
            while True:
                try:
                    scenario = guarded(HANG_SECONDS, lambda: next(generator, None))  # noqa: B023
                except Hang:
                    reset_after_failure(bench)
                    result["violation"] = {
                        "property": prop.ID,
                        "index": index,
                        "kind": "hang",
                        "message": "the generation of the references of this case does not end",
                        "scenario": {"case": index},
                        "digest": "",
                        "hashseed": os.environ.get("PYTHONHASHSEED"),
                        "log": [],
                        "shrink_runs": 0,
                    }
                    fatal = True
                    break
                if scenario is None:
                    break
                scenario = json.loads(json.dumps(scenario))
                out = execute(prop, bench, scenario)
                stats.add(scenario, out)
                if bench.factory.count - images > 60:
                    images = bench.factory.count
                    gc.collect()
                if args.digests:
                    result.setdefault("run_digests", []).append([index, out.digest, len(out.violations)])
                fresh = []
                for violation in out.violations:
                    if violation["kind"] in known:
                        entry = result["known"].setdefault(violation["kind"], [0, violation["message"][:500]])
                        entry[0] += 1
                    else:
                        fresh.append(violation)
                if fresh:
                    result["violation"] = violation_record(prop, bench, scenario, out, fresh[0], index, args=args)
                    fatal = getattr(out, "fatal", False)
                    break
            if result["violation"]:
                break
            result["cases_done"] += 1
    except BaseException:  # noqa: BLE001
        result["error"] = traceback.format_exc()
    result["stats"] = stats.dump()
    result["seconds"] = _now() - start
    with core._real_open(args.out, "w") as file:
        json.dump(result, file)
    sys.stdout.flush()
    os._exit(0 if not fatal else 0)


def run_replay(args):
    prop = load_property(args.prop)
    bench = make_bench(args)
    with core._real_open(args.replay) as file:
        record = json.load(file)
    if hasattr(prop, "setup"):
        prop.setup(bench, args)
    scenario = record["scenario"]
    result = {"error": None, "violations": [], "digest": "", "log": []}
    try:
        if "case" in scenario:
            rng = random.Random(f"{prop.ID}:{record['seed']}:{scenario['case']}")
            try:
                guarded(HANG_SECONDS, lambda: [None for _ in prop.scenarios(bench, rng, record["tier"], scenario["case"])])
            except Hang:
                result["violations"] = [{"kind": "hang", "message": record["message"]}]
        else:
            out = execute(prop, bench, scenario)
            result.update(violations=[dict(v) for v in out.violations], digest=out.digest, log=out.log)
    except BaseException:  # noqa: BLE001
        result["error"] = traceback.format_exc()
    with core._real_open(args.out, "w") as file:
        json.dump(result, file)
    sys.stdout.flush()
    os._exit(0)


def run_peer(args):
    """Another interpreter (different hash seed) that answers requests of a worker."""
    bench = make_bench(args)
    import peer

    output = os.fdopen(os.dup(1), "w")
    output.write("ready\n")
    output.flush()
    for line in sys.stdin:
        request = json.loads(line)
        try:
            answer = peer.answer(bench, request)
        except Exception:  # noqa: BLE001
            answer = {"error": traceback.format_exc()}
        output.write(json.dumps(answer) + "\n")
        output.flush()
    os._exit(0)


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("--prop")
    parser.add_argument("--root", required=True)
    parser.add_argument("--source", required=True)
    parser.add_argument("--out", default="")
    parser.add_argument("--bucket", type=int, default=0)
    parser.add_argument("--buckets", type=int, default=8)
    parser.add_argument("--seed", type=int, default=1)
    parser.add_argument("--tier", default="quick")
    parser.add_argument("--cases", type=int, default=0)
    parser.add_argument("--known", default="")
    parser.add_argument("--soft-seconds", type=float, default=300)
    parser.add_argument("--shrink-seconds", type=float, default=40)
    parser.add_argument("--digests", action="store_true")
    parser.add_argument("--replay", default="")
    parser.add_argument("--peer", action="store_true")
    args = parser.parse_args()
    if args.peer:
        run_peer(args)
    elif args.replay:
        run_replay(args)
    else:
        run_bucket(args)


if __name__ == "__main__":
    main()
