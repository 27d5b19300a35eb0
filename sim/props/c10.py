"""C10: renders and exports of a tree are repeatable."""
import os
from pathlib import Path

import core
import data as D
from runner import HistoryGen, LiveRun, Threads, line_points, scheduling

from props.c01 import hash_state
from props.c03 import CODES

ID = "C10"
LEVEL = "exploration"
TECHNIQUE = "seeded sequences and schedules of to_string/to_file on shared trees, with file system errors, short writes and interruptions"
NOTE = (
    "Seeded search. Threads render and export shared trees with preemption at lines and file system events. The text of each "
    "render is compared with the one of a new process, and the exported bytes with it. Threads do not write the same file at "
    "the same time (in that case the content is not specified)."
)
RULE = (
    "seeded programs with 1-3 trees and 3-12 renders and exports (part of them in 2-3 threads; existing, longer, missing and "
    "impossible targets), without faults and with up to 5 sets of errors, short writes, interruptions or folders that appear "
    "meanwhile; non-trivial: a tree was rendered twice. Distinct: different event log"
)
STATES = "distinct pairs of (rendered text, exported files)"
PARTS = [("pre",), ("tasks", "*"), ("post",), ("faults",), ("stalls",), ("schedule",)]


def cases(tier):
    return 320 if tier == "quick" else 9500


def big(rng):
    keys = [f"key_{i}" for i in range(rng.choice([200, 400, 900]))]
    kinds = [["int", 1], ["str", "a"], ["list", [["int", 1]]], ["dict", [[["str", "x"], ["int", 1]]]]]
    return ["dict", [[["str", k], kinds[i % rng.choice([1, 2, 4])]] for i, k in enumerate(keys)]]


PATHS = [
    "user/out.py",
    "user/existing.py",
    "user/long.py",
    "user/new/deep/er/out.py",
    "user/new/out.py",
    "user/new/deep/other.py",
    "user/ñandú/日本.py",
    "user/file.txt/out.py",
    "user/folder",
    "user/no extension",
]
FILES = {
    "user/existing.py": "# previous content\n",
    "user/long.py": "# previous content\n" * 9000,
    "user/file.txt": "not a folder",
    "user/folder/keep.txt": "keep",
}


def scenarios(bench, rng, tier, index):
    gen = HistoryGen(bench, rng, bad=0, exotic=0.35, zoo=0.3)
    trees = []
    for number in range(rng.randrange(1, 4)):
        strat = D.strategies(rng)
        spec = big(rng) if rng.random() < 0.15 else gen.spec(strat)
        if not gen.usable(spec, strat):
            spec = ["dict", [[["str", "a"], ["int", 1]], [["str", "b"], ["list", [["int", 1], ["str", "x"]]]]]]
        trees.append({"id": gen.id(), "op": "tree", "t": number, "cls": rng.choice(gen.names), "strat": strat, "data": spec})
    pool = list(PATHS)
    rng.shuffle(pool)

    def op(paths):
        tree = rng.randrange(len(trees))
        if rng.random() < 0.55 or not paths:
            return {"id": gen.id(), "op": "render", "t": tree, "imports": rng.random() < 0.5}
        dct = {"id": gen.id(), "op": "tofile", "t": tree, "path": rng.choice(paths)}
        if rng.random() < 0.6:
            dct["create"] = rng.random() < 0.85
        dct["as"] = rng.choice(["str", "path", "relative"])
        return dct

    n_tasks = rng.choice([0, 2, 2, 3])
    own = [pool[i::4] for i in range(4)]
    pre = trees + [op(pool) for _ in range(rng.randrange(1, 5) if n_tasks == 0 else rng.randrange(3))]
    tasks = [[op(own[i]) for _ in range(rng.randrange(1, 5))] for i in range(n_tasks)]
    post = [op(pool) for _ in range(rng.randrange(1, 4))]
    scenario = {"seed": rng.randrange(1 << 30), "proc": gen.proc(), "pre": pre, "tasks": tasks, "post": post, "files": FILES}
    if rng.random() < 0.3:
        scenario["max_write"] = rng.choice([100, 1000, 4096])
    yield {**scenario, **scheduling(rng, tasks, trace=0.7)}
    every = [*pre[len(trees) :], *(o for ops in tasks for o in ops)]
    if not every:
        return
    base = run_program(bench, dict(scenario, trace=True, faults=[]), locations=True)
    for _ in range(4):
        faults = []
        for target in rng.sample(every, min(len(every), rng.choice([1, 1, 2]))):
            events = base.sim.events.get(target["id"], ())
            r = rng.random()
            if events and r < 0.75:
                k = rng.randrange(1, len(events) + 1)
                kind = rng.choice(["err", "err", "short_err", "short", "intr", "intr_after", "mkdir", "mkdir", "mem"])
                if kind in ("short", "short_err"):
                    writes = [i for i, e in enumerate(events, 1) if e[0] == "write"]
                    k = rng.choice(writes) if writes else k
                fault = {"op": target["id"], "k": k, "kind": kind, "errno": rng.choice(CODES), "frac": rng.choice([0.01, 0.5, 0.99])}
                if kind == "mkdir":
                    folder = os.path.dirname(target.get("path", "user/new/deep/x"))
                    fault["path"] = rng.choice([folder, os.path.dirname(folder)]) if folder.startswith("user/new") else "user/new"
                if kind == "err" and rng.random() < 0.3:
                    fault["sticky"] = True
                faults.append(fault)
            else:
                for line in line_points(base.sim.locations.get(target["id"]), rng, 1):
                    faults.append({"op": target["id"], "line": line, "kind": rng.choice(["intr", "intr", "mem"])})
        yield {**scenario, **scheduling(rng, tasks, trace=0.5), "faults": faults}


class Run(LiveRun):
    def __init__(self, bench, scenario):
        super().__init__(bench, scenario)
        self.trees = {}
        self.specs = {}

    def action(self, op):
        if op["op"] == "tree":
            value = D.build(op["data"], self.env)
            self.kept.append(value)

            def call():
                self.trees[op["t"]] = self.image.lazy(self.image.strategies(**op["strat"])).from_data(value, class_name=op["cls"])

            self.specs[op["t"]] = op
            return call
        if op["op"] == "render":
            return lambda: self.trees[op["t"]].to_string(include_imports=op["imports"])
        path = os.path.join(self.world.root, op["path"])
        given = {"str": path, "path": Path(path), "relative": os.path.relpath(path, self.world.user)}[op.get("as", "str")]
        kwargs = {} if "create" not in op else {"create_non_existing_dir": op["create"]}
        return lambda: self.trees[op["t"]].to_file(given, **kwargs)

    def reference(self, op, imports):
        spec = self.specs[op["t"]]
        return self.bench.ref_data(spec["strat"], spec["cls"], spec["data"], include_imports=imports)


def run_program(bench, scenario, *, locations=False, check=None):
    run_ = Run(bench, scenario)
    if locations:
        run_.sim.locations = {}
    run_.sim.trace_lines = bool(scenario.get("trace") and (locations or scenario.get("faults")))
    run_.threads = None
    try:
        for op in scenario["pre"]:
            before = core.World.tree(run_.world.root) if check else None
            outcome = run_.perform(op)
            if check:
                check(run_, op, outcome, before)
            if run_.violations:
                return run_
        if scenario["tasks"]:
            run_.threads = Threads(run_, scenario)
            history = run_.threads.execute(scenario["tasks"])
            if check and not run_.sim.anomalies:
                last = {}
                for record in history:
                    last[record["op"].get("path")] = record
                for record in history:
                    check(run_, record["op"], record["outcome"], None, final=last[record["op"].get("path")] is record)
        for op in scenario["post"]:
            if run_.violations or run_.sim.anomalies:
                break
            before = core.World.tree(run_.world.root) if check else None
            outcome = run_.perform(op)
            if check:
                check(run_, op, outcome, before)
    except core.SimAbort:
        pass
    run_.sim.finish()
    return run_


def run(bench, scenario):
    faulty = {f["op"]: f for f in scenario.get("faults", ())}
    external = {f["path"] for f in scenario.get("faults", ()) if f["kind"] == "mkdir"}
    threads = any(scenario["tasks"])
    renders = {}
    states = set()

    def check(run_, op, outcome, before, *, final=True):
        if run_.violations:
            return
        key = f"{outcome[0]}:{op['op']}"
        run_.probes[key] = run_.probes.get(key, 0) + 1
        fault = faulty.get(op["id"])
        if op["op"] == "tree":
            if outcome[0] != "ok" and fault is None:
                raise core.HarnessError(f"{run_.show(op)}: {run_.describe_outcome(outcome)}")
            return
        ref = run_.reference(op, op.get("imports", True))
        assert ref[0] == "ok", ref
        if op["op"] == "render":
            renders[op["t"]] = renders.get(op["t"], 0) + 1
            if outcome[0] == "raise":
                if fault is None:
                    run_.bad("render-fails", f"{run_.show(op)}: {run_.describe_outcome(outcome)}", op)
            elif outcome[1] != ref[1]:
                run_.bad("other-text", f"{run_.show(op)} gives:\n{outcome[1]}\n--- instead of:\n{ref[1]}", op)
            return
        path = os.path.join(run_.world.root, op["path"])
        renders[op["t"]] = renders.get(op["t"], 0) + 1
        if outcome[0] == "ok":
            content = core.World.read(path) if os.path.isfile(path) else None
            states.add(hash_state({"text": ref[1], "path": op["path"]}))
            if final and content != ref[1].encode("utf-8"):
                shown = content if content is None else content[:2000]
                run_.bad("other-file", f"{run_.show(op)} returned and the file has:\n{shown}\n--- instead of:\n{ref[1][:2000]}", op)
            return
        if before is None:  # Threads: what was there is not known
            if fault is None and "user/new" in op["path"] and op.get("create"):
                run_.bad("export-fails", f"{run_.show(op)}: {run_.describe_outcome(outcome)}", op)
            return
        parent = os.path.dirname(path)
        after = core.World.tree(run_.world.root)
        created = {p for p in after if p not in before and not any(p == os.path.join(run_.world.root, e) or os.path.join(run_.world.root, e).startswith(p + "/") for e in external)}
        missing = parent not in before and "file.txt" not in parent
        if missing and not op.get("create"):
            if created:
                run_.bad("creates", f"{run_.show(op)} ({run_.describe_outcome(outcome)}) created {sorted(created)}", op)
            elif fault is None and not isinstance(outcome[1], ValueError):
                run_.bad("other-error", f"{run_.show(op)}: {run_.describe_outcome(outcome)} instead of ValueError", op)
        elif (fault is None or fault["kind"] == "mkdir") and "file.txt" not in op["path"] and op["path"] != "user/folder":
            run_.bad("export-fails", f"{run_.show(op)}: {run_.describe_outcome(outcome)}", op)

    run_ = run_program(bench, scenario, check=check)
    out = run_.outcome(states=states, nontrivial=any(n > 1 for n in renders.values()) or bool(run_.sim.fired))
    return run_.threads.complete(out) if threads and run_.threads else out
