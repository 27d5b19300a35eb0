"""C08: calls give the data back untouched."""
import os

import core
import data as D
from runner import HistoryGen, LiveRun, baseline

from props.c03 import fault_points

ID = "C08"
LEVEL = "exploration"
TECHNIQUE = "fingerprints of the data around seeded calls with errors and interruptions at file system events and lines"
NOTE = (
    "Seeded search. The fingerprint has the structure, values, order, types and identities of all nested containers (also of "
    "DataFrames, Series, arrays, defaultdicts, views of dictionaries and streams), taken by the simulator before and after each "
    "call. One-shot iterators are only checked to be the same object."
)
RULE = (
    "seeded histories (2-16 calls of LazyTypeHintLive and LazyTypeHint, data and YAML files, the same objects in several of them), "
    "executed without faults and, half of them, also with a fault at up to 14 points of one of its calls. Distinct: different event log; "
    "non-trivial: at least a call succeeded"
)
PARTS = [("ops",), ("faults",)]


def cases(tier):
    return 360 if tier == "quick" else 7200


HIDDEN = "___docstring_hidden_key_"


def big_frame(rng):
    gen = D.Gen(rng)
    return gen.frame() if rng.random() < 0.8 else ["series", [gen.scalar() for _ in range(3)], gen.pandas_options()]


def rich(gen, rng, strat):
    """Data with things that the library could be tempted to change."""
    spec = gen.spec(strat)
    if rng.random() < 0.5:
        big = D.Gen(rng, exotic=True, iterators=True)
        spec = big.value()
    r = rng.random()
    if r < 0.25:
        key = rng.choice(D.KEYS)
        pairs = [[["str", key], spec], [["str", HIDDEN + key], ["str", "Documentation of the key"]]]
        spec = ["dict", pairs if rng.random() < 0.5 else pairs[::-1]]
    elif r < 0.4:
        spec = ["dict", [[["str", "name"], ["str", "Documentation"]], [["str", "x"], ["shared", 1, spec]], [["str", "y"], ["list", [["shared", 1, spec], ["shared", 1, spec]]]]]]
    elif r < 0.5:
        dicts = [["dict", [[["str", "a"], ["int", 1]], [["str", "b"], spec]]], ["dict", [[["str", "a"], ["int", 2]], [["str", "b"], spec], [["str", "c"], ["none"]]]]]
        spec = [rng.choice(["list", "tuple"]), dicts]
    elif r < 0.62:
        frame = big_frame(rng)
        spec = frame if rng.random() < 0.5 else ["list", [frame, spec]]
    elif r < 0.66:
        spec = ["dict", [[["str", k], rng.choice([spec, ["str", "Documentation"], ["int", 1]])] for k in rng.sample(D.KEYS, rng.randrange(4, 10))]]
    elif r < 0.72:
        spec = [rng.choice(["ddict", "udict", "mproxy", "odict"]), [[["str", "k"], spec], [["str", "l"], ["list", [["int", 1], spec]]]]]
    return spec


def scenarios(bench, rng, tier, index):
    gen = HistoryGen(bench, rng, bad=0.05, exotic=0.5, zoo=0.3, max_names=2)
    ops, cfg = [], {}
    for inst in range(2):
        cfg[inst] = gen.new(inst, validate=0.4)
        if rng.random() < 0.4:
            cfg[inst]["strat"]["key_used_as_doc"] = rng.choice(["name", "name", "tags", "x"])
        ops.append(cfg[inst])
    specs = []
    wide = index % 2 == 1  # A lot of data without faults
    for _ in range(rng.randrange(8, 16) if wide else rng.randrange(2, 6)):
        inst = rng.randrange(2)
        strat = cfg[inst]["strat"]
        if rng.random() < 0.3:
            op = gen.yaml_op(inst)
            if rng.random() < 0.3:
                op.update(op="lazy_yaml", strat=strat)
        else:
            op = {"id": gen.id(), "op": "data", "inst": inst, "cls": rng.choice(gen.names)}
            if specs and rng.random() < 0.4:
                op["data"], op["same"] = rng.choice(specs)
            else:
                op["data"], op["same"] = rich(gen, rng, strat), op["id"]
                specs.append((op["data"], op["same"]))
            if rng.random() < 0.1:
                op["cls"] = "not valid"
            if rng.random() < 0.35:
                op.update(op="lazy", strat=strat)
        ops.append(op)
    scenario = {"seed": rng.randrange(1 << 30), "proc": gen.proc(), "ops": ops}
    yield scenario
    if wide:
        return
    base = baseline(bench, dict(scenario, trace_lines=True), Plain)
    targets = [op for op in ops if op["op"] != "new"]
    if not targets:
        return
    op = rng.choice(targets)
    points = fault_points(base.sim.events.get(op["id"], ()), base.sim.locations.get(op["id"]), rng, n_lines=14)
    rng.shuffle(points)
    for point in points[:14]:
        yield dict(scenario, faults=[dict(point, op=op["id"])])


class Plain(LiveRun):
    def expected(self, op, state=None):
        return "ok", self.state


class Loaded(list):
    """What the loader returned, as it was then."""

    def append(self, item):
        super().append((*item, D.fingerprint(item[1])))


class Run(LiveRun):
    new_loaded = Loaded

    def action(self, op):
        self.given = None
        self.loaded = Loaded()
        fn = super().action(op)
        self.before = D.fingerprint(self.given) if op["op"] in ("data", "lazy") else None
        return fn


def run(bench, scenario):
    run_ = Run(bench, scenario)
    good = 0
    for op in scenario["ops"]:
        try:
            outcome = run_.perform(op)
        except core.SimAbort:
            break
        good += outcome[0] == "ok" and op["op"] != "new"
        what = run_.describe_outcome(outcome)
        key = f"{outcome[0]}:{op['op']}"
        run_.probes[key] = run_.probes.get(key, 0) + 1
        if op["op"] in ("data", "lazy"):
            if D.fingerprint(run_.given) != run_.before:
                run_.bad("modified", f"{run_.show(op)} ({what}) modified the data:\n--- before\n{run_.before}\n--- after\n{D.fingerprint(run_.given)}", op)
                break
            if op["op"] == "data" and outcome[0] == "ok" and outcome[1] is not run_.given:
                run_.bad("other-object", f"{run_.show(op)} returned another object: {outcome[1]!r}", op)
                break
        if op["op"] in ("yaml", "lazy_yaml"):
            path = os.path.join(run_.world.user, op["file"])
            if core.World.read(path) != op["text"].encode("utf-8"):
                run_.bad("file-modified", f"{run_.show(op)} ({what}) modified the file: {core.World.read(path)!r}", op)
                break
            loaded = [item for item in run_.loaded if item[0] == path]
            for _, value, before in loaded:
                if D.fingerprint(value) != before:
                    run_.bad("modified", f"{run_.show(op)} ({what}) modified what the loader returned: {value!r}", op)
                    break
            if op["op"] == "yaml" and outcome[0] == "ok" and not any(outcome[1] is value for _, value, _ in loaded):
                run_.bad("other-object", f"{run_.show(op)} returned {outcome[1]!r}, which is not what the loader returned: {loaded!r}", op)
            if run_.violations:
                break
    return run_.outcome(nontrivial=good > 0)
