"""C15: generations do not influence each other."""
import core
import data as D
import oracle
from runner import HistoryGen, LiveRun, Threads, baseline, line_points, scheduling

from props.c01 import hash_state

ID = "C15"
LEVEL = "exploration"
TECHNIQUE = "seeded schedules (preemption at lines of the package) and aborted generations, compared with the same generation alone"
NOTE = (
    "Seeded search. 2-3 threads, or a sequence with generations aborted at any line of the package (KeyboardInterrupt, "
    "MemoryError) or by the data. Generators, strategies and data objects are shared in part of the runs. Each result is "
    "compared with the one of a new process that only does that."
)
RULE = (
    "seeded programs: 0-4 generations (part of them aborted), then 2-3 threads with 1-3 generations each (part of them aborted), "
    "then 1-3 generations; 3 schedules and sets of faults for each; non-trivial: a generation was aborted or preempted. "
    "Distinct: different event log (includes the schedule and the texts)"
)
STATES = "distinct generated texts"
PARTS = [("pre",), ("tasks", "*"), ("post",), ("faults",), ("stalls",), ("schedule",)]


def cases(tier):
    return 320 if tier == "quick" else 9500


STREAMS = ("iter", "gen", "src", "textio", "bytesio")


class Specs:
    def __init__(self, bench, rng, gen):
        self.rng, self.gen = rng, gen
        self.shared = []
        self.n = 0

    def op(self, *, aborts=0.2):
        rng, gen = self.rng, self.gen
        strat = D.strategies(rng) if rng.random() < 0.5 else {}
        name = rng.choice(gen.names)
        if rng.random() < 0.18:
            op = gen.yaml_op(0)
            op.update(op="lazy_yaml", strat=strat)
            del op["inst"]
        else:
            op = {"id": gen.id(), "op": "lazy", "cls": name, "strat": strat}
            r = rng.random()
            if self.shared and r < 0.35:
                op["data"], op["same"] = rng.choice(self.shared)
            else:
                op["data"] = self.spec(strat)
                if r < 0.7 and not D.contains(op["data"], STREAMS):
                    self.n += 1
                    op["same"] = self.n
                    self.shared.append((op["data"], self.n))
            if rng.random() < 0.3:
                op["imports"] = False
            if "same" not in op and rng.random() < aborts:  # The data itself fails
                error = rng.choice(["SourceError", "KeyboardInterrupt", "MemoryError"])
                items = [gen.spec(strat) for _ in range(3)]
                source = ["src", items, {"fail_at": rng.randrange(1, 4), "error": error, **({"as": "gen"} if rng.random() < 0.5 else {})}]
                op["data"] = [rng.choice(["list", "tuple"]), [op["data"], ["dict", [[["str", "s"], source], [["str", "t"], ["int", 1]]]], ["int", 1]]]
                op["aborted"] = True
        if rng.random() < 0.35:
            op["gen"] = rng.randrange(2)
            op["strat"] = {} if op["gen"] == 0 else {"min_height_to_define_type_alias": 1}
        elif rng.random() < 0.4:
            op["default"] = True
        limit = op["strat"].get("check_max_n_elements_within_container", 500)
        if op["op"] == "lazy" and limit is not None and D.max_set(op["data"]) > limit:
            op["strat"] = {k: v for k, v in op["strat"].items() if k != "check_max_n_elements_within_container"}
        return op

    def spec(self, strat):
        rng = self.rng
        r = rng.random()
        if r < 0.3:
            return D.Gen(rng, exotic=rng.random() < 0.4, iterators=True, width=6).value()
        if r < 0.5:  # Many names of children and merged dictionaries
            from props.c07 import merged

            return merged(rng)
        return self.gen.spec(strat)


def scenarios(bench, rng, tier, index):
    gen = HistoryGen(bench, rng, bad=0.03, exotic=0.35, zoo=0.25)
    specs = Specs(bench, rng, gen)
    pre = [specs.op() for _ in range(rng.randrange(5))]
    n_tasks = rng.choice([0, 2, 2, 2, 3])
    tasks = [[specs.op(aborts=0.1) for _ in range(rng.randrange(1, 4))] for _ in range(n_tasks)]
    if not tasks and not pre:
        pre = [specs.op()]
    post = [specs.op(aborts=0.05) for _ in range(rng.randrange(1, 4))]
    for i, op in enumerate(post):  # The same things again
        earlier = [o for o in [*pre, *(o for ops in tasks for o in ops)] if not o.get("aborted")]
        if earlier and rng.random() < 0.5:
            post[i] = dict(rng.choice(earlier), id=op["id"])
    scenario = {"seed": rng.randrange(1 << 30), "proc": gen.proc(), "pre": pre, "tasks": tasks, "post": post}
    if rng.random() < 0.25:  # Different things with the same name
        twin = rng.choice(D.datafuncs.TWIN_NAMES)
        for name in rng.sample([twin, f"other{twin}"], 2):
            data = ["obj", name] if rng.random() < 0.5 else ["dict", [[["str", "a"], ["obj", name]]]]
            op = {"id": gen.id(), "op": "lazy", "cls": rng.choice(gen.names), "strat": {}, "data": data}
            ops = rng.choice([pre, post, *tasks])
            ops.insert(rng.randrange(len(ops) + 1), op)
    changeable = [o for o in [*pre, *(o for ops in tasks for o in ops)] if "same" in o and o["data"][0] in ("list", "dict") and o["op"] == "lazy"]
    if changeable and rng.random() < 0.5:  # The same object, with other content
        for _ in range(rng.choice([1, 2, 3])):
            op = dict(rng.choice(changeable), id=gen.id())
            for _ in range(8):
                data = D.vary(op["data"], rng)
                if data[0] == op["data"][0] and (len(data[1]) == len(op["data"][1]) or rng.random() < 0.3) and D.max_set(data) <= 1:
                    op["data"] = data
            post.append(op)
    if rng.random() < 0.3:
        scenario["nested"] = {"id": 0, "op": "lazy", "cls": rng.choice(gen.names), "data": gen.spec({}), "strat": {}}
        if D.contains(scenario["nested"]["data"], STREAMS) or not gen.usable(scenario["nested"]["data"]):
            del scenario["nested"]
        else:
            for op in [o for o in [*pre, *(o for ops in tasks for o in ops), *post] if o["op"] == "lazy" and "same" not in o][:2]:
                source = ["src", [gen.spec({}), gen.spec({})], {"as": "gen"} if rng.random() < 0.5 else {}]
                op["data"] = ["dict", [[["str", "first"], op["data"]], [["str", "second"], source], [["str", "third"], ["list", [source]]]]]
    base = baseline(bench, dict(scenario, ops=[*pre, *(o for ops in tasks for o in ops)], trace_lines=True), Plain)
    for number in range(3):
        schedule = scheduling(rng, tasks, trace=1.0)
        schedule["p"]["line"] = rng.choice([0.005, 0.02, 0.1, 0.4])
        faults = []
        if number:
            for op in rng.sample([*pre, *(o for ops in tasks for o in ops)], min(2, len(pre) + len(tasks))):
                for line in line_points(base.sim.locations.get(op["id"]), rng, 1):
                    faults.append({"op": op["id"], "line": line, "kind": rng.choice(["intr", "intr", "mem"])})
        yield {**scenario, **schedule, "faults": faults}


class Plain(LiveRun):
    def expected(self, op, state=None):
        return "ok", self.state


def run(bench, scenario):
    run_ = LiveRun(bench, scenario)
    run_.sim.trace_lines = bool(scenario.get("trace"))
    faulty = {f["op"] for f in scenario.get("faults", ())}
    states = set()
    aborted = 0
    threads = None

    def verify(op, outcome):
        nonlocal aborted
        key = f"{outcome[0]}:{op['op']}"
        run_.probes[key] = run_.probes.get(key, 0) + 1
        if op.get("aborted"):
            aborted += outcome[0] == "raise"
            return
        expected = run_.expected_text(op)
        if op["id"] in faulty:
            if outcome[0] == "raise":
                aborted += 1
                return
            allowed = [expected]
            if op["op"] == "lazy_yaml":  # Without comments if there is no memory to read them
                allowed.append(run_.expected_text(dict(op, comments=None)))
        else:
            allowed = [expected]
        result = ("ok", outcome[1]) if outcome[0] == "ok" else (outcome[0], type(outcome[1]).__name__)
        run_.sim.note("text", repr(result))
        states.add(hash_state({"text": repr(result)}))
        if result not in allowed and not run_.violations:
            run_.bad("influenced", f"{run_.show(op)} gives:\n{result[1]}\n--- alone in a new process ({allowed[0][0]}):\n{allowed[0][1]}", op)

    nested = scenario.get("nested")
    if nested is not None:
        reference = run_.expected_text(nested)

        def on_pull(count):
            """The data makes other generations while it is read."""
            if count > 2:
                return
            text = run_.image.lazy().from_data(D.build(nested["data"]), class_name=nested["cls"]).to_string()
            run_.probes["nested"] = run_.probes.get("nested", 0) + 1
            if ("ok", text) != reference and not run_.violations:
                run_.bad("influenced", f"generated while other data is read:\n{text}\n--- alone:\n{reference[1]}")

        run_.env.on_pull = on_pull

    try:
        for op in scenario["pre"]:
            verify(op, run_.perform(op))
            if run_.violations:
                return run_.outcome(states=states)
        if scenario["tasks"]:
            threads = Threads(run_, scenario)
            history = threads.execute(scenario["tasks"])
            if not run_.sim.anomalies:
                for record in history:
                    verify(record["op"], record["outcome"])
        if not run_.sim.anomalies and not run_.violations:
            for op in scenario["post"]:
                verify(op, run_.perform(op))
    except core.SimAbort:
        pass
    out = run_.outcome(states=states, nontrivial=bool(aborted or (threads and threads.sched.switches)))
    return threads.complete(out) if threads else out
