"""C09: generation from YAML files is isolated and degrades safely."""
import os

import core
import data as D
import oracle
from runner import HistoryGen, LiveRun, Threads, baseline, scheduling

from props.c01 import hash_state
from props.c03 import CODES

ID = "C09"
LEVEL = "exploration"
TECHNIQUE = "seeded schedules of generations from YAML files with the same name and faults of the temporary folder and the loader"
NOTE = (
    "Seeded search. 1-3 threads with 1-3 files each (all with the same name in different folders), files with the names of "
    "older or other temporary files planted, kills before. Faults hit the events of the temporary folder that the calls "
    "really make. Interruptions that arrive while the temporary file is created or removed are excused from leaving it."
)
RULE = (
    "seeded programs (0-2 sequential generations, maybe killed, then 1-3 threads with 1-3 generations, then 1-2), in memory and "
    "live, without faults and then with up to 6 sets of faults; non-trivial: a temporary file was used. "
    "Distinct: different event log (includes the schedule)"
)
STATES = "distinct generated texts"
PARTS = [("pre",), ("tasks", "*"), ("post",), ("faults",), ("stalls",), ("schedule",)]


def cases(tier):
    return 200 if tier == "quick" else 7000


def scenarios(bench, rng, tier, index):
    gen = HistoryGen(bench, rng, bad=0.0)
    base_name = rng.choice(["conf.yaml", "conf.yaml", "foreign.yaml", "data.yml", "ñ.yaml", "with space.yaml"])
    texts = [D.yaml_text(rng) for _ in range(rng.randrange(1, 4))]
    texts += [D.vary_yaml(rng.choice(texts), rng) for _ in range(3)]
    count = 0
    cfg = {}

    def op():
        nonlocal count
        count += 1
        r = rng.random()
        dct = gen.yaml_op(rng.randrange(2), cls=f"Y{count}", loaders=False)
        dct["file"] = f"d{count}/{base_name}" if rng.random() < 0.9 else base_name
        dct["text"] = rng.choice(texts)
        if dct["file"] == base_name:  # Shared by several calls
            dct["text"] = texts[0]
        if r < 0.3:
            dct["loader"] = rng.choice(["fail", "oserror", "fail_tmp", "fail_tmp"])
        elif r < 0.5:
            dct["loader"] = rng.choice(["suffix", "typed"])
        if rng.random() < 0.5:
            dct.update(op="lazy_yaml", strat=D.strategies(rng))
            del dct["inst"]
            if rng.random() < 0.3:
                dct["gen"] = 0
                dct["strat"] = {}
        return dct

    pre = []
    for inst in range(2):
        cfg[inst] = gen.new(inst, validate=0)
        pre.append(cfg[inst])
    pre += [op() for _ in range(rng.randrange(3))]
    tasks = [[op() for _ in range(rng.randrange(1, 4))] for _ in range(rng.choice([0, 1, 2, 2, 3]))]
    if not tasks:
        pre.append(op())
    post = [op() for _ in range(rng.randrange(2))]
    if rng.random() < 0.4:  # A file that is modified before each call
        text = rng.choice(texts)
        moment = 7 if rng.random() < 0.5 else None  # Files can have the same date: copied, or in the same instant
        for ops in rng.choice([[pre, pre], [pre, post], [post, post], [pre, pre, post]]):
            edited = dict(op(), text=text, file=f"edited/{base_name}", edit=moment or count)
            ops.append(edited)
            text = D.vary_yaml(text, rng) if rng.random() < 0.3 else D.same_length_yaml(text, rng)
    files = {}
    for name in rng.sample([f"_{base_name}", base_name, f"_n00000_{base_name}", f"_n00001_{base_name}", f"tmp_{base_name}", "n00000"], rng.randrange(4)):
        files[f"tmp/{name}"] = rng.choice(["left: behind # Stale doc\n", D.yaml_text(rng), ""])
    scenario = {"seed": rng.randrange(1 << 30), "proc": gen.proc(), "pre": pre, "tasks": tasks, "post": post, "files": files}
    if rng.random() < 0.3:
        scenario["max_write"] = rng.choice([7, 50, 300])
    yield {**scenario, **scheduling(rng, tasks)}
    every = [o for o in [*pre, *(o for ops in tasks for o in ops)] if o["op"] != "new"]
    base = baseline(bench, dict(scenario, ops=[*pre, *(o for ops in tasks for o in ops)]), Plain)
    for number in range(6):
        faults = []
        for target in rng.sample(every, min(len(every), rng.choice([1, 1, 1, 2]))):
            events = list(enumerate(base.sim.events.get(target["id"], ()), 1))
            tmp = [k for k, (kind, label, _) in events if label.startswith("tmp/") and kind != "stat"]
            other = [k for k, (kind, label, _) in events if label.startswith("user/") and kind != "stat"]
            chosen = tmp if tmp and rng.random() < 0.88 else other
            if not chosen:
                continue
            fault = {"op": target["id"], "k": rng.choice(chosen), "errno": rng.choice([*CODES, "ENOENT"]), "frac": rng.choice([0.01, 0.5, 0.95])}
            fault["kind"] = rng.choice(["err"] * 6 + ["short_err", "short_err", "short", "intr", "intr_after", "mem"])
            if fault["kind"] == "err" and rng.random() < 0.3:
                fault.update(sticky=True, only=rng.choice([["create"], ["create", "write"], ["write"], ["unlink"], ["open", "read"]]))
            if target in pre and rng.random() < 0.3:
                fault["kind"] = rng.choice(["crash", "crash_after", "torn"])
            faults.append(fault)
        if faults:
            yield {**scenario, **scheduling(rng, tasks), "faults": faults}


class Plain(LiveRun):
    def expected(self, op, state=None):
        return "ok", self.state


def leftovers(run_, before):
    return {p: c for p, c in core.World.tree(run_.world.tmp).items() if before.get(p, "missing") != c} | {
        p: "removed" for p in before if p not in core.World.tree(run_.world.tmp)
    }


def run(bench, scenario):
    run_ = LiveRun(bench, scenario)
    states = set()
    used = 0
    threads = None
    registered = {}  # class -> texts that it can have

    def verify(op, outcome):
        nonlocal used
        if op["op"] == "new" or run_.violations:
            return
        name = op["cls"]
        key = f"{outcome[0]}:{op['op']}:{op.get('loader', 'yaml')}"
        run_.probes[key] = run_.probes.get(key, 0) + 1
        used += any(label.startswith("tmp/") for _, label, _ in run_.sim.events.get(op["id"], ()))
        injected = [i for i in run_.sim.injected if i["op"] == op["id"]]
        strat = op["strat"] if op["op"] == "lazy_yaml" else run_.config(op)["strat"]
        view = dict(op, op="lazy_yaml", strat=strat)
        run_.probes["edited"] = run_.probes.get("edited", 0) + ("edit" in op)
        expected = run_.expected_text(view)
        plain = run_.expected_text(dict(view, comments=None))
        if expected[0] != "ok" and plain[0] == "ok" and expected[1] != "YamlFileModifierError":
            run_.bad("not-degraded", f"{run_.show(op)}, alone in a new process, raises {expected[1]} because of its comments", op)
            return
        if outcome[0] == "crash":
            registered[name] = [None, expected[1], plain[1]]
            return
        in_tmp = [i for i in injected if i["path"].startswith(run_.world.tmp + "/")]
        allowed, may_raise = [expected], False
        if any(i["kind"] != "short" for i in injected):
            # An interruption is no reason to do without the comments
            allowed = [expected, plain] if any(i["kind"] not in ("short", "intr", "intr_after") for i in injected) else [expected]
            may_raise = len(in_tmp) != len(injected) or any(i["kind"] not in ("err", "short_err", "short") for i in injected)
        if outcome[0] == "raise":
            result = ("raise", type(outcome[1]).__name__)
            if not may_raise and not any(e[0] == "raise" and (run_.matches(outcome, e[1])) for e in allowed):
                run_.bad("raises", f"{run_.show(op)} {injected}: {run_.describe_outcome(outcome)}, expected: {expected[0]}", op)
                return
            registered[name] = [None]
        else:
            if op["op"] == "lazy_yaml":
                text = outcome[1]
                result = ("ok", text)
                if result not in allowed:
                    run_.bad("other-text", f"{run_.show(op)} {injected} gives:\n{text}\n--- expected:\n" + "\n--- or:\n".join(e[1] for e in allowed), op)
                    return
            elif not any(e[0] == "ok" for e in allowed):
                run_.bad("returns", f"{run_.show(op)} {injected} returned instead of raising {expected[1]}", op)
                return
            else:
                registered[name] = [e[1] for e in allowed if e[0] == "ok"]
                result = ("ok", "registered")
        run_.sim.note("text", repr(result))
        states.add(hash_state({"text": repr(result)}))

    def settle(when, before, ops):
        """Nothing is left behind, and the files are as they were."""
        if run_.violations:
            return
        for op in ops:
            if op["op"] == "new":
                continue
            content = core.World.read(os.path.join(run_.world.user, op["file"]))
            if content != op["text"].encode("utf-8"):
                run_.bad("file-modified", f"{when}: {op['file']} has {content!r} instead of {op['text']!r}")
                return
        excused = any(
            i["event"] in ("unlink", "line") or i["kind"] in ("crash", "crash_after", "torn") or (i["kind"] == "intr_after" and i["event"] == "create")
            for i in run_.sim.injected
            if i["op"] in {op["id"] for op in ops}
        )
        changed = leftovers(run_, before)
        if excused:
            changed = {p: c for p, c in changed.items() if p in before}
        if changed:
            names = {p[len(run_.world.tmp) + 1 :]: c for p, c in changed.items()}
            run_.bad("left-behind", f"{when}: files of the temporary folder: {names}")
            return
        registry = run_.registry()
        for problem in registry.problems[:1]:
            run_.bad("registry", f"{when}: {problem}")
            return
        texts = registry.texts()
        for name, options in registered.items():
            if texts.get(name) not in options:
                run_.bad("other-hints", f"{when}: the registered hints of {name} are:\n{texts.get(name)}\n--- expected:\n" + "\n--- or:\n".join(map(str, options)))
                return

    try:
        for op in [*scenario["pre"], None, *scenario["post"]]:
            before = core.World.tree(run_.world.tmp)
            if op is None:
                if not scenario["tasks"]:
                    continue
                threads = Threads(run_, scenario)
                history = threads.execute(scenario["tasks"])
                if run_.sim.anomalies:
                    break
                for record in history:
                    verify(record["op"], record["outcome"])
                settle("after the threads", before, [r["op"] for r in history])
            else:
                outcome = run_.perform(op)
                verify(op, outcome)
                settle(f"after {run_.show(op)}", before, [op])
                if run_.sim.inc.dead:
                    run_.restart({"salt": 9})
            if run_.violations:
                break
    except core.SimAbort:
        pass
    out = run_.outcome(states=states, nontrivial=used > 0)
    return threads.complete(out) if threads else out
