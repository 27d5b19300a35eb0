"""C18: several processes can register classes at the same time."""
import core
from runner import HistoryGen, Threads, scheduling

from props.c01 import hash_state
from props.c06 import Run

ID = "C18"
LEVEL = "exploration"
TECHNIQUE = "seeded schedules of several simulated processes, with their own memory and locks, over the same files, with kills and I/O errors"
NOTE = (
    "Seeded search over interleavings of 2-4 processes with 1-3 calls each. Each process has its own image of the package (so its "
    "own locks and instances), process identifier and hash seed, and they share the file system. Processes switch at file system "
    "events, locks and, in a third of the runs, lines. No process resets. A class that is registered while another process registers "
    "something can be lost from the interface, as the statement says."
)
RULE = (
    "seeded programs (0-4 sequential calls, then 2-4 processes with 1-3 calls each, then 1-3 calls of a new process), 5 seeded "
    "schedules each, in two fifths of the runs with an I/O error or a kill; non-trivial: at least one switch inside a call. "
    "Distinct: different event log"
)
STATES = "distinct contents of the registry once the processes have finished"
PARTS = [("pre",), ("tasks", "*"), ("post",), ("faults",), ("stalls",), ("schedule",)]


def cases(tier):
    return 300 if tier == "quick" else 9000


def scenarios(bench, rng, tier, index):
    gen = HistoryGen(bench, rng, max_names=4, bad=0.03, exotic=0.1, yaml=0.2)
    pre, cfg = [], {}
    cfg[0] = gen.new(0, validate=0.3)
    pre.append(cfg[0])
    for _ in range(rng.choice([0, 1, 2, 3])):
        pre.append(gen.data(0, cfg))
    tasks = []
    for number in range(rng.choice([2, 2, 3, 4])):
        old = number == 0 and rng.random() < 0.5  # The first one already worked before
        inst = 0 if old else 10 + 10 * number
        ops = []
        if not old:
            cfg[inst] = gen.new(inst, validate=0.3)
            ops.append(cfg[inst])
        for _ in range(rng.randrange(1, 4)):
            ops.append(gen.yaml_op(inst) if rng.random() < 0.15 else gen.data(inst, cfg))
            if len(ops) > 1 and ops[-2]["op"] == "data" and rng.random() < 0.2:  # The same again
                ops[-1] = dict(ops[-2], id=gen.id())
        tasks.append(ops)
    for ops in tasks:
        again = [op for op in ops if op["op"] == "data"]
        others = [op for other in tasks if other is not ops for op in other if op["op"] == "data"]
        if again and others and rng.random() < 0.25:  # The same again, after what another process does
            op, other = rng.choice(again), rng.choice(others)
            if gen.usable(op["data"], cfg[op["inst"]]["strat"]):
                other["cls"] = op["cls"]
                ops.append(dict(op, id=gen.id()))
    cfg[90] = gen.new(90, validate=0.0)
    post = [cfg[90]] + [gen.data(90, cfg) for _ in range(rng.randrange(1, 3))]
    for op in post:
        if rng.random() < 0.5 and op["op"] == "data":  # What could be lost is registered again
            other = rng.choice([o for ops in tasks for o in ops if o["op"] != "new"])
            if other["op"] == "data" and gen.usable(other["data"], cfg[90]["strat"]):
                op.update(cls=other["cls"], data=other["data"])
    procs = [{"salt": rng.randrange(1, 1 << 20), "enc": rng.choice(["utf-8", "utf-8", "cp1252"])} for _ in tasks]
    scenario = {"seed": rng.randrange(1 << 30), "proc": gen.proc(), "pre": pre, "tasks": tasks, "post": post, "procs": procs}
    for number in range(5):
        schedule = scheduling(rng, tasks)
        if number == 2:  # One call after another
            schedule["p"] = {"io": rng.choice([0.0, 0.01]), "lock": 0.0}
            schedule.pop("trace", None)
        if number >= 3:
            op = rng.choice([op for ops in tasks for op in ops])
            kind = rng.choice(["crash", "crash_after", "torn"] if number == 3 else ["err", "err", "short_err", "intr"])
            schedule["faults"] = [{"op": op["id"], "k": rng.randrange(1, 16), "kind": kind, "errno": "ENOSPC", "frac": 0.4}]
        yield {**scenario, **schedule}


class ProcessesRun(Run):
    @property
    def image(self):
        task = core.cur()
        return (task.inc if task is not None else self.sim.inc).image

    def variants(self, op):
        return [op, dict(op, comments=None)] if op["op"] == "yaml" and op["id"] in self.faulty else [op]

    def results(self, record, work):
        """Results that the call can have, depending on what the others have done."""
        op = record["op"]
        calls = [r for r in work if r is not record and r["op"]["cls"] == op["cls"]]
        accepted = [r for r in calls if r["outcome"][0] == "ok" and until(r) <= record["inv"]]
        states = []
        if op["cls"] in self.before:
            if not accepted:
                states.append({op["cls"]: self.before[op["cls"]]})
        elif not any(alone(r, work) for r in accepted):
            states.append({})
        for other in calls:
            if other["inv"] >= until(record) or (other["outcome"][0] == "raise" and other["op"]["id"] not in self.faulty):
                continue
            if not any(r["inv"] >= until(other) for r in accepted):
                for variant in self.variants(other["op"]):
                    states.append({k: v for k, v in self.expected(variant, {})[1].items() if k == op["cls"]})
        return {self.expected(variant, state)[0] for variant in self.variants(op) for state in states}


class Processes(Threads):
    def execute(self, tasks, perform=None):
        self.first = self.sim.inc
        self.sched.on_resume = self.resume
        return super().execute(tasks, perform)

    def process(self, number):
        ops = self.run.scenario["tasks"][number]
        if ops and ops[0]["op"] != "new" and number == 0:
            return self.first
        procs = self.run.scenario["procs"]
        proc = procs[number % len(procs)]
        inc = self.run.bench.boot(self.sim, salt=proc["salt"], encoding=proc["enc"])
        return inc

    def between(self, task):
        self.sched.yield_point(task, "call")

    def resume(self, task):
        task.ident = 0x7F00_0000_0740  # All of them are main threads
        factory = self.run.bench.factory
        if factory.current is not task.inc.image:
            factory.swap(task.inc.image)


def run(bench, scenario):
    run_ = ProcessesRun(bench, scenario)
    processes = None
    try:
        for op in scenario["pre"]:
            if not run_.step(op):
                return run_.outcome()
        run_.before = dict(run_.state)
        run_.prepare(scenario["tasks"])
        processes = Processes(run_, scenario)
        run_.concurrent = True
        history = processes.execute(scenario["tasks"])
        run_.concurrent = False
        if not run_.sim.anomalies and not run_.violations:
            check(run_, history)
        if not run_.sim.anomalies and not run_.violations:
            for record in history:
                run_.count(f"{record['outcome'][0]}:{record['op']['op']}")
            run_.restart({"salt": 5})
            for op in scenario["post"]:
                if not run_.step(op):
                    break
    except core.SimAbort:
        pass
    out = run_.outcome(states={hash_state(run_.state)}, nontrivial=bool(processes and processes.sched.switches))
    return processes.complete(out) if processes else out


def until(record):
    return record["ret"] if record["ret"] is not None else 1 << 60


def alone(record, work):
    return not any(r["task"] != record["task"] and r["inv"] < until(record) and until(r) > record["inv"] for r in work)


def check(run_, history):
    work = [r for r in history if r["op"]["op"] != "new"]
    calls = "\n".join(
        f"  process {r['task']} from {r['inv']} to {r['ret']}: {run_.show(r['op'])}: {run_.describe_outcome(r['outcome'])}" for r in history
    )
    for record in history:
        op, outcome = record["op"], record["outcome"]
        if op["op"] == "new" or outcome[0] == "crash":
            if op["op"] == "new" and outcome[0] == "raise" and op["id"] not in run_.faulty:
                run_.bad("outcome", f"{run_.show(op)}: {run_.describe_outcome(outcome)}\n{calls}", op)
                return
            continue
        results = run_.results(record, work)
        if not any(run_.matches(outcome, r) for r in results) and not (op["id"] in run_.faulty and outcome[0] == "raise"):
            run_.bad("outcome", f"{run_.show(op)}: {run_.describe_outcome(outcome)}, expected: {sorted(results)}\n{calls}", op)
            return
    registry = run_.registry()
    for problem in registry.problems[:1]:
        run_.bad("registry", f"after the processes: {problem}\n{calls}")
        return
    final = registry.texts()
    must = set(run_.before)
    for record in work:
        if record["outcome"][0] == "ok" and alone(record, work):
            must.add(record["op"]["cls"])
    lost = sorted(must - set(final))
    if lost:
        run_.bad("lost", f"{lost} were registered when nobody else was registering anything, and they are not any more\n{calls}")
        return
    for name, text in final.items():
        options = set()
        mine = [r for r in work if r["op"]["cls"] == name]
        done = [r for r in mine if r["outcome"][0] == "ok"]
        for record in mine:
            if record["outcome"][0] == "raise" and record["op"]["id"] not in run_.faulty:
                continue
            if any(other["inv"] >= until(record) for other in done if other is not record):
                continue
            for variant in run_.variants(record["op"]):
                state = run_.expected(variant, {})[1]
                if name in state:
                    options.add(state[name])
        if not done and name in run_.before:
            options.add(run_.before[name])
        if text not in options:
            run_.bad("other-hints", f"after the processes, the module of {name} is:\n{text}\n--- expected one of:\n" + "\n---\n".join(sorted(options)) + f"\n{calls}")
            return
    run_.state = final
