"""C06: threads can use the live registry at the same time."""
import core
import oracle
from runner import FaultRun, HistoryGen, Threads, linearizable, scheduling

from props.c01 import hash_state

ID = "C06"
LEVEL = "exploration"
TECHNIQUE = "seeded schedules (preemption at file system, lock and line events) checked for linearizability and at every instant"
NOTE = (
    "Seeded search over interleavings of 2-3 threads with 2-6 calls. Threads switch only where the simulator decides: file "
    "system events, simulated locks and (in a third of the runs) lines of the package. Linearizability is decided exactly "
    "for each history (all orders consistent with real time). Concurrency among processes is C18."
)
RULE = (
    "seeded programs (2-3 threads, 1-3 calls each, after 0-4 sequential calls and followed by 0-2), 5 seeded schedules each, in a fifth "
    "of the runs with an I/O error or a kill; non-trivial: at least one context switch inside a call. Distinct: different event log"
)
STATES = "distinct contents of the registry once the threads have finished"
PARTS = [("pre",), ("tasks", "*"), ("post",), ("faults",), ("stalls",), ("schedule",)]


def cases(tier):
    return 320 if tier == "quick" else 9500


def scenarios(bench, rng, tier, index):
    gen = HistoryGen(bench, rng, max_names=3, bad=0.03, exotic=0.1, yaml=0.2)
    pre, cfg = [], {}
    n_shared = rng.randrange(1, 4)
    for inst in range(n_shared):
        cfg[inst] = gen.new(inst, validate=0.35)
        pre.append(cfg[inst])
    for _ in range(rng.randrange(3)):
        pre.append(gen.data(rng.randrange(n_shared), cfg))
    if rng.random() < 0.15:
        pre.append(gen.reset(n_shared))
    n_tasks = rng.choice([2, 2, 3])
    tasks, total = [], 0
    for number in range(n_tasks):
        ops = []
        own = [*range(n_shared)]
        for _ in range(rng.randrange(1, 4 if n_tasks == 2 else 3)):
            if total == 6:
                break
            total += 1
            r = rng.random()
            if r < 0.1:
                inst = 10 + 10 * number + len(ops)
                cfg[inst] = gen.new(inst, validate=0.4)
                own.append(inst)
                ops.append(cfg[inst])
            elif r < 0.2:
                ops.append(gen.reset(n_shared))
            elif r < 0.35:
                ops.append(gen.yaml_op(rng.choice(own)))
            else:
                ops.append(gen.data(rng.choice(own), cfg))
        tasks.append(ops)
    post = [gen.data(rng.randrange(n_shared), cfg) for _ in range(rng.randrange(3))]
    scenario = {"seed": rng.randrange(1 << 30), "proc": gen.proc(), "pre": pre, "tasks": tasks, "post": post}
    for number in range(5):
        schedule = scheduling(rng, tasks)
        if number == 4:
            op = rng.choice([op for ops in tasks for op in ops])
            kind = rng.choice(["crash", "crash_after", "torn", "err", "err", "err", "intr", "short_err"])
            schedule["faults"] = [{"op": op["id"], "k": rng.randrange(1, 16), "kind": kind, "errno": "ENOSPC", "frac": 0.4}]
        yield {**scenario, **schedule}


class Run(FaultRun):
    """Invariant at any instant: The interface is right and each listed class has one of the texts it can have."""

    concurrent = False

    def observe(self):
        if not self.concurrent:
            return super().observe()
        if self.violations:
            return None
        registry = self.registry()
        problem = registry.problems[0] if registry.problems else ""
        if not problem:
            for name, text in registry.texts().items():
                if text not in self.possible.get(name, ()):
                    problem = f"the module of {name} is not complete or not its own:\n{text}"
                    break
        if problem:
            self.bad("instant", f"while the threads run: {problem}")
        return None

    def prepare(self, tasks):
        """All the texts that each class can have while the threads run."""
        self.possible = {name: {text} for name, text in self.state.items()}
        for ops in tasks:
            for op in ops:
                if op["op"] == "new":
                    self.cfg[str(op["inst"])] = {"strat": op.get("strat", {}), "mode": op.get("mode", "overwrite")}
        for ops in tasks:
            for op in ops:
                if op["op"] in ("data", "yaml"):
                    for state in self.states_after(op).get("ok", ()):
                        self.possible.setdefault(op["cls"], set()).add(state.get(op["cls"]))
                    # A class that is rejected now can be accepted after another call
                    for _, state in (self.expected(op, {}), self.expected(dict(op, comments=None), {})):
                        if op["cls"] in state:
                            self.possible.setdefault(op["cls"], set()).add(state[op["cls"]])

    def after(self, record, state):
        op, outcome = record["op"], record["outcome"]
        faulty = op["id"] in self.faulty
        variants = [op]
        if op["op"] == "yaml" and op.get("comments", "side") is not None and faulty:
            variants.append(dict(op, comments=None))
        for variant in variants:
            expected, following = self.expected(variant, state)
            if outcome[0] == "crash" or (faulty and outcome[0] == "raise"):
                yield state
                if expected == "ok":
                    yield following
            elif self.matches(outcome, expected):
                yield following


def run(bench, scenario):
    run_ = Run(bench, scenario)
    threads = None
    try:
        for op in scenario["pre"]:
            if not run_.step(op):
                return run_.outcome()
        run_.prepare(scenario["tasks"])
        start = run_.state
        threads = Threads(run_, scenario)
        run_.concurrent = True
        history = threads.execute(scenario["tasks"])
        run_.concurrent = False
        if not run_.sim.anomalies and not run_.violations:
            check(run_, history, start)
        if not run_.sim.anomalies and not run_.violations:
            for record in history:
                run_.count(f"{record['outcome'][0]}:{record['op']['op']}")
            if run_.sim.inc.dead:
                run_.restart({"salt": 5})
            for op in scenario["post"]:
                if not run_.step(op):
                    break
    except core.SimAbort:
        pass
    out = run_.outcome(states={hash_state(run_.state)}, nontrivial=bool(threads and threads.sched.switches))
    return threads.complete(out) if threads else out


def check(run_, history, start):
    registry = run_.registry()
    final = registry.texts()
    calls = "\n".join(
        f"  thread {r['task']} from {r['inv']} to {r['ret']}: {run_.show(r['op'])}: {run_.describe_outcome(r['outcome'])}" for r in history
    )
    if registry.problems:
        run_.bad("registry", f"after the threads: {registry.problems[0]}\n{calls}")
        return
    if not linearizable(history, start, final, run_.after):
        run_.bad(
            "not-linearizable",
            f"no order of the calls explains their results and the final classes {sorted(final)} (before: {sorted(start)}):\n{calls}",
        )
        return
    run_.state = final
    if registry.pyi is not None:
        for problem in oracle.check_signatures(registry.view, run_.image.live)[:1]:
            run_.bad("registry", f"after the threads: {problem}\n{calls}")
