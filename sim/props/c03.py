"""C03: a call that fails leaves the registry as it was, and can be repeated."""
import core
from runner import FaultRun, HistoryGen, baseline, line_points

from props.c01 import hash_state

ID = "C03"
LEVEL = "fault_enumeration"
TECHNIQUE = "errors, short writes and interruptions at file system events and code lines of calls of seeded histories"
NOTE = (
    "In each history one call fails at every file system event (errors and interruptions), with exhausted resources from "
    "any event on, and is interrupted at sampled lines of the package; histories, data and error codes are sampled. stat "
    "calls do not fail. Faults in the clean up of another fault are included (persistent errors, double faults)."
)
RULE = (
    "seeded histories (3-8 operations); in each one, faults are injected in one call: an error at each event, a persistent "
    "error from an event on, short writes, KeyboardInterrupt/MemoryError at events and at lines of the package, double "
    "faults; then other calls are made and the failed one is repeated. Distinct: different event log; non-trivial: a fault fired"
)
CODES = ["ENOSPC", "EIO", "EACCES", "EPERM", "EMFILE", "EROFS", "EDQUOT", "ENOMEM", "ESTALE", "EBUSY"]


def cases(tier):
    return 72 if tier == "quick" else 2400


def fault_points(events, lines, rng, *, n_lines=16):
    points = []
    for k, (kind, _, mut) in enumerate(events, 1):
        if kind == "stat":
            continue
        points.append({"k": k, "kind": "err", "errno": rng.choice(CODES)})
        if kind == "write":
            points.append({"k": k, "kind": "short_err", "errno": "ENOSPC", "frac": rng.choice([0.1, 0.5, 0.9])})
            points.append({"k": k, "kind": "short", "frac": rng.choice([0.01, 0.5, 0.9])})
        if mut:
            points.append({"k": k, "kind": "intr_after"})
        if rng.random() < 0.5:
            points.append({"k": k, "kind": rng.choice(["intr", "mem"])})
        r = rng.random()
        if r < 0.5:
            point = {"k": k, "kind": "err", "errno": rng.choice(["ENOSPC", "EROFS", "EIO", "EMFILE"]), "sticky": True}
            if point["errno"] in ("ENOSPC", "EROFS"):
                point["only"] = ["create", "write", "mkdir", "rename", "truncate"]
            elif point["errno"] == "EMFILE":
                point["only"] = ["create", "open", "scandir", "listdir"]
            elif rng.random() < 0.5:
                point["only"] = ["unlink", "rmdir", "rename"]
            points.append(point)
    for line in line_points(lines, rng, n_lines):
        points.append({"line": line, "kind": rng.choice(["intr", "intr", "mem"])})
    return points


def scenarios(bench, rng, tier, index):
    gen = HistoryGen(bench, rng, bad=0.03, exotic=0.4, zoo=rng.choice([0.05, 0.5]))
    ops = gen.history(rng.randrange(3, 8), p_reset=rng.choice([0.0, 0.1, 0.3]), p_restart=0.06, validate=0.25)
    reset = None
    if rng.random() < 0.2:  # A reset of several classes fails
        reset = gen.reset(3)
        ops.insert(rng.randrange(len(ops) // 2 + 1, len(ops) + 1), reset)
    scenario = {"seed": rng.randrange(1 << 30), "proc": gen.proc(), "ops": ops, "trace_lines": True}
    if rng.random() < 0.3:
        scenario["max_write"] = rng.choice([1 << 10, 1 << 8])
    base = baseline(bench, scenario)
    del scenario["trace_lines"]
    targets = [op for op in ops if base.sim.events.get(op["id"])]
    if not targets:
        return
    op = reset if reset in targets else rng.choice(targets)
    points = fault_points(base.sim.events[op["id"]], base.sim.locations.get(op["id"]), rng)
    if len(points) > 40:
        rng.shuffle(points)
        points = points[:40]
    for point in points:
        yield dict(scenario, faults=[dict(point, op=op["id"])])
    for _ in range(6):  # More than one fault
        first, second = rng.choice(points), rng.choice(points)
        if "k" in first and rng.random() < 0.6:
            second = {"k": first["k"] + rng.randrange(1, 4), "kind": "err", "errno": rng.choice(CODES)}
        faults = [dict(first, op=op["id"]), dict(second, op=op["id"] if rng.random() < 0.6 else f"{op['id']}+")]
        yield dict(scenario, faults=faults)


def run(bench, scenario):
    run_ = FaultRun(bench, scenario)
    states = set()
    ops = list(scenario["ops"])
    try:
        for i, op in enumerate(ops):
            if not run_.step(op):
                break
            if op["id"] in run_.faulty and op["op"] != "restart":
                states.add(hash_state(run_.state))
                # Other calls first in half of the runs
                between = ops[i + 1 : i + 2] if scenario["seed"] % 2 else []
                between = [dict(b, id=f"{b['id']}b") for b in between if b["op"] in ("data", "yaml")]
                if not all(run_.step(b) for b in between):
                    break
                again = dict(op, id=f"{op['id']}+")
                if not run_.step(again):
                    break
                if again["id"] in run_.faulty and not run_.step(dict(op, id=f"{op['id']}++")):
                    break
    except core.SimAbort:
        pass
    return run_.outcome(states=states, nontrivial=bool(run_.sim.fired))
