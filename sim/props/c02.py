"""C02: a kill at any instant never corrupts the registry."""
import core
from runner import FaultRun, HistoryGen, LiveRun, baseline

from props.c01 import hash_state

ID = "C02"
LEVEL = "fault_enumeration"
TECHNIQUE = "kills at every file system event (before, after and inside of each write) of calls of seeded histories"
NOTE = (
    "In each history every mutating file system event of one call is a kill point (before, after, torn writes); the "
    "histories, data and second kills are sampled. A kill loses the memory of the process and its unwritten buffers; what "
    "was written survives (no power loss, as stated in the property)."
)
RULE = (
    "seeded histories (3-9 operations); in each one, all the kill points of one call are executed one by one (every event "
    "that changes files: before, after and at a random position inside of writes), then a new process repeats the call and "
    "continues, maybe being killed again. Distinct: different event log; non-trivial: the kill happened"
)
STATES = "distinct contents of the registry found after the kills"


def cases(tier):
    return 96 if tier == "quick" else 3200


def kill_points(events, rng):
    points = []
    last = len(events)
    for k, (kind, _, mut) in enumerate(events, 1):
        if mut:
            points.append({"k": k, "kind": "crash"})
            points.append({"k": k, "kind": "crash_after"})
            if kind == "write":
                points.append({"k": k, "kind": "torn", "frac": rng.choice([0.02, 0.3, 0.6, 0.97])})
    if last:
        for k in {1, last, rng.randrange(1, last + 1)}:
            points.append({"k": k, "kind": "crash"})
    return points


def scenarios(bench, rng, tier, index):
    gen = HistoryGen(bench, rng, bad=0.02)
    length = rng.randrange(3, 9)
    ops = gen.history(length, p_reset=rng.choice([0.0, 0.15, 0.3]), p_restart=0.1, validate=0.25)
    scenario = {"seed": rng.randrange(1 << 30), "proc": gen.proc(), "ops": ops}
    if rng.random() < 0.3:
        scenario["same_pid"] = True
    if rng.random() < 0.3:
        scenario["max_write"] = rng.choice([1 << 10, 1 << 8])
    base = baseline(bench, scenario)
    targets = [op for op in ops if any(mut for _, _, mut in base.sim.events.get(op["id"], ()))]
    if not targets:
        return
    op = rng.choice(targets)
    events = base.sim.events[op["id"]]
    points = kill_points(events, rng)
    if len(points) > 30:
        rng.shuffle(points)
        points = points[:30]
    for point in points:
        yield dict(scenario, faults=[dict(point, op=op["id"])])
    # Killed more than once: also while repeating the call and in other calls
    for _ in range(3):
        point = dict(rng.choice(points), op=op["id"])
        again = dict(rng.choice(points), op=f"{op['id']}+")
        faults = [point, again]
        if len(targets) > 1 and rng.random() < 0.5:
            other = rng.choice(targets)
            if other is not op:
                faults.append(dict(rng.choice(kill_points(base.sim.events[other["id"]], rng)), op=other["id"]))
        yield dict(scenario, faults=faults)


def run(bench, scenario):
    run_ = FaultRun(bench, scenario)
    states = set()
    killed = 0
    try:
        for op in scenario["ops"]:
            attempt = op
            while True:
                if not run_.step(attempt):
                    return run_.outcome(states=states)
                if not run_.sim.inc.dead:
                    break
                killed += 1
                states.add(hash_state(run_.state))
                run_.restart({"salt": 1000 + killed})
                attempt = dict(attempt, id=f"{attempt['id']}+")  # A new process repeats it
    except core.SimAbort:
        pass
    return run_.outcome(states=states, nontrivial=killed > 0)
