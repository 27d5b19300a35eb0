"""C05: reset gives a clean state, whatever the state was."""
import core
import oracle
from runner import HistoryGen, LiveRun, baseline

from props.c01 import hash_state
from props.c02 import kill_points
from props.c03 import fault_points

ID = "C05"
LEVEL = "fault_enumeration"
TECHNIQUE = "resets from states left by kills, errors and interruptions at file system events, compared with a fresh installation"
NOTE = (
    "Differential: what follows the reset is compared with the same calls made in a second simulated world where nothing had "
    "been generated (files byte for byte, and results). Fault points of one call of each history are enumerated; histories, "
    "planted states (other processes, older versions) and what follows are sampled."
)
RULE = (
    "seeded histories (3-8 operations) where one call (reset in half of the cases) is killed, fails or is interrupted at each "
    "event, then reset (once or twice, in the same or in a new process, maybe with files planted in the generated folder), "
    "then 2-5 calls with instances created before and after. Distinct: different event log; non-trivial: something had been "
    "generated before the reset"
)
STATES = "distinct states of the generated files when reset is called"
PARTS = [("pre",), ("post",), ("faults",), ("plant",)]


def cases(tier):
    return 96 if tier == "quick" else 3400


def plants(rng):
    """States of the generated files that no history of this version gives."""
    build = "pkg/lazy_type_hint/generators/build"
    pyi = "pkg/lazy_type_hint/generators/lazy_type_hint_live.pyi"
    options = [
        [f"{build}/4013_139.tmp", "class A("],
        [f"{build}/Old.py", "class Old: ..."],
        [f"{build}/__pycache__/A.cpython-312.pyc", "x"],
        [f"{build}/sub/deep/file.txt", "x"],
        [f"{build}/A.py", ""],
        [f"{build}/.hidden", ""],
        [pyi, ""],
        [pyi, "from typing import Any\nclass LazyTypeHintLive:\n    classes_created: Any = Union[Lit"],
        [build, None],
    ]
    return rng.sample(options, rng.randrange(1, 4))


def scenarios(bench, rng, tier, index):
    gen = HistoryGen(bench, rng, bad=0.02)
    pre = gen.history(rng.randrange(3, 8), n_inst=3, p_reset=rng.choice([0.0, 0.2]), p_restart=rng.choice([0.0, 0.15]), validate=0.3)
    if rng.random() < 0.6:
        pre.append(gen.reset(3))
    cfg = {op["inst"]: op for op in pre if op["op"] == "new"}
    if rng.random() < 0.25:
        pre.append(gen.restart())
    post = []
    for _ in range(rng.randrange(2, 6)):
        r = rng.random()
        if r < 0.15:
            op = gen.new(rng.randrange(3), validate=0.5)
            cfg[op["inst"]] = op
        elif r < 0.22:
            op = gen.restart()
        elif r < 0.35:
            op = gen.yaml_op(rng.randrange(3))
        else:
            op = gen.data(rng.randrange(3), cfg)
        post.append(op)
    scenario = {
        "seed": rng.randrange(1 << 30),
        "proc": gen.proc(),
        "pre": pre,
        "resets": [gen.reset(3) for _ in range(rng.choice([1, 1, 2]))],
        "post": post,
    }
    yield scenario
    yield dict(scenario, plant=plants(rng))
    base = baseline(bench, dict(scenario, ops=pre))
    targets = [op for op in pre if any(mut for _, _, mut in base.sim.events.get(op["id"], ()))]
    if not targets:
        return
    op = pre[-1] if pre[-1] in targets else rng.choice(targets)
    events = base.sim.events[op["id"]]
    points = kill_points(events, rng) + fault_points(events, None, rng, n_lines=0)
    rng.shuffle(points)
    for point in points[:14]:
        yield dict(scenario, faults=[dict(point, op=op["id"])], **({"plant": plants(rng)} if rng.random() < 0.1 else {}))


def reset_and_continue(run_, scenario, *, fresh):
    """Log of everything that can be seen from the reset on."""
    seen = []
    for op in scenario["resets"] if not fresh else ():
        outcome = run_.perform(op)
        if outcome[0] != "ok":
            run_.bad("reset-fails", f"{run_.show(op)}: {run_.describe_outcome(outcome)}", op)
            return seen
        left = sorted(oracle.generated_files(run_.world))
        if left:
            run_.bad("left-behind", f"after {run_.show(op)} these are still there: {left}", op)
            return seen
    for op in scenario["post"]:
        if op["op"] == "restart":
            run_.restart(op)
            continue
        outcome = run_.perform(op)
        value = outcome[1]
        if outcome[0] == "ok" and op["op"] == "data":
            value = "same object" if value is run_.given else "other object"
        elif outcome[0] == "ok" and op["op"] == "yaml":
            value = repr(value)
        elif outcome[0] == "raise":
            value = type(value).__name__
        else:
            value = ""
        seen.append((op, outcome[0], value, oracle.generated_files(run_.world)))
    return seen


def run(bench, scenario):
    run_ = LiveRun(bench, scenario)
    try:
        for op in scenario["pre"]:
            if op["op"] == "restart" or run_.sim.inc.dead:
                run_.restart(op)
                if op["op"] == "restart":
                    continue
            outcome = run_.perform(op)
            left = sorted(oracle.generated_files(run_.world)) if op["op"] == "reset" and outcome[0] == "ok" else ()
            if left:
                run_.bad("left-behind", f"{run_.show(op)} returned, and these are still there: {left}", op)
                return run_.outcome()
        if run_.sim.inc.dead:
            run_.restart({"salt": 3})
        for path, content in scenario.get("plant", ()):
            path = f"{run_.world.root}/{path}"
            if content is None:
                core._real["unlink"](path) if path.endswith(".pyi") else __import__("shutil").rmtree(path, ignore_errors=True)
            else:
                core.World.write(path, content)
        before = oracle.generated_files(run_.world)
        first = reset_and_continue(run_, scenario, fresh=False)
    except core.SimAbort:
        return run_.outcome()
    out = run_.outcome(states={hash_state({k: repr(v) for k, v in before.items()})}, nontrivial=bool(before))
    if run_.violations:
        return out
    # The same, where nothing has ever been generated
    fresh = LiveRun(bench, dict(scenario, faults=[]))
    for op in scenario["pre"]:
        if op["op"] == "restart":
            fresh.restart(op)
        elif op["op"] == "new":
            fresh.perform(op)
    try:
        second = reset_and_continue(fresh, scenario, fresh=True)
    except core.SimAbort:
        second = []
    fresh.sim.finish()
    for (op, *got), (_, *wanted) in zip(first, second):
        if got != wanted:
            what = "result" if got[:2] != wanted[:2] else "files"
            out.violations.append(
                {
                    "kind": f"different-{what}",
                    "message": f"after a reset, {run_.show(op)} gives other {what} than in a fresh installation:\n--- after reset\n"
                    f"{got[:2]} {oracle.describe(got[2])}\n--- fresh\n{wanted[:2]} {oracle.describe(wanted[2])}",
                    "op": op["id"],
                }
            )
            break
    return out
