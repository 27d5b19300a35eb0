"""C01: the interface mirrors the registrations, in fault-free histories over instances and processes."""
import core
import data as D
import oracle
from runner import HistoryGen, LiveRun

ID = "C01"
LEVEL = "exploration"
TECHNIQUE = "seeded histories of several simulated processes against a reference model of the registry"
NOTE = (
    "Seeded search, not exhaustive. The hints expected of each class are the ones that LazyTypeHint of the same tree gives "
    "alone in a new process; data whose hints are not valid Python on their own (P21) is not used."
)
RULE = (
    "seeded histories (6-16 operations) of from_data/from_yaml_file/reset/new instance/process restart, over random data, "
    "class names, modes and strategies; non-trivial: at least two registrations were acknowledged. Distinct: different event log"
)


def cases(tier):
    return 720 if tier == "quick" else 22000


def scenarios(bench, rng, tier, index):
    gen = HistoryGen(bench, rng)
    if index % 40 == 7:
        yield many(gen, rng)
        return
    length = rng.randrange(5, 13) if index % 5 else rng.randrange(12, 26)
    ops = gen.history(length, p_reset=rng.choice([0, 0.05, 0.15]), p_restart=rng.choice([0, 0.1, 0.3]))
    yamls = [op for op in ops if op["op"] == "yaml"]
    if yamls and rng.random() < 0.5:  # Again, with other comments or values
        op = dict(rng.choice(yamls), id=gen.id())
        op["text"] = D.vary_yaml(op["text"], rng)
        op["file"] = f"again{op['id']}.yaml"
        position = next(i for i, o in enumerate(ops) if o["op"] == "yaml" and o["cls"] == op["cls"]) + 1
        at = rng.randrange(position, len(ops) + 1)
        ops.insert(at, op)
        if rng.random() < 0.6:  # Validated
            earlier = [o for o in ops[:position] if o["op"] == "new" and o["inst"] == op["inst"]]
            op["inst"] = 7
            ops.insert(at, gen.new(7, validate=1, strat=earlier[-1].get("strat", {}) if earlier else {}))
    if rng.random() < 0.15:  # Data that makes a call while it is read
        targets = [o for o in ops if o["op"] == "data" and oracle.valid_class_name(o["cls"])]
        for op in targets[:1]:
            inner = dict(gen.data(op["inst"], {}, cls=rng.choice(gen.names)), inst=rng.choice([op["inst"], 8]))
            op["inner"] = inner
            op["data"] = ["src", [["int", 1], ["str", "a"]], {"as": "gen"} if rng.random() < 0.5 else {}]
            if rng.random() < 0.5:
                op["data"] = ["dict", [[["str", "values"], op["data"]]]]
    yield {"seed": rng.randrange(1 << 30), "proc": gen.proc(), "ops": ops}


def many(gen, rng):
    """Many classes with little data."""
    names = rng.sample([f"{a}{b}" for a in ("C", "Class", "c_", "Ñ", "_X") for b in range(30)], rng.choice([9, 14, 22, 40]))
    values = [["int", 1], ["str", "a"], ["list", [["int", 1]]], ["dict", [[["str", "a"], ["int", 1]]]], ["none"], ["float", 0.5]]
    ops = [gen.new(0, validate=0.2, strat={}), gen.new(1, validate=0, strat={})]
    ops += [gen.data(rng.randrange(2), {}, cls=name, spec=rng.choice(values)) for name in names]
    ops += [gen.data(rng.randrange(2), {}, cls=rng.choice(names), spec=rng.choice(values)) for _ in range(3)]
    if rng.random() < 0.6:
        ops.insert(rng.randrange(3, len(ops)), gen.restart())
    return {"seed": rng.randrange(1 << 30), "proc": gen.proc(), "ops": ops}


def run(bench, scenario):
    run_ = LiveRun(bench, scenario)
    states = set()
    acknowledged = 0
    for op in scenario["ops"]:
        if op["op"] == "restart":
            run_.restart(op)
            continue
        expected, state = run_.expected(op)
        before = oracle.generated_files(bench.world)
        try:
            outcome = run_.perform(op)
        except core.SimAbort:
            break
        if not run_.matches(outcome, expected):
            run_.bad(
                "outcome",
                f"{run_.show(op)}: {run_.describe_outcome(outcome)} (expected: {expected})",
                op,
            )
            break
        if "inner" in op:
            run_.probes[f"nested:{run_.nested and run_.nested[0]}"] = 1
            inner = run_.expected(op["inner"], run_.state)[0]
            if run_.nested is None or not run_.matches(run_.nested, inner):
                got = run_.nested and run_.describe_outcome(run_.nested)
                run_.bad("outcome", f"{run_.show(op)}: the call that its data makes ends with {got} (expected: {inner})", op)
                break
            run_.state = state
        if expected == "ok":
            run_.state = state
            acknowledged += op["op"] in ("data", "yaml")
        elif "inner" not in op and oracle.generated_files(bench.world) != before:
            run_.bad("rejected-but-changed", f"{run_.show(op)} was rejected but the generated files changed", op)
            break
        run_.probes[f"{op['op']}:{expected}"] = run_.probes.get(f"{op['op']}:{expected}", 0) + 1
        if not run_.compare(run_.state, op):
            break
        states.add(hash_state(run_.state))
    return run_.outcome(states=states, nontrivial=acknowledged >= 2)


def hash_state(state):
    import hashlib

    return hashlib.blake2b(repr(sorted(state.items())).encode("utf-8", "backslashreplace"), digest_size=8).hexdigest()
