"""C07: the type hints do not depend on the process that generates them."""
import gc

import data as D
import oracle
from peer import Peer
from runner import HistoryGen, LiveRun

from props.c01 import hash_state

ID = "C07"
LEVEL = "exploration"
TECHNIQUE = "seeded comparison of simulated processes (identities, history) and interpreters with other hash seeds"
NOTE = (
    "Seeded search. The same data is given to: the reference process, interpreters with two other PYTHONHASHSEED (16 + 8 values "
    "per run in total), processes with other identities and hashes of non-scalars, processes and instances that did other things "
    "before, processes where nothing that the data creates is freed or all of it is at once, and the live class. Sets have scalars only, and fit in the limit of elements."
)
RULE = (
    "seeded batches of 4-8 data with their strategies; every one is generated in at least 6 different process environments; "
    "non-trivial: the type hints could be generated. Distinct: different event log (includes the texts)"
)
STATES = "distinct generated texts"
PARTS = [("ops",)]


def cases(tier):
    return 320 if tier == "quick" else 12000


def setup(bench, args):
    bench.peers = [Peer(args, 0), Peer(args, 1)] if args.bucket % 2 == 0 else [Peer(args, 0)]


def sets(gen, rng):
    """Data where the order of a set could matter."""
    scalars = [
        [["str", w] for w in rng.sample(["a", "b", "ab", "ñ", "日本", "x y", "", "class", "zeta", "10"], rng.randrange(2, 7))],
        [["int", rng.randrange(1000)], ["str", "a"], ["float", 0.5], ["none"], ["bool", True], ["str", "z"]],
        [["str", "a"], ["none"], ["int", 7]],
        [["float", 0.25], ["int", 3], ["str", "q"], ["bytes", "x"]],
        [["type", "int"], ["type", "str"], ["none"]],
    ]
    items = rng.choice(scalars)
    rng.shuffle(items)
    spec = [rng.choice(["set", "frozenset"]), items]
    return rng.choice([spec, ["dict", [[["str", "k"], spec], [["str", "l"], gen.spec()]]], ["list", [spec, gen.spec()]], ["tuple", [spec, spec]]])


def merged(rng):
    """Dictionaries that are merged, compared or have many keys: order of keys."""
    keys = rng.sample(D.KEYS + ["k1", "k2", "k3", "k4"], rng.randrange(3, 8))
    values = [["int", 1], ["str", "a"], ["float", 0.5], ["list", [["int", 1]]], ["dict", [[["str", "in"], ["int", 1]]]], ["none"]]
    base = [[["str", k], rng.choice(values)] for k in keys]
    dicts = []
    for _ in range(rng.randrange(2, 5)):
        pairs = [list(p) for p in base if rng.random() < 0.75]
        rng.shuffle(pairs)
        dicts.append(["dict", pairs])
    kind = rng.choice(["list", "tuple", "list", "mapping", "mixed"])
    if kind == "mapping":
        return [rng.choice(["dict", "mproxy", "odict"]), [[rng.choice([["int", i], ["str", f"k{i}"]]), d] for i, d in enumerate(dicts)]]
    if kind == "mixed":
        return ["list", [*dicts, ["int", 1], ["list", dicts], ["tuple", dicts], ["none"]]]
    return [kind, dicts]


def created(gen, rng):
    """Containers of the user that create their elements, that can be freed at once, when they are requested."""

    def value():
        items = [rng.choice([["int", 1], ["str", "a"], ["float", 0.5], ["none"], ["list", [["int", 1]]]]) for _ in range(rng.randrange(4))]
        r = rng.random()
        if r < 0.5:
            return [rng.choice(["iter", "gen", "iter", "gen", "lazyseq"]), items]
        if r < 0.7:
            return ["dict", [[["str", k], [rng.choice(["iter", "gen"]), items]] for k in rng.sample(D.KEYS[:4], 2)]]
        if r < 0.85:
            return ["list", [["gen", items], ["iter", items]]]
        return gen.spec()

    values = [value() for _ in range(rng.randrange(2, 6))]
    values += [rng.choice(values) for _ in range(rng.randrange(3))]
    rng.shuffle(values)
    if rng.random() < 0.7:
        return ["lazyseq", values]
    return ["lazymap", [[["str", f"k{i}"] if rng.random() < 0.5 else ["int", i], v] for i, v in enumerate(values)]]


def scenarios(bench, rng, tier, index):
    gen = HistoryGen(bench, rng, bad=0, exotic=0.4, zoo=0.2)
    ops = []
    for _ in range(rng.randrange(4, 9)):
        strat = D.strategies(rng)
        r = rng.random()
        spec = sets(gen, rng) if r < 0.3 else merged(rng) if r < 0.5 else created(gen, rng) if r < 0.7 else gen.spec(strat)
        limit = strat.get("check_max_n_elements_within_container", 500)
        if limit is not None and D.max_set(spec) > limit:
            strat.pop("check_max_n_elements_within_container")
        ops.append({"id": gen.id(), "op": "lazy", "cls": rng.choice(gen.names), "strat": strat, "data": spec})
        if rng.random() < 0.3:
            ops[-1]["gen"] = 0
            ops[-1]["strat"] = {}
    order = list(range(len(ops)))
    rng.shuffle(order)
    yield {"seed": rng.randrange(1 << 30), "proc": gen.proc(), "salts": [rng.randrange(1, 1 << 20) for _ in range(3)], "ops": ops, "order": order}


def run(bench, scenario):
    ops = scenario["ops"]
    requests = [{"strat": op["strat"], "cls": op["cls"], "data": op["data"]} for op in ops]
    environments = {"reference process": [bench.ref_data(r["strat"], r["cls"], r["data"]) for r in requests]}
    for i, peer in enumerate(bench.peers):
        batch = requests if i == 0 else requests[::-1]
        texts = [tuple(t) for t in peer.ask({"kind": "texts", "requests": batch})["texts"]]
        environments[f"interpreter {i + 1} with another hash seed"] = texts if i == 0 else texts[::-1]
    # Processes with other identities. Each operation in a new one, or all of them together in any order
    run_ = LiveRun(bench, scenario)
    for salt in scenario["salts"][:2]:
        texts = []
        for op in ops:
            run_.restart({"salt": salt})
            texts.append(result(run_.perform(op)))
        environments[f"process with identities {salt}"] = texts
    run_.restart({"salt": scenario["salts"][1]})
    run_.env.retain = []
    environments["process where what the data creates is not freed"] = [result(run_.perform(op)) for op in ops]
    run_.env.retain = None
    if D.contains([op["data"] for op in ops], ("lazyseq", "lazymap")):
        run_.restart({"salt": scenario["salts"][2]})
        gc.collect()
        gc.freeze()
        run_.env.collect = True
        environments["process where what the data creates is freed at once"] = [result(run_.perform(op)) for op in ops]
        run_.env.collect = False
        gc.unfreeze()
    for salt, order in ((scenario["salts"][2], range(len(ops))), (scenario["salts"][0], scenario["order"])):
        run_.restart({"salt": salt})
        texts = [None] * len(ops)
        for i in order:
            if i < len(ops):
                texts[i] = result(run_.perform(ops[i]))
        environments[f"process that generated others before ({'same' if isinstance(order, range) else 'other'} order)"] = texts
    # Live class: text of the module
    texts = []
    for op in ops:
        live = dict(op, op="data", inst=str(op["strat"]))
        run_.cfg[str(op["strat"])] = {"strat": op["strat"], "mode": "overwrite"}
        outcome = run_.perform(live)
        content = oracle.generated_files(bench.world).get(f"build/{op['cls']}.py")
        texts.append(("ok", content.decode("utf-8", "surrogatepass")) if outcome[0] == "ok" and content is not None else result(outcome))
    environments["live class"] = texts
    states, done = set(), 0
    reference = environments.pop("reference process")
    for i, op in enumerate(ops):
        run_.sim.note("text", repr(reference[i]))
        states.add(hash_state({"text": repr(reference[i])}))
        done += reference[i][0] == "ok"
        for name, texts in environments.items():
            if texts[i] is not None and texts[i] != reference[i]:
                run_.bad("different", f"{run_.show(op)}: in the {name}:\n{show(texts[i])}\n--- in the reference process:\n{show(reference[i])}", op)
                return run_.outcome(states=states)
    run_.probes["environments"] = len(environments) + 1
    return run_.outcome(states=states, nontrivial=done > 0)


def result(outcome):
    if outcome[0] == "ok":
        return ("ok", outcome[1])
    return ("raise", type(outcome[1]).__name__)


def show(text):
    return f"{text[0]}: {text[1]}"
