"""C04: validate mode accepts exactly the data that has the registered type hints."""
import core
import data as D
import oracle
from peer import Peer, install_files, pack
from runner import HistoryGen, LiveRun

from props.c01 import hash_state

ID = "C04"
LEVEL = "exploration"
TECHNIQUE = "seeded histories of registrations and validations in simulated processes and in interpreters with other hash seeds"
NOTE = (
    "Seeded search. The verdict expected is the equality of the syntax trees without docstrings of the registered text and "
    "the text of a new process (independent implementation). Pairs are the same data, variations of one detail, comments "
    "and strategies. Hash seeds: 16 real ones per run, and salted identities inside each interpreter."
)
RULE = (
    "seeded histories (6-14 operations) of registrations and validations of variations of few data, in the same process, "
    "after restarts (other identities) or in another interpreter (other PYTHONHASHSEED). Non-trivial: at least one "
    "validation of a registered class. Distinct: different event log"
)


def cases(tier):
    return 640 if tier == "quick" else 14000


def setup(bench, args):
    bench.peer = Peer(args)


def scenarios(bench, rng, tier, index):
    gen = HistoryGen(bench, rng, max_names=2, zoo=0.15, bad=0.02)
    strat = D.strategies(rng)
    if rng.random() < 0.4:
        strat["key_used_as_doc"] = rng.choice(["name", "x", "tags"])
    ops = [gen.new(0, validate=0.2, strat=strat), gen.new(1, validate=1, strat=strat)]
    cfg = {0: ops[0], 1: ops[1]}
    if rng.random() < 0.3:
        ops.append(gen.new(2, validate=0.8))
        cfg[2] = ops[-1]
    bases = [gen.spec(strat) for _ in range(2)]
    if rng.random() < 0.1:
        bases[rng.randrange(2)] = D.large(rng)
    elif rng.random() < 0.15:  # Names of columns are literals: Types matter
        names = rng.sample([["int", 1], ["int", 20], ["str", "a"], ["str", "True"], ["str", "x y"]], rng.randrange(1, 4))
        bases[rng.randrange(2)] = ["df", [[n, [rng.choice([["int", 1], ["str", "s"]])] * 2] for n in names]]
        for config in cfg.values():
            config["strat"]["pandas_strategies"] = rng.choice(["Full type hint", "Type hint only for autocomplete"])
    texts = [D.yaml_text(rng) for _ in range(2)]
    n_inst = len(cfg)
    for _ in range(rng.randrange(4, 11)):
        r = rng.random()
        inst = rng.choice([0, 1, 1, n_inst - 1])
        if r < 0.12:
            ops.append(gen.restart())
            continue
        if r < 0.16:
            ops.append(gen.reset(n_inst))
            continue
        if r < 0.22:  # A registration that was killed before it was in the interface
            orphan = gen.data(inst, cfg, spec=rng.choice(bases))
            ops.append({"id": orphan["id"], "op": "killed", "inst": inst, "cls": orphan["cls"], "data": orphan["data"]})
            continue
        if r < 0.34:
            op = gen.yaml_op(inst, loaders=False)
            op["text"] = rng.choice(texts)
            for _ in range(rng.randrange(3)):
                op["text"] = D.vary_yaml(op["text"], rng)
        else:
            spec = rng.choice(bases)
            for _ in range(rng.choice([0, 0, 1, 1, 2])):
                spec = D.vary(spec, rng, near_only=rng.random() < 0.2)
            if D.max_set(spec) > 1 and any(n is not None and n < 500 for n in [strat.get("check_max_n_elements_within_container")]):
                spec = rng.choice(bases)
            op = gen.data(inst, cfg, spec=spec)
        if rng.random() < 0.3:
            op["at"] = "peer"
        ops.append(op)
    yield {"seed": rng.randrange(1 << 30), "proc": gen.proc(), "ops": ops}


class Run(LiveRun):
    def killed(self, op):
        """What a killed registration can leave: a module that is not in the interface. The process is a new one."""
        ref = self.bench.ref_data(self.config(op)["strat"], self.good_name(op["cls"]), op["data"])
        if op["cls"] not in self.state and oracle.valid_class_name(op["cls"]) and ref[0] == "ok":
            core.World.write(f"{self.world.build}/{op['cls']}.py", ref[1])
            self.probes["module not registered"] = self.probes.get("module not registered", 0) + 1
        self.restart({"salt": int(op["id"]) + 11})

    def remote(self, op):
        """The operation is made by a process of another interpreter over the same files."""
        answer = self.bench.peer.ask(
            {
                "kind": "op",
                "op": {k: v for k, v in op.items() if k != "at"},
                "cfg": self.config(op),
                "seed": self.scenario["seed"],
                "proc": {"salt": 77},
                "files": pack(oracle.generated_files(self.world)),
            }
        )
        install_files(self.world, answer["files"])
        self.sim.note("peer", f"{op['id']} {answer['outcome'][:2]}")
        return answer["outcome"]


def run(bench, scenario):
    run_ = Run(bench, scenario)
    states = set()
    validations = 0
    for op in scenario["ops"]:
        if op["op"] == "restart":
            run_.restart(op)
            continue
        if op["op"] == "killed":
            run_.killed(op)
            continue
        expected, state = run_.expected(op)
        before = oracle.generated_files(bench.world)
        validating = op["op"] in ("data", "yaml") and run_.config(op)["mode"] == "validate" and op["cls"] in run_.state
        validations += validating
        if op.get("at") == "peer":
            kind, name, text = run_.remote(op)
            right = kind == "ok" if expected == "ok" else kind == "raise" and name == expected
            got = f"{name}: {text}" if kind == "raise" else kind
        else:
            try:
                outcome = run_.perform(op)
            except core.SimAbort:
                break
            right, got = run_.matches(outcome, expected), run_.describe_outcome(outcome)
        if not right:
            registered = run_.state.get(op.get("cls"))
            run_.bad("verdict", f"{run_.show(op)}: {got} (expected: {expected})\n--- registered\n{registered}", op)
            break
        if expected != "ok" and oracle.generated_files(bench.world) != before:
            run_.bad("rejected-but-changed", f"{run_.show(op)} was rejected but the generated files changed", op)
            break
        if validating:
            probe = f"validate:{'accepted' if expected == 'ok' else 'rejected'}{'@peer' if op.get('at') else ''}"
            run_.probes[probe] = run_.probes.get(probe, 0) + 1
        if expected == "ok":
            run_.state = state
        if not run_.compare(run_.state, op):
            break
        states.add(hash_state(run_.state))
    return run_.outcome(states=states, nontrivial=validations > 0)
