"""C14: everything is UTF-8, whatever the locale of each process is."""
import core
import data as D
from core import World
from runner import LOCALES, HistoryGen, LiveRun, Threads, scheduling

from props.c01 import hash_state

ID = "C14"
LEVEL = "exploration"
TECHNIQUE = "the same history simulated with processes of different locales and with UTF-8 in all of them: same files and results"
NOTE = (
    "Seeded search. Differential: results and all files after each call are compared byte for byte with the ones of the same "
    "history where all processes use UTF-8. The encoding of the names of the files is always UTF-8. Faults are injected in part "
    "of the histories (the same ones in both executions)."
)
RULE = (
    "seeded histories (3-9 calls of all kinds, restarts with other locales out of 12, text of 6 scripts in names, keys, comments, "
    "documentation, paths and functions), also with threads and with an error or kill at some event. Distinct: different event "
    "log; non-trivial: some process had a locale that is not UTF-8 and non-ASCII text was in some file or result"
)
STATES = "distinct (locale, kind of call, result) combinations"
PARTS = [("ops",), ("tasks", "*"), ("faults",), ("stalls",), ("schedule",)]
ENCODINGS = [*LOCALES, "utf-16", "cp037", "utf-8-sig", "cp932"]
NAMES = ["Ñandú", "日本", "Data", "Ωmega", "Año", "A"]
KEYS = ["ñ", "日本", "clave año", "Ω", "é", "naïve-key", "плохо", "😀", "a", "“quoted”", "\u2028x", "ﬁ"]
COMMENTS = ["Más texto ñ", "日本 doc", "Über", "emoji 😀", "“quoted”", "Ω плохо", "ascii", "soft\u00adhyphen", "\u00a0nbsp", "tilde\u0303 n"]


def cases(tier):
    return 420 if tier == "quick" else 13000


def unicode_data(rng, depth=0):
    r = rng.random()
    if depth > 2 or r < 0.35:
        return rng.choice([["int", 1], ["str", "ñ 日本"], ["float", 1.5], ["str", "a"], ["none"]])
    if r < 0.45:
        return ["func", "accented"]
    if r < 0.65:
        return ["list", [unicode_data(rng, depth + 1) for _ in range(rng.randrange(1, 3))]]
    keys = rng.sample(KEYS, rng.randrange(1, 4))
    return ["dict", [[["str", k], unicode_data(rng, depth + 1)] for k in keys]]


def unicode_yaml(rng):
    lines = []
    for key in rng.sample(KEYS, rng.randrange(1, 4)):
        if rng.random() < 0.4:
            lines.append(f"# {rng.choice(COMMENTS)}")
        side = f" # {rng.choice(COMMENTS)}" if rng.random() < 0.7 else ""
        if rng.random() < 0.6:
            lines.append(f'"{key}": {rng.choice(["1", "ñ", "日本 text", "2.5"])}{side}')
        else:
            lines.append(f'"{key}":{side}')
            lines += [f'  "{k}": 1 # {rng.choice(COMMENTS)}' for k in rng.sample(KEYS, 2)]
        if rng.random() < 0.2:
            lines.append(f"# {rng.choice(COMMENTS)}")
    return "\n".join(lines) + "\n"


def scenarios(bench, rng, tier, index):
    gen = HistoryGen(bench, rng, names=rng.sample(NAMES, 3), bad=0.02, exotic=0.2, zoo=0.1, locales=rng.sample(ENCODINGS, 3))
    cfg = {}

    def op(restarts=True):
        inst = rng.randrange(2)
        r = rng.random()
        if r < 0.14 and restarts:
            return gen.restart()
        if r < 0.2:
            dct = gen.new(inst, validate=0.5)
            cfg[inst] = dct
            return dct
        if r < 0.23:
            return gen.reset(2)
        spec = unicode_data(rng)
        if r < 0.5:
            dct = gen.data(inst, cfg, spec=spec if rng.random() < 0.7 else None)
        elif r < 0.68:
            dct = gen.yaml_op(inst)
        elif r < 0.76:
            dct = dict(gen.yaml_op(0), op="lazy_yaml", strat={})
        elif r < 0.82:
            dct = dict(gen.data(0, {}, spec=spec), op="lazy", strat={})
        elif r < 0.92:
            path = rng.choice(["user/out.py", "user/ñ/日本.py", "user/año.py"])
            dct = dict(gen.data(0, {}, spec=spec), op="export", strat={}, path=path, pathlib=rng.random() < 0.5, create=True)
        else:
            return {"id": gen.id(), "op": "scan", "file": f"user/scan{gen.next_id}.py"}
        if "yaml" in dct["op"]:
            dct["file"] = dct["file"].replace("conf", "año").replace("foreign", "日本")
            if rng.random() < 0.75:
                dct["text"] = unicode_yaml(rng)
        return dct

    scenario = {
        "seed": rng.randrange(1 << 30),
        "proc": {"salt": rng.randrange(1 << 20), "enc": rng.choice(ENCODINGS)},
        "ops": [op() for _ in range(rng.randrange(3, 10))],
    }
    scenario["files"] = {o["file"]: f"# {rng.choice(COMMENTS)}\nx: int = 'ñ'\n" for o in scenario["ops"] if o["op"] == "scan"}
    if rng.random() < 0.2:
        scenario["tasks"] = [[op(restarts=False) for _ in range(2)] for _ in range(2)]
        scenario["tasks"] = [[o for o in ops if o["op"] != "scan"] for ops in scenario["tasks"]]
        scenario.update(scheduling(rng, scenario["tasks"]))
    yield scenario
    for _ in range(2):
        target = rng.choice(scenario["ops"])
        kind = rng.choice(["err", "crash", "intr", "short", "crash_after"])
        fault = {"op": target["id"], "k": rng.randrange(1, 40), "kind": kind, "errno": rng.choice(["ENOSPC", "EIO", "EACCES"]), "frac": 0.5}
        yield dict(scenario, faults=[fault])


class Run(LiveRun):
    def __init__(self, bench, scenario, utf8):
        self.utf8 = utf8
        if utf8:
            scenario = dict(scenario, proc=dict(scenario["proc"], enc="utf-8"))
        super().__init__(bench, scenario)
        self.seen = []
        self.threads = None

    def restart(self, op):
        super().restart(dict(op, enc="utf-8") if self.utf8 else op)

    def action(self, op):
        if op["op"] != "scan":
            return super().action(op)
        path = f"{self.world.root}/{op['file']}"
        out = f"{path}:2: error: Incompatible types in assignment  [assignment]\nFound 1 error in 1 file\n"
        # What mypy writes can be read with the locale of the process
        out = out.encode(self.sim.inc.encoding, "backslashreplace")
        self.sim.children = [{"what": "mypy", "code": 1, "stdout": out.hex(), "always": True, "match": "mypy"}]
        mypy = self.image.module("lazy_type_hint.utils.mypy").Mypy()

        def call():
            result = mypy.scan_file(path)
            lines = str(result).split("File scanned", 1)
            return f"{result.success} {lines[1:]} {result.file_content_with_lineno()}"

        return call

    def outcome_of(self, op, outcome):
        kind, value = outcome
        if kind == "raise":
            return type(value).__name__
        if kind == "ok" and isinstance(value, str):
            return f"ok {value}"
        if kind == "ok" and op["op"] == "yaml":
            return f"ok {value!r}"
        return kind

    def files(self):
        tree = World.tree(self.world.root)
        pristine = self.world.pristine
        return {k[len(self.world.root) + 1 :]: v for k, v in tree.items() if pristine.get(k, 0) != v}

    def execute(self):
        try:
            for op in self.scenario["ops"]:
                if op["op"] == "restart" or self.sim.inc.dead:
                    self.restart(op if op["op"] == "restart" else {"salt": 5, "enc": "ascii"})
                    if op["op"] == "restart":
                        continue
                outcome = self.perform(op)
                self.seen.append((op, self.sim.inc.encoding, self.outcome_of(op, outcome), self.files()))
            if self.sim.inc.dead:
                self.restart({"salt": 7, "enc": "cp1252"})
            if self.scenario.get("tasks"):
                with self.image:
                    for inst in range(2):
                        self.instance(inst)
                self.threads = Threads(self, self.scenario)
                history = self.threads.execute(self.scenario["tasks"])
                results = [(r["op"], self.sim.inc.encoding, self.outcome_of(r["op"], r["outcome"]), {}) for r in history]
                self.seen += results
                self.seen.append(({"op": "end"}, "", "", self.files()))
        except core.SimAbort:
            pass


def run(bench, scenario):
    run_ = Run(bench, scenario, utf8=False)
    run_.execute()
    states = {hash_state({"x": f"{enc} {op['op']} {result}"}) for op, enc, result, _ in run_.seen}
    locales = {enc for _, enc, _, _ in run_.seen} - {"utf-8", ""}
    texts = [result.encode("utf-8", "replace") for _, _, result, _ in run_.seen]
    texts += [v for _, _, _, files in run_.seen[-1:] for v in files.values() if v]
    out = run_.outcome(states=states, nontrivial=bool(locales) and any(not t.isascii() for t in texts))
    if run_.threads:
        run_.threads.complete(out)
    if run_.violations or not locales:
        return out
    other = Run(bench, scenario, utf8=True)
    other.execute()
    other.sim.finish()
    for found, expected in zip(run_.seen, other.seen):
        op, enc = found[0], found[1]
        if found[2] != expected[2]:
            run_.bad("result", f"with {enc}, {run_.show(op)}: {found[2][:600]!r}. With UTF-8: {expected[2][:600]!r}", op)
            break
        if found[3] != expected[3]:
            names = [k for k in sorted({*found[3], *expected[3]}) if found[3].get(k, 0) != expected[3].get(k, 0)]
            a, b = found[3].get(names[0]), expected[3].get(names[0])
            run_.bad("files", f"with {enc}, after {run_.show(op)} these files differ: {names}. {a!r:.600} instead of {b!r:.600}", op)
            break
    else:
        if len(run_.seen) != len(other.seen):
            run_.bad("result", f"{len(run_.seen)} calls instead of {len(other.seen)}")
    out.violations = run_.violations
    return out
