"""C11: iterators are consumed only up to the configured limit."""
import os

import core
import data as D
import oracle
from runner import HistoryGen, LiveRun, Threads, scheduling

from props.c01 import hash_state

ID = "C11"
LEVEL = "exploration"
TECHNIQUE = "instrumented data sources (endless, failing or aborting at any element) in memory and live, alone and in threads"
NOTE = (
    "Seeded search. Sources: iterators, generators, map, chain and subclasses of list and tuple, nested and repeated in the data, "
    "with limits of 1 to 500 elements or without limit. The hints are compared with the ones that the first N elements give in "
    "a new process without any limit. A source that blocks is one that is not allowed to be requested again."
)
RULE = (
    "seeded programs of 2-8 generations in memory, exported and live (0-3 threads), each with 1-3 sources, that can be endless or "
    "fail at any element with 10 kinds of errors; 2 schedules for each; non-trivial: some source was requested. "
    "Distinct: different event log (includes requests, texts and schedule)"
)
STATES = "distinct generated texts"
PARTS = [("pre",), ("tasks", "*"), ("post",), ("stalls",), ("schedule",)]
CONTAINERS = ("list", "tuple", "repeat", "iter", "gen", "src")
DICTS = ("dict", "odict", "ddict", "mproxy")


def cases(tier):
    return 420 if tier == "quick" else 16000


# -- what the library should look at


def elements(spec, limit):
    """Elements of the container that are looked at."""
    items = spec[1]
    if spec[0] == "repeat":
        items = items * spec[2]
    if spec[0] == "src" and spec[2].get("endless") and items:
        if limit is None:
            raise core.HarnessError("endless source without limit")
        items = [items[i % len(items)] for i in range(limit)]
    return items if limit is None else items[:limit]


def truncate(spec, strat, limit):
    """The same data with the elements that are looked at."""
    kind = spec[0]
    if kind in CONTAINERS:
        items = [truncate(item, strat, limit) for item in elements(spec, limit)]
        if kind == "src":
            return [kind, items, {k: v for k, v in spec[2].items() if k == "as"}]
        return ["list" if kind == "repeat" else kind, items]
    if kind in DICTS:
        pairs = spec[1]
        if limit is not None and (kind == "mproxy" or strat.get("dict_strategy", "TypedDict") != "TypedDict"):
            pairs = pairs[:limit]
        return [kind, [[k, truncate(v, strat, limit)] for k, v in pairs]]
    if kind == "shared":
        return [kind, spec[1], truncate(spec[2], strat, limit)]
    return spec


def failures(spec, strat, limit):
    """(error, number of element) of all sources that fail. Which one is found depends on the order in which they are read."""
    kind = spec[0]
    if kind == "shared":
        yield from failures(spec[2], strat, limit)
    elif kind in CONTAINERS:
        fail_at = spec[2].get("fail_at") if kind == "src" else None
        items = elements(spec, limit)
        if fail_at is not None and fail_at <= len(items) + 1 and (limit is None or fail_at <= limit):
            yield spec[2].get("error", "SourceError"), fail_at
        for item in items if fail_at is None else items[: fail_at - 1]:
            yield from failures(item, strat, limit)
    elif kind in DICTS:
        for _, value in _pairs(spec, strat, limit):
            yield from failures(value, strat, limit)


def _pairs(spec, strat, limit):
    if spec[0] == "mproxy" or strat.get("dict_strategy", "TypedDict") != "TypedDict":
        return spec[1][:limit]
    return spec[1]


# -- generation


class Sources:
    def __init__(self, rng, gen):
        self.rng, self.gen = rng, gen
        self.n = 0

    def limit(self):
        return self.rng.choice([1, 1, 2, 2, 3, 4, 5, 10, 500, None])

    def strat(self):
        strat = D.strategies(self.rng, n_max=False)
        limit = self.limit()
        if limit != 500:
            strat["check_max_n_elements_within_container"] = limit
        elif self.rng.random() < 0.5:
            strat["check_max_n_elements_within_container"] = 500
        return strat, limit

    def plain(self, depth=1):
        rng = self.rng
        return D.Gen(rng, exotic=False, odd_keys=False, iterators=rng.random() < 0.4, width=3).value(depth)

    def item(self, depth, limit):
        rng = self.rng
        r = rng.random()
        if depth < 2 and r < 0.2:
            return self.source(depth + 1, limit)
        if depth < 2 and r < 0.4:
            return self.dictionary(depth + 1, limit)
        return self.plain() if r < 0.7 else D.Gen(rng, exotic=False).scalar()

    def dictionary(self, depth, limit):
        keys = self.rng.sample(D.KEYS, self.rng.randrange(1, 4))
        return [self.rng.choice(["dict", "dict", "dict", "mproxy"]), [[["str", k], self.item(depth, limit)] for k in keys]]

    def source(self, depth, limit, *, fails=0.3):
        rng = self.rng
        options = {}
        shape = rng.choice([None, None, "gen", "gen", "map", "chain", "list", "tuple"])
        if shape:
            options["as"] = shape
        top = 6 if limit is None else min(limit, 12)
        if limit is not None and shape not in ("list", "tuple") and rng.random() < 0.35:
            options["endless"] = True
            items = [D.Gen(rng, exotic=False).scalar() for _ in range(rng.randrange(1, 4))]
            if rng.random() < 0.3:
                items.append(self.plain())
            items = [i for i in items if not D.contains(i, ("iter", "gen"))] or [["int", 1]]
        else:
            size = rng.choice([0, 1, max(top - 1, 0), top, top + 1, top + 3])
            items = [self.item(depth, limit) for _ in range(size)]
            if limit is not None and limit < size and rng.random() < 0.5:
                items[limit:] = [self.poison() for _ in items[limit:]]
        if rng.random() < fails:
            options["fail_at"] = rng.choice([1, 2, top, top + 1, max(1, top - 1), rng.randrange(1, top + 4)])
            options["error"] = rng.choice(["SourceError", *sorted(D.ERRORS)])
        elif limit is not None and rng.random() < 0.4:
            options["fail_at"] = limit + 1
        return ["src", items, options]

    def poison(self):
        """Something that nobody should look at."""
        return ["src", [["complex", 1]], {"fail_at": 1, "error": "KeyboardInterrupt"}]

    def data(self, limit, *, fails=0.3):
        rng = self.rng
        r = rng.random()
        if r < 0.4:
            return self.source(0, limit, fails=fails)
        if r < 0.6:  # Dictionaries that can be merged
            keys = rng.sample(D.KEYS, 3)
            dicts = []
            for _ in range(rng.randrange(2, 4)):
                dicts.append(["dict", [[["str", k], self.source(2, limit, fails=fails / 3) if k == keys[0] else ["int", 1]] for k in keys if rng.random() < 0.8]])
            return [rng.choice(["list", "tuple", "src"]), dicts] if rng.random() < 0.7 else ["dict", [[["str", "k"], ["list", dicts]]]]
        if r < 0.75:
            self.n += 1
            source = ["shared", f"s{self.n}", self.source(1, limit, fails=fails)]
            return ["dict", [[["str", "a"], source], [["str", "b"], ["int", 1]], [["str", "c"], ["list", [source]]]]]
        return self.dictionary(0, limit)


def usable(bench, spec, strat, limit):
    truncated = truncate(spec, strat, limit)
    free = {**strat, "check_max_n_elements_within_container": None}
    ref = bench.ref_data(free, "Valid", truncated)
    return ref[0] == "ok" and not oracle.module_problem("Valid", ref[1].encode("utf-8", "surrogatepass"))


def scenarios(bench, rng, tier, index):
    gen = HistoryGen(bench, rng, bad=0.0)
    sources = Sources(rng, gen)
    cfg = {}
    count = 0

    def op(kinds=("lazy", "lazy", "data", "data", "export")):
        nonlocal count
        count += 1
        kind = rng.choice(kinds)
        inst = rng.randrange(2)
        strat, limit = sources.strat() if kind != "data" else (cfg[inst]["strat"], cfg[inst]["limit"])
        for _ in range(6):
            spec = sources.data(limit)
            spec = spec if spec[0] != "src" or len(spec) == 3 else [*spec, {}]
            if (limit is None or D.max_set(spec) <= limit) and usable(bench, spec, strat, limit):
                break
        else:
            spec = ["src", [["int", 1]], {"as": "gen"}]
        dct = {"id": gen.id(), "op": kind, "cls": f"C{count}", "data": spec, "limit": limit}
        if kind == "data":
            dct["inst"] = inst
            if rng.random() < 0.3:
                dct["cls"] = "Common"
        else:
            dct["strat"] = strat
        if kind == "export":
            dct["path"] = f"user/out{count}.py"
            dct["create"] = True
            if rng.random() < 0.5:
                dct["path"] = f"user/new{count}/out.py"
        return dct

    pre = []
    for inst in range(2):
        cfg[inst] = gen.new(inst, validate=0.3)
        cfg[inst]["strat"], cfg[inst]["limit"] = sources.strat()
        pre.append(cfg[inst])
    pre += [op() for _ in range(rng.randrange(1, 5))]
    tasks = [[op(("lazy", "data")) for _ in range(rng.randrange(1, 3))] for _ in range(rng.choice([0, 0, 2, 2, 3]))]
    for ops in tasks:
        for dct in ops:
            if dct["cls"] == "Common":
                dct["cls"] = f"T{dct['id']}"
    post = [op() for _ in range(rng.randrange(1, 3))]
    scenario = {"seed": rng.randrange(1 << 30), "proc": gen.proc(), "pre": pre, "tasks": tasks, "post": post, "files": {"user/new0/keep.txt": "keep"}}
    for dct in (*pre, *post):
        if dct["op"] == "export" and "new" not in dct["path"]:
            scenario["files"][dct["path"]] = "old content"
    for _ in range(2 if tasks else 1):
        yield {**scenario, **scheduling(rng, tasks)}


# -- execution


class SourceRun(LiveRun):
    def value_of(self, op):
        before = len(self.env.sources)
        limit = op["limit"]

        def on_pull(count):
            if limit is not None and count > limit + 25:  # It does not stop
                self.bad("too-many", f"{self.show(op)}: the source was requested {count} elements (limit: {limit})", op)
                raise core.SimAbort()

        self.env.on_pull = on_pull
        value = super().value_of(op)
        op["sources"] = self.env.sources[before:]
        return value

    def truth(self, op):
        """("ok", text) or ("raise", [(name, number of element)])."""
        strat = op["strat"] if "strat" in op else self.config(op)["strat"]
        limit = op["limit"]
        found = list(failures(op["data"], strat, limit))
        if found:
            return "raise", found
        free = {**strat, "check_max_n_elements_within_container": None}
        return self.bench.ref_data(free, op["cls"], truncate(op["data"], strat, limit))

    def show(self, op):
        return super().show({k: v for k, v in op.items() if k != "sources"} if op else op)


def run(bench, scenario):
    run_ = SourceRun(bench, scenario)
    states = set()
    requested = 0
    threads = None
    state = {}

    def verify(op, outcome, before=None):
        nonlocal requested
        if op["op"] == "new" or run_.violations:
            return
        limit = op["limit"]
        for source in op["sources"]:
            requested += source.count
            if source.count:
                what = "fails" if source.fail_at is not None and source.count >= source.fail_at else "endless" if source.endless else "finite"
                run_.sim.fired[f"source:{what}"] += 1
            if limit is not None and source.count > limit:
                run_.bad("too-many", f"{run_.show(op)}: {source.count} elements were requested (limit: {limit})", op)
                return
        run_.sim.note("requested", str([source.count for source in op["sources"]]))
        truth = run_.truth(op)
        key = f"{outcome[0]}:{op['op']}:{'fails' if truth[0] == 'raise' else 'fine'}"
        run_.probes[key] = run_.probes.get(key, 0) + 1
        if truth[0] == "raise":
            if outcome[0] != "raise" or not any(
                type(outcome[1]).__name__ == name and f"element {number} is" in str(outcome[1]) for name, number in truth[1]
            ):
                expected = " or ".join(f"{name} of the element {number}" for name, number in truth[1])
                run_.bad("error", f"{run_.show(op)}: {run_.describe_outcome(outcome)}, expected: {expected}", op)
                return
            if before is not None:
                after = core.World.tree(run_.world.root)
                if after != before:
                    changed = sorted(p for p in {*after, *before} if after.get(p, "") != before.get(p, ""))
                    run_.bad("changed", f"{run_.show(op)} failed and changed {changed}", op)
            return
        if op["op"] == "data":
            mode = run_.config(op)["mode"]
            if mode == "validate" and op["cls"] in state and not oracle.same_hints(state[op["cls"]], truth[1]):
                if not run_.matches(outcome, "LazyTypeHintLiveError"):
                    run_.bad("outcome", f"{run_.show(op)}: {run_.describe_outcome(outcome)} instead of being rejected", op)
                return
        if outcome[0] != "ok":
            run_.bad("outcome", f"{run_.show(op)}: {run_.describe_outcome(outcome)}, expected: the hints of its first elements", op)
            return
        text = outcome[1]
        if op["op"] == "data":
            state[op["cls"]] = truth[1]
            return
        if op["op"] == "export":
            text = (core.World.read(os.path.join(run_.world.root, op["path"])) or b"").decode("utf-8", "surrogatepass")
        states.add(hash_state({"text": text}))
        run_.sim.note("text", repr(text))
        if text != truth[1]:
            run_.bad("other-text", f"{run_.show(op)} gives:\n{text}\n--- expected, as for the first {limit} elements:\n{truth[1]}", op)

    def settle(when):
        if run_.violations:
            return
        registry = run_.registry()
        for problem in registry.problems[:1]:
            run_.bad("registry", f"{when}: {problem}")
            return
        texts = registry.texts()
        if texts != state:
            for name in sorted({*texts, *state}):
                if texts.get(name) != state.get(name):
                    run_.bad("registry", f"{when}: {name} is registered with:\n{texts.get(name)}\n--- expected:\n{state.get(name)}")
                    return

    def finish():
        out = run_.outcome(states=states, nontrivial=requested > 0)
        return threads.complete(out) if threads else out

    try:
        for op in [*scenario["pre"], None, *scenario["post"]]:
            if op is None:
                if not scenario["tasks"]:
                    continue
                threads = Threads(run_, scenario)
                history = threads.execute(scenario["tasks"])
                if run_.sim.anomalies:
                    break
                for record in history:
                    verify(record["op"], record["outcome"])
                settle("after the threads")
            else:
                before = core.World.tree(run_.world.root)
                verify(op, run_.perform(op), before)
                settle(f"after {run_.show(op)}")
            if run_.violations:
                break
    except core.SimAbort:
        pass
    return finish()
