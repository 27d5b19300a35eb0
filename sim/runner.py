"""Execution of histories of the live class against the reference model."""
from __future__ import annotations

import linecache
import os
import random
import shutil
import tempfile
from pathlib import Path

import core
import data as D
import oracle
from core import World

LIVE_ERROR = "LazyTypeHintLiveError"

SENTINELS = {
    "pkg/lazy_type_hint/generators/notes.txt": b"own notes\n",
    "pkg/lazy_type_hint/generators/other.pyi": b"x: int\n",
    "pkg/lazy_type_hint/generators/build_notes/keep.py": b"KEEP = 1\n",
    "pkg/lazy_type_hint/generators/builder.py": b"BUILDER = 1\n",
    "pkg/lazy_type_hint/build/keep.txt": b"not the generated folder\n",
    "pkg/other_package/module.py": b"VALUE = 1\n",
    "tmp/foreign.yaml": b"foreign: 1 # Foreign doc\n",
    "tmp/_conf.yaml": b"stale: 1\n",
    "tmp/conf.yaml": b"unrelated: true\n",
    "tmp/sub/file.txt": b"sub\n",
    "user/readme.txt": b"read me\n",
}


class Violation(dict):
    def __init__(self, kind, message, **extra):
        super().__init__(kind=kind, message=message, **extra)


class Outcome:
    def __init__(self, sim, violations, *, states=(), nontrivial=True, note=""):
        self.violations = violations
        self.digest = sim.digest() if sim is not None else ""
        self.log = sim.log if sim is not None else []
        self.fired = sim.fired if sim is not None else {}
        self.kinds = sim.kinds if sim is not None else {}
        self.seconds = sim.simulated_seconds() if sim is not None else 0.0
        self.steps = sim.step if sim is not None else 0
        self.switches = 0
        self.states = set(states)
        self.nontrivial = nontrivial
        self.schedule = None
        self.inter = None
        self.probes = {}
        self.crosskeys = None


class Bench:
    """Everything that a worker process keeps between runs."""

    def __init__(self, root, pkg_source):
        self.world = World(root)
        for folder in (self.world.pkg, self.world.tmp, self.world.user):
            os.makedirs(folder, exist_ok=True)
        shutil.copytree(os.path.join(pkg_source, "lazy_type_hint"), self.world.pkgdir)
        for name in ("check_code.py", "check_code_args.yaml", "pyproject.toml"):
            if os.path.exists(os.path.join(pkg_source, name)):
                shutil.copy(os.path.join(pkg_source, name), os.path.join(self.world.pkg, name))
        for name, content in SENTINELS.items():
            World.write(os.path.join(self.world.root, name), content)
        core.install(self.world.tmp)
        import image

        self.factory = image.Factory(self.world.pkg)
        self.world.pristine = World.tree(self.world.root)
        self.refs = {}
        self.n_refs = 0
        self.n_runs = 0
        self.runtime_class = None

    # -- simulations
    def start(self, *, seed=0, faults=(), files=None, max_write=None):
        self.n_runs += 1
        self.world.restore({os.path.join(self.world.root, k): v for k, v in (files or {}).items()})
        os.chdir(self.world.user)
        linecache.clearcache()
        random.seed(f"run:{seed}")
        return core.Sim(self.world, seed=seed, faults=faults, max_write=max_write)

    def boot(self, sim, *, salt=0, encoding="utf-8", load="lazy_type_hint"):
        inc = sim.boot(salt=salt, encoding=encoding)
        inc.image = self.factory.new(inc.ids, load=load)
        return inc

    # -- references: the same thing alone in a new process, without faults
    def fresh(self, salt=12345):
        return self.factory.new(core.IdTable(salt))

    def ref_data(self, strategies, name, spec, *, include_imports=True):
        """("ok", text) or ("raise", name of the error)."""
        key = ("d", repr(sorted(strategies.items())), name, repr(spec), include_imports)
        if key not in self.refs:
            self.refs[key] = self._ref(
                lambda img: img.lazy(img.strategies(**strategies))
                .from_data(D.build(spec, D.Env()), class_name=name)
                .to_string(include_imports=include_imports)
            )
        return self.refs[key]

    def ref_object(self, strategies, name, make, key):
        key = ("o", repr(sorted(strategies.items())), name, key)
        if key not in self.refs:
            self.refs[key] = self._ref(
                lambda img: img.lazy(img.strategies(**strategies)).from_data(make(), class_name=name).to_string()
            )
        return self.refs[key]

    def ref_yaml(self, strategies, name, text, comments, *, filename="conf.yaml", loader="yaml"):
        """Reference of a YAML file, alone, with another name and with a healthy and empty temporary folder."""
        suffix = os.path.splitext(filename)[1]
        key = ("y", repr(sorted(strategies.items())), name, text, repr(comments), suffix, loader)
        if key not in self.refs:
            path = os.path.join(self.world.root, "ref", f"reference{self.n_refs}{suffix}")

            def run(img):
                World.write(path, text)
                try:
                    return (
                        img.lazy(img.strategies(**strategies))
                        .from_yaml_file(make_loader(loader), path, class_name=name, comments_are=comments)
                        .to_string()
                    )
                finally:
                    shutil.rmtree(os.path.dirname(path), ignore_errors=True)

            self.refs[key] = self._ref(run)
        return self.refs[key]

    def _ref(self, run):
        assert core.cur() is None
        self.n_refs += 1
        if len(self.refs) > 30000:
            self.refs.clear()
        image = self.fresh()
        state = random.getstate()
        before = self.factory.current
        tmp, tempfile.tempdir = tempfile.tempdir, os.path.join(self.world.root, "reftmp")
        os.makedirs(tempfile.tempdir, exist_ok=True)
        try:
            with image:
                value = ("ok", run(image))
        except Exception as error:  # noqa: BLE001
            value = ("raise", type(error).__name__)
        finally:
            random.setstate(state)
            shutil.rmtree(tempfile.tempdir, ignore_errors=True)
            tempfile.tempdir = tmp
        assert self.factory.current is before
        return value


def make_loader(kind, loaded=None, original=None, given=None):
    """User function that loads a YAML file. `kind`: yaml, fail (on the given file), fail_tmp (on any other file),
    suffix (only of .yaml and .yml files) and typed (only with the type of path that was given)."""
    import yaml

    def loader(path):
        if original is not None:
            is_original = os.path.abspath(os.fspath(path)) == original
            if kind == "fail" and is_original:
                raise D.SourceError("the loader does not like the file")
            if kind == "fail_tmp" and not is_original:
                raise D.SourceError("the loader does not like the temporary file")
            if kind == "suffix" and not os.fspath(path).endswith(os.path.splitext(original)[1]):
                raise D.SourceError("the loader does not know this format")
            if kind == "typed" and type(path) is not given:
                raise D.SourceError("the loader does not accept this type of path")
            if kind == "oserror" and is_original:
                raise OSError(5, "loader failed", str(path))
        with open(path, "rb") as file:
            value = yaml.safe_load(file.read().decode("utf-8", "replace"))
        if loaded is not None:
            loaded.append((os.fspath(path), value))
        return value

    return loader


# ------------------------------------------------------------------------------------------------------------------


def every_op(scenario):
    for key in ("pre", "ops", "post"):
        yield from scenario.get(key, ())
    for ops in scenario.get("tasks", ()):
        yield from ops


class LiveRun:
    """One simulated history of the live class. Single threaded: several processes one after another."""

    LOAD = "lazy_type_hint"  # What a new process imports

    def __init__(self, bench, scenario, *, observer=False):
        self.bench = bench
        self.scenario = scenario
        self.world = bench.world
        self.sim = bench.start(
            seed=scenario.get("seed", 0),
            faults=scenario.get("faults", ()),
            files=self._files(),
            max_write=scenario.get("max_write"),
        )
        self.sim.same_pid = bool(scenario.get("same_pid"))
        self.sim.trace_lines = any("line" in f for f in scenario.get("faults", ()))
        self.violations = []
        self.insts = {}
        self.cfg = {}
        self.state = {}  # Model: class name -> text of its module
        self.objects = {}
        self.env = D.Env()
        self.kept = []  # Objects that must stay alive
        self.loaded = []
        self.probes = {}
        if observer:
            self.sim.observer = self.observe
        proc = scenario.get("proc", {})
        self.bench.boot(self.sim, salt=proc.get("salt", 1), encoding=proc.get("enc", "utf-8"), load=self.LOAD)

    def _files(self):
        files = {}
        for op in every_op(self.scenario):
            if op["op"] in ("yaml", "lazy_yaml"):
                files[f"user/{op['file']}"] = op["text"].encode("utf-8")
        for name, content in self.scenario.get("files", {}).items():
            files[name] = content.encode("utf-8", "surrogateescape") if content is not None else None
        return files

    # -- violations
    def bad(self, kind, message, op=None):
        self.violations.append(Violation(kind, message, op=None if op is None else op.get("id")))

    # -- operations
    @property
    def image(self):
        return self.sim.inc.image

    def config(self, op):
        return self.cfg.get(str(op.get("inst", 0)), {"strat": {}, "mode": "overwrite"})

    def instance(self, number):
        key = str(number)
        if key not in self.insts:
            cfg = self.cfg.get(key, {"strat": {}, "mode": "overwrite"})
            self.insts[key] = self.image.live(self.image.strategies(**cfg["strat"]), cfg["mode"])
        return self.insts[key]

    new_loaded = list

    def value_of(self, op):
        """Data given in the operation. Operations can give the same object."""
        same = op.get("same")
        if same in self.objects:
            value, spec = self.objects[same]
            if spec != op["data"]:  # Changed in place
                new = D.build(op["data"], self.env)
                self.kept.append(new)
                value.clear()
                (value.update if isinstance(value, dict) else value.extend)(new)
                self.objects[same] = value, op["data"]
            return value
        value = D.build(op["data"], self.env)
        self.kept.append(value)
        if same is not None:
            self.objects[same] = value, op["data"]
        return value

    def action(self, op):
        """Function that performs the operation."""
        kind = op["op"]
        if "edit" in op:  # The file has now this content
            path = os.path.join(self.world.user, op["file"])
            core.World.write(path, op["text"])
            os.utime(path, (1_600_000_000 + op["edit"],) * 2)
        if kind == "new":
            self.cfg[str(op["inst"])] = {"strat": op.get("strat", {}), "mode": op.get("mode", "overwrite")}
            self.insts.pop(str(op["inst"]), None)
            return lambda: self.instance(op["inst"])
        if kind == "data":
            if "inner" in op:
                self.nest(op["inner"])
            op_value = value = self.value_of(op)

            def call():
                inst = self.instance(op.get("inst", 0))
                if op.get("pos"):
                    return inst.from_data(op_value, op["cls"])
                return inst.from_data(op_value, class_name=op["cls"])

            self.given = value
            return call
        if kind == "yaml":
            path = os.path.join(self.world.user, op["file"])
            self.loaded = self.new_loaded()
            given = Path(path) if op.get("pathlib") else path
            loader = make_loader(op.get("loader", "yaml"), self.loaded, path, type(given))

            def call():
                return self.instance(op.get("inst", 0)).from_yaml_file(
                    loader, given, class_name=op["cls"], comments_are=op.get("comments", "side")
                )

            return call
        if kind == "reset":
            if op.get("via") is not None:
                return lambda: self.instance(op["via"]).reset()
            return lambda: self.image.live.reset()
        if kind == "lazy":  # In memory
            value = self.value_of(op)
            self.given = value
            return lambda: (
                self.lazy(op)
                .from_data(value, class_name=op["cls"])
                .to_string(include_imports=op.get("imports", True))
            )
        if kind == "lazy_yaml":
            path = os.path.join(self.world.user, op["file"])
            self.loaded = self.new_loaded()
            given = Path(path) if op.get("pathlib") else path
            loader = make_loader(op.get("loader", "yaml"), self.loaded, path, type(given))
            return lambda: (
                self.lazy(op)
                .from_yaml_file(loader, given, class_name=op["cls"], comments_are=op.get("comments", "side"))
                .to_string()
            )
        if kind == "export":
            value = self.value_of(op)
            target = os.path.join(self.world.root, op["path"])
            target = Path(target) if op.get("pathlib") else target
            return lambda: (
                self.lazy(op)
                .from_data(value, class_name=op["cls"])
                .to_file(target, **({"create_non_existing_dir": op["create"]} if "create" in op else {}))
            )
        raise core.HarnessError(kind)

    def nest(self, inner):
        """The data, when it is requested, makes another call (once)."""
        call = self.action(dict(inner, id=None))
        pending = [call]

        def on_pull(count):
            if pending:
                try:
                    pending.pop()()
                except Exception as error:  # noqa: BLE001
                    self.nested = ("raise", error)
                else:
                    self.nested = ("ok", None)

        self.nested = None
        self.env.on_pull = on_pull

    def lazy(self, op):
        """Generator in memory: Shared by the operations that say so."""
        def make():
            strat = op.get("strat", {})
            if not strat and op.get("default"):
                return self.image.lazy()
            if op.get("default"):  # Strategies shared by several generators
                key = f"strat{strat!r}"
                if key not in self.insts:
                    self.insts[key] = self.image.strategies(**strat)
                return self.image.lazy(self.insts[key])
            return self.image.lazy(self.image.strategies(**strat))

        if "gen" not in op:
            return make()
        key = f"lazy{op['gen']}"
        if key not in self.insts:
            self.insts[key] = make()
        return self.insts[key]

    def expected_text(self, op):
        """Result of an operation in memory: ("ok", text) or ("raise", name)."""
        name = op["cls"]
        good = name if oracle.valid_identifier(name) else "Valid"
        if op["op"] == "lazy_yaml":
            loader, comments = op.get("loader", "yaml"), op.get("comments", "side")
            if loader == "fail":
                return "raise", "SourceError"
            if loader == "oserror":
                return "raise", "OSError"
            ref = self.bench.ref_yaml(
                op.get("strat", {}), good, op["text"], None if loader == "fail_tmp" else comments,
                filename=os.path.basename(op["file"]),
            )  # fmt: skip
        else:
            ref = self.bench.ref_data(op.get("strat", {}), good, op["data"], include_imports=op.get("imports", True))
        if good != name and ref != ("raise", "YamlFileModifierError"):
            return "raise", "LazyTypeHintError"
        return ref

    def expected(self, op, state=None):
        """(possible results, states allowed if it is done, degraded states). Result: "ok" or name of the error."""
        state = self.state if state is None else state
        kind = op["op"]
        if kind == "new":
            return "ok", state
        if kind == "reset":
            return "ok", {}
        cfg = self.config(op)
        name = op["cls"]
        if kind == "yaml":
            loader = op.get("loader", "yaml")
            if loader == "fail":
                return "SourceError", state
            if loader == "oserror":
                return "OSError", state
            comments = op.get("comments", "side")
            if loader == "fail_tmp":
                comments = None
            ref = self.bench.ref_yaml(cfg["strat"], self.good_name(name), op["text"], comments, filename=os.path.basename(op["file"]))
            if ref == ("raise", "YamlFileModifierError"):
                return "YamlFileModifierError", state
        else:
            ref = self.bench.ref_data(cfg["strat"], self.good_name(name), op["data"])
        if not oracle.valid_class_name(name):
            return LIVE_ERROR, state
        if "inner" in op:  # Done while the data is read, so before
            state = self.expected(op["inner"], state)[1]
        if ref[0] == "raise":
            return ref[1], state
        if cfg["mode"] == "validate" and name in state and not oracle.same_hints(state[name], ref[1]):
            return LIVE_ERROR, state
        return "ok", {**state, name: ref[1]}

    @staticmethod
    def good_name(name):
        return name if oracle.valid_class_name(name) else "Valid"

    def perform(self, op):
        with self.image:
            fn = self.action(op)
            return self.sim.op(op["id"], fn)

    def restart(self, op):
        self.insts = {}
        self.bench.boot(self.sim, salt=op.get("salt", 1), encoding=op.get("enc", "utf-8"), load=self.LOAD)

    # -- checks
    def registry(self):
        return oracle.Registry(self.world)

    def compare(self, state, op, kind="registry", *, fresh_ok=True, what="after"):
        """The generated files are exactly the ones of the model."""
        registry = self.registry()
        for problem in registry.problems[:2]:
            self.bad(kind, f"{what} {self.show(op)}: {problem}", op)
        if registry.problems:
            return False
        listed = set(registry.view.classes)
        if listed != set(state):
            lost, extra = sorted(set(state) - listed), sorted(listed - set(state))
            self.bad(kind, f"{what} {self.show(op)}: classes not offered {lost}, classes that should not be {extra}", op)
            return False
        for name, text in registry.texts().items():
            if text != state[name]:
                self.bad(
                    kind,
                    f"{what} {self.show(op)}: the module of {name} does not hold the type hints of its last data:"
                    f"\n--- expected\n{state[name]}\n--- found\n{text}",
                    op,
                )
                return False
        if registry.pyi is not None:
            for problem in oracle.check_signatures(registry.view, self.image.live)[:1]:
                self.bad(kind, f"{what} {self.show(op)}: {problem}", op)
                return False
        return True

    def observe(self):
        """Invariant seen by an external reader at any instant."""

    def show(self, op):
        if op is None:
            return "start"
        dct = {k: v for k, v in op.items() if k not in ("id",)}
        text = " ".join(f"{k}={v!r}" if k != "op" else str(v) for k, v in dct.items())
        return f"[{op.get('id')}] {text[:300]}"

    def anomalies(self):
        for kind, message in self.sim.anomalies:
            self.violations.append(Violation(kind, message))

    def outcome(self, **kwargs):
        self.anomalies()
        self.sim.finish()
        result = Outcome(self.sim, self.violations, **kwargs)
        result.probes = self.probes
        return result

    def matches(self, outcome, expected):
        if outcome[0] == "ok":
            return expected == "ok"
        if outcome[0] == "raise":
            return type(outcome[1]).__name__ == expected or (
                expected == "OSError" and isinstance(outcome[1], OSError)
            )
        return False

    def describe_outcome(self, outcome):
        if outcome[0] == "raise":
            return f"{type(outcome[1]).__name__}: {str(outcome[1])[:300]}"
        return outcome[0]


class FaultRun(LiveRun):
    """History with kills, errors and interruptions: At any instant the registry is the one before or after the call."""

    def __init__(self, bench, scenario):
        self.allowed = [{}]
        self.current = None
        self.n_seen = 0
        super().__init__(bench, scenario, observer=True)
        self.faulty = {f["op"] for f in scenario.get("faults", ())}

    # -- invariant at any instant
    def states_after(self, op):
        """Results that the call can have, and the states that each of them leaves: {result: [state]}."""
        results = {}
        variants = [op]
        if op["op"] == "yaml" and op.get("comments", "side") is not None and op["id"] in self.faulty:
            variants.append(dict(op, comments=None))  # It works without comments if they cannot be read
        for variant in variants:
            result, state = self.expected(variant)
            results.setdefault(result, []).append(state)
        return results

    def identify(self, states):
        """(state of the given ones that is in the files, problem)."""
        registry = self.registry()
        if registry.problems:
            return None, registry.problems[0]
        texts = registry.texts()
        for state in states:
            if texts == state:
                return state, ""
        names = [sorted(state) for state in states]
        for name, text in texts.items():
            if not any(state.get(name) == text for state in states):
                return None, f"the module of {name} is not any of the expected ones:\n--- found\n{text}"
        return None, f"classes {sorted(texts)} (with mixed contents) instead of one of {names}"

    def observe(self):
        if self.violations:
            return
        self.n_seen += 1
        registry = self.registry()
        problem = registry.problems[0] if registry.problems else ""
        if not problem:
            texts = registry.texts()
            if not any(texts == state for state in self.allowed):
                _, problem = self.identify(self.allowed)
        if problem:
            self.bad("instant", f"during {self.show(self.current)}: {problem}", self.current)

    # -- one operation
    def step(self, op):
        """Perform the operation and check it. False if the run cannot continue."""
        if op["op"] == "restart":
            self.restart(op)
            return True
        self.current = op
        results = self.states_after(op)
        after = [state for states in results.values() for state in states]
        self.allowed = [self.state, *after]
        outcome = self.perform(op)
        if self.violations:
            return False
        self.last = outcome
        done = results.get("ok", [])
        if outcome[0] == "crash":
            allowed, what = [self.state, *after], "killed in"
            self.count("crash:" + op["op"])
        elif outcome[0] == "ok":
            if not done:
                self.bad("outcome", f"{self.show(op)} returned, expected: {sorted(results)}", op)
                return False
            allowed, what = done, "returned"
            self.count("ok:" + op["op"])
            if op["op"] == "reset":
                left = sorted(oracle.generated_files(self.world))
                if left:
                    self.bad("registry", f"{self.show(op)} returned, and these are still there: {left}", op)
                    return False
        else:
            if op["id"] not in self.faulty and not any(self.matches(outcome, r) for r in results):
                self.bad("outcome", f"{self.show(op)}: {self.describe_outcome(outcome)}, expected: {sorted(results)}", op)
                return False
            if op["id"] not in self.faulty or not done:
                allowed = [self.state]  # Rejected
            else:
                allowed = [self.state, *after]
            what = f"failed ({type(outcome[1]).__name__})"
            self.count("raise:" + op["op"])
        state, problem = self.identify(allowed)
        if state is None:
            self.bad("registry", f"after {self.show(op)} {what}: {problem}", op)
            return False
        registry = self.registry()
        if registry.pyi is not None:
            for problem in oracle.check_signatures(registry.view, self.image.live)[:1]:
                self.bad("registry", f"after {self.show(op)} {what}: {problem}", op)
                return False
        self.state = state
        return True

    def count(self, probe):
        self.probes[probe] = self.probes.get(probe, 0) + 1


# ------------------------------------------------------------------------------------------------------------------
# Threads


class Threads:
    """Tasks executed by the scheduler. The history of their calls is recorded."""

    def __init__(self, run, scenario):
        self.run = run
        self.sim = run.sim
        self.history = []
        if scenario.get("schedule") is not None:
            policy = core.FixedPolicy(scenario["schedule"])
        else:
            policy = core.RandomPolicy(scenario.get("sched", 0), **scenario.get("p", {}))
        self.sched = core.Scheduler(self.sim, policy)
        self.sim.stalls = {(op, k): seconds for op, k, seconds in scenario.get("stalls", ())}
        self.trace = bool(scenario.get("trace"))

    def execute(self, tasks, perform=None):
        """`perform(op)` returns the function to execute as the operation."""
        sim, run = self.sim, self.run
        perform = perform or run.action
        for number, ops in enumerate(tasks):

            def body(task, ops=ops, number=number):
                for op in ops:
                    self.between(task)
                    record = {"op": op, "task": number, "inv": len(sim.log), "ret": None, "outcome": ("crash", None)}
                    self.history.append(record)
                    record["outcome"] = sim.op(op["id"], self._action(perform, op), inc=task.inc)
                    record["ret"] = len(sim.log)
                    if task.inc.dead:
                        break

            self.sched.add(body, self.process(number))
        lines = sim.trace_lines
        sim.trace_lines = lines or self.trace
        with run.image:
            self.sched.run()
        sim.trace_lines = lines
        return self.history

    def process(self, number):
        return self.sim.inc

    def between(self, task):
        """Before each call."""

    @staticmethod
    def _action(perform, op):
        task = core.cur()
        core._tls.task = None  # What the scenario prepares is not part of the operation
        try:
            return perform(op)
        finally:
            core._tls.task = task

    def complete(self, out):
        out.schedule = self.sched.schedule
        out.inter = self.sched.trace.hexdigest()
        out.switches = self.sched.switches
        return out


def linearizable(history, start, final, after):
    """Is there an order, consistent with real time, that explains results and final state?

    `after(record, state)` -> states where the call can have left the given one with the observed result.
    """
    freeze = lambda state: tuple(sorted(state.items()))  # noqa: E731
    target = freeze(final)
    seen = set()
    n = len(history)

    def search(done, state):
        if len(done) == n:
            return freeze(state) == target
        key = (done, freeze(state))
        if key in seen:
            return False
        seen.add(key)
        rest = [i for i in range(n) if i not in done]
        for i in rest:
            record = history[i]
            if any(
                history[j]["ret"] is not None and history[j]["ret"] <= record["inv"] for j in rest if j != i
            ):
                continue
            for following in after(record, state):
                if search(done | {i}, following):
                    return True
        return False

    return search(frozenset(), start)


def scheduling(rng, tasks=(), *, trace=0.3):
    """Parameters of the schedule of a run."""
    dct = {"sched": rng.randrange(1 << 30), "p": {"io": rng.choice([0.05, 0.2, 0.5]), "lock": rng.choice([0.1, 0.5, 0.9])}}
    if rng.random() < trace:
        dct["trace"] = True
        dct["p"]["line"] = rng.choice([0.002, 0.01, 0.05])
    ids = [op["id"] for ops in tasks for op in ops]
    if ids and rng.random() < 0.3:
        dct["stalls"] = [
            [rng.choice(ids), rng.randrange(1, 14), rng.choice([0.3, 2, 40, 4000, -5000])] for _ in range(rng.choice([1, 1, 2, 4]))
        ]
    return dct


def line_points(locations, rng, amount):
    """Line events, so that all places of the code have the same chances."""
    counts = sorted((locations or {}).values())
    return rng.sample(counts, min(amount, len(counts)))


def baseline(bench, scenario, run_class=None):
    """Execute the history without faults. Returns the run, or None if something is already wrong in it."""
    run = (run_class or LiveRun)(bench, dict(scenario, faults=[]))
    run.sim.trace_lines = scenario.get("trace_lines", False)
    run.sim.locations = {} if run.sim.trace_lines else None
    for op in scenario["ops"]:
        if op["op"] == "restart":
            run.restart(op)
            continue
        _, state = run.expected(op)
        try:
            outcome = run.perform(op)
        except core.SimAbort:
            break
        if outcome[0] == "ok":
            run.state = state
    run.sim.finish()
    return run


# ------------------------------------------------------------------------------------------------------------------
# Generation of histories

NAMES = ["A", "B", "AB", "Alpha", "Alpha2", "_Cfg", "Data_1", "alpha", "Ñandú", "LiveData", "BuildA"]
BAD_NAMES = ["class", "None", "1a", "a b", "", "a-b", "import", "x²", "True", "a.b", "../up", "A\n", "lambda", "ﬁeld", "µs", "Ａ", "Any", "str", "LazyTypeHintLive"]
LOCALES = ["utf-8", "ascii", "cp1252", "latin-1", "shift_jis", "gbk", "euc_kr", "iso8859_7"]


class HistoryGen:
    """Random histories. `weights` of the operations can be different in each run (swarm)."""

    def __init__(self, bench, rng, *, names=None, max_names=4, exotic=0.25, bad=0.06, yaml=0.2, locales=("utf-8",), zoo=0.08):
        self.zoo = zoo
        self.bench = bench
        self.rng = rng
        self.names = names or rng.sample(NAMES, min(len(NAMES), rng.randrange(1, max_names + 1)))
        self.exotic = exotic
        self.bad = bad
        self.yaml = yaml
        self.locales = locales
        self.pool = []
        self.next_id = 0

    def id(self):
        self.next_id += 1
        return self.next_id

    def spec(self, strat=None):
        """Data whose type hints are valid Python."""
        rng = self.rng
        if self.pool and rng.random() < 0.35:
            return rng.choice(self.pool)
        for _ in range(5):
            gen = D.Gen(rng, exotic=rng.random() < self.exotic, odd_keys=rng.random() < 0.3, pandas=rng.random() < 0.3)
            spec = gen.value(0 if rng.random() < 0.8 else 2)
            if rng.random() < self.zoo:
                spec = D.zoo(rng)
            if D.max_set(spec) > 1:
                continue
            if self.usable(spec, strat):
                break
        else:
            spec = ["dict", [[["str", "a"], ["int", 1]]]]
        self.pool.append(spec)
        return spec

    def usable(self, spec, strat=None):
        ref = self.bench.ref_data(strat or {}, "Valid", spec)
        return ref[0] == "ok" and not oracle.module_problem("Valid", ref[1].encode("utf-8", "surrogatepass"))

    def new(self, inst, *, validate=0.3, strat=None):
        return {
            "id": self.id(),
            "op": "new",
            "inst": inst,
            "strat": D.strategies(self.rng) if strat is None else strat,
            "mode": "validate" if self.rng.random() < validate else "overwrite",
        }

    def data(self, inst, cfg, *, cls=None, spec=None):
        rng = self.rng
        strat = cfg.get(inst, {}).get("strat", {})
        spec = spec or self.spec(strat)
        if not self.usable(spec, strat):
            spec = ["dict", [[["str", "a"], ["int", 1]]]]
        name = cls or (rng.choice(BAD_NAMES) if rng.random() < self.bad else rng.choice(self.names))
        op = {"id": self.id(), "op": "data", "inst": inst, "cls": name, "data": spec}
        if rng.random() < 0.1:
            op["pos"] = True
        return op

    def yaml_op(self, inst, *, cls=None, loaders=True):
        rng = self.rng
        loader = "yaml"
        if loaders and rng.random() < 0.15:
            loader = rng.choice(["fail", "fail_tmp", "oserror"])
        name = cls or (rng.choice(BAD_NAMES) if rng.random() < self.bad else rng.choice(self.names))
        op = {
            "id": self.id(),
            "op": "yaml",
            "inst": inst,
            "cls": name,
            "file": f"{rng.choice(['conf', 'foreign', 'data'])}{self.next_id}.{rng.choice(['yaml', 'yml'])}",
            "text": D.yaml_text(rng),
            "comments": rng.choice(D.COMMENTS),
            "loader": loader,
        }
        if rng.random() < 0.5:
            op["pathlib"] = True
        return op

    def reset(self, n_inst):
        op = {"id": self.id(), "op": "reset"}
        if self.rng.random() < 0.4:
            op["via"] = self.rng.randrange(n_inst)
        return op

    def restart(self):
        return {
            "id": self.id(),
            "op": "restart",
            "salt": self.rng.randrange(1, 1 << 20),
            "enc": self.rng.choice(self.locales),
        }

    def history(self, length, *, n_inst=3, p_reset=0.08, p_restart=0.12, p_new=0.12, validate=0.3):
        rng = self.rng
        ops, cfg = [], {}
        for inst in range(rng.randrange(1, n_inst + 1)):
            op = self.new(inst, validate=validate)
            cfg[inst] = op
            ops.append(op)
        while len(ops) < length:
            r = rng.random()
            if r < p_reset:
                ops.append(self.reset(n_inst))
            elif r < p_reset + p_restart:
                ops.append(self.restart())
            elif r < p_reset + p_restart + p_new:
                inst = rng.randrange(n_inst)
                op = self.new(inst, validate=validate)
                cfg[inst] = op
                ops.append(op)
            elif rng.random() < self.yaml:
                ops.append(self.yaml_op(rng.randrange(n_inst)))
            else:
                ops.append(self.data(rng.randrange(n_inst), cfg))
        return ops

    def proc(self):
        return {"salt": self.rng.randrange(1, 1 << 20), "enc": self.rng.choice(self.locales)}
