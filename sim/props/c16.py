"""C16: the library only touches its own files, and nothing else of the process."""
import atexit
import decimal
import gc
import locale
import logging
import os
import random
import signal
import sys
import threading
import warnings

import numpy as np
import pandas as pd

import core
import data as D
from core import World
from runner import HistoryGen, LiveRun, Threads, baseline, line_points, scheduling

from props.c01 import hash_state
from props.c03 import fault_points

ID = "C16"
LEVEL = "fault_enumeration"
TECHNIQUE = "all mutating system calls of faulty and killed histories recorded, with snapshots of all files and of the state of the process"
NOTE = (
    "Every path given to a mutating file system call is checked against the ones that the call owns, and all the files of the "
    "simulated world are compared before and after each call. Out of that world nothing can be changed: it is reported. Fault "
    "points of one call of each history are enumerated (at most 16); the rest is sampled."
)
RULE = (
    "seeded histories (3-9 calls of all kinds: live class, reset, in memory, YAML, exports, scans; wrong names, planted links and "
    "foreign files) without faults, in threads, and with one call killed, failing or interrupted at its events and lines. "
    "Distinct: different event log; non-trivial: some file was changed"
)
STATES = "distinct (kind of call, outcome, set of changed places) combinations"
PARTS = [("ops",), ("tasks", "*"), ("faults",), ("links",), ("stalls",), ("schedule",)]
PANDAS_OPTIONS = ["display.max_rows", "display.max_columns", "display.width", "mode.chained_assignment", "mode.copy_on_write", "display.precision"]
NAMES = ["A", "B", "Alpha", "up", "readme", "conf"]
WRONG = [
    "../up", "../../core", "..", ".", "a/b", "/abs/A", "sub/A", "A/../../builder", "../other", "..\\up", "~/A", "$HOME", "A.py", "A/", "/", "\0", "A\0",
    "__init__/x", "../build_notes/keep", "class", "1a", "a b", "", "None", "x; import os",
]  # fmt: skip
TARGETS = ["user/out.py", "user/sub/out.py", "user/new/a/b.py", "user/readme.txt", "user/sub", "tmp/out.py", "user/link_out.py", "user/linked/x.py"]


def cases(tier):
    return 110 if tier == "quick" else 3600


def scenarios(bench, rng, tier, index):
    gen = HistoryGen(bench, rng, names=rng.sample(NAMES, 3), bad=0, exotic=0.3, zoo=0.2)
    cfg = {}

    def op():
        inst = rng.randrange(2)
        r = rng.random()
        if r < 0.3:
            dct = gen.data(inst, cfg)
        elif r < 0.42:
            dct = gen.yaml_op(inst)
        elif r < 0.52:
            return gen.reset(2)
        elif r < 0.58:
            dct = gen.new(inst, validate=0.4)
            cfg[inst] = dct
            return dct
        elif r < 0.64:
            return gen.restart()
        elif r < 0.7:
            dct = dict(gen.data(0, {}), op="lazy", strat={}, inst=None)
        elif r < 0.78:
            dct = dict(gen.yaml_op(0), op="lazy_yaml", strat={})
        elif r < 0.94:
            dct = dict(gen.data(0, {}), op="export", strat={}, path=rng.choice(TARGETS), pathlib=rng.random() < 0.5)
            if rng.random() < 0.6:
                dct["create"] = rng.random() < 0.7
        else:
            return {"id": gen.id(), "op": "scan", "file": rng.random() < 0.5}
        if rng.random() < 0.25:
            dct["cls"] = rng.choice(WRONG)
        return dct

    ops = [op() for _ in range(rng.randrange(3, 10))]
    scenario = {
        "seed": rng.randrange(1 << 30),
        "proc": gen.proc(),
        "ops": ops,
        "links": [],
        "same_pid": rng.random() < 0.3,
        "files": {"user/sub/keep.py": "KEEP = 1\n", **{name: "FOREIGN = 1\n" for name in rng.sample(FOREIGN, rng.randrange(5))}},
        "umask": rng.choice([0o022, 0o002, 0o077]),
    }
    # Links of the user. The ones in the folder of generated modules appear after a call
    for name, target in (("user/link_out.py", "user/readme.txt"), ("user/linked", "user/sub")):
        scenario["links"].append([0, name, target])
    build = "pkg/lazy_type_hint/generators/build"
    for _ in range(rng.choice([0, 0, 1, 2])):
        name = rng.choice([f"{build}/A.py", f"{build}/B.py", f"{build}/folder", f"{build}/__pycache__", f"{build}/other.txt"])
        target = rng.choice(["user/sub", "tmp/sub"]) if name.endswith(("folder", "cache__")) else rng.choice(["user/readme.txt", "user/sub/keep.py"])
        scenario["links"].append([rng.randrange(1, len(ops)), name, target])
    yield scenario
    if rng.random() < 0.3:
        tasks = [[o for o in (op() for _ in range(rng.randrange(1, 4))) if o["op"] not in ("restart", "scan")] for _ in range(2)]
        yield {**scenario, "tasks": tasks, **scheduling(rng, tasks)}
    base = LiveHistory(bench, scenario, trace=True)
    base.execute(check=False)
    targets = [o for o in ops if any(mut for _, _, mut in base.sim.events.get(o["id"], ()))]
    if not targets:
        return
    target = rng.choice(targets)
    events = base.sim.events[target["id"]]
    points = fault_points(events, base.sim.locations.get(target["id"]), rng, n_lines=6)
    for k, (kind, _, mut) in enumerate(events, 1):
        if mut:
            points += [{"k": k, "kind": "crash"}, {"k": k, "kind": "crash_after"}]
        if kind == "write":
            points.append({"k": k, "kind": "torn", "frac": rng.random()})
    rng.shuffle(points)
    for point in points[:16]:
        yield dict(scenario, faults=[dict(point, op=target["id"])])


def descriptors(folder):
    """Files that are open: number -> path."""
    found = {}
    for name in os.listdir("/proc/self/fd"):
        try:
            target = os.readlink(f"/proc/self/fd/{name}")
        except OSError:
            continue
        if target.startswith(folder + "/"):
            found[name] = target[len(folder) + 1 :]
    return found


GENERATORS = "pkg/lazy_type_hint/generators"
FOREIGN = [
    *(f"{GENERATORS}/{name}" for name in ("notes.tmp", "1_2.tmp", ".hidden", "A.py", "A.pyi", "B.py", "build.txt", "build.tmp", "other.pyi")),
    *(f"{GENERATORS}/{name}" for name in ("lazy_type_hint_live.pyi.bak", "lazy_type_hint_live.pyi~", "lazy_type_hint_live.tmp", "build_old/A.py")),
    *(f"pkg/lazy_type_hint/{name}" for name in ("build/A.py", "build/__init__.py", "generators.pyi", "x.tmp", "data_type_tree/build/A.py")),
    *(f"tmp/{name}" for name in ("_abcdefgh_conf1.yaml", "1_2.tmp", "tmpabcdefgh", "conf1.yaml", "build/A.py")),
    *(f"user/{name}" for name in ("build/A.py", "A.py", "lazy_type_hint_live.pyi", "1_2.tmp", "conf1.yaml.bak")),
]


def process_state():
    """What the process shares with the rest of the program."""
    mask = os.umask(0)
    os.umask(mask)
    return {
        "working folder": os.getcwd(),
        "environment": dict(os.environ),
        "umask": mask,
        "sys.path": list(sys.path),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "signal handlers": [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)],
        "random state": hash(random.getstate()),
        "gc": (gc.isenabled(), gc.get_threshold()),
        "locale": locale.setlocale(locale.LC_ALL),
        "streams": (sys.stdout, sys.stderr, sys.stdin),
        "hooks": (sys.excepthook, sys.displayhook, threading.excepthook),
        "sys.dont_write_bytecode": sys.dont_write_bytecode,
        "warning filters": [f[:3] for f in warnings.filters],
        "decimal context": repr(decimal.getcontext()),
        "numpy errors": dict(np.geterr()),
        "pandas options": [pd.get_option(name) for name in PANDAS_OPTIONS],
        "handlers of the logs": (len(logging.getLogger().handlers), logging.getLogger().level),
        "functions called at exit": atexit._ncallbacks(),
        "tracing": (threading.gettrace() if hasattr(threading, "gettrace") else None, sys.getprofile()),
    }


def lasting(bench):
    """Files that calls without any problem keep, apart from the interface and the modules."""
    paths = getattr(bench, "lasting_files", None)
    if paths is None:
        data = {"op": "data", "inst": 0, "cls": "Lasting", "data": ["list", [["int", 1]]]}
        run_ = LiveRun(bench, {"seed": 0, "proc": {"salt": 0}, "ops": []})
        before = World.tree(run_.world.root)
        run_.perform(dict(data, id=1))
        run_.perform({"id": 2, "op": "yaml", "inst": 0, "cls": "Lasting2", "file": "user/lasting.yaml", "text": "a: 1 # One\n"})
        paths = bench.lasting_files = {*World.tree(run_.world.root)} - {*before}
    return paths


class LiveHistory(LiveRun):
    def __init__(self, bench, scenario, *, trace=False):
        super().__init__(bench, dict(scenario, faults=[]) if trace else scenario)
        if trace:
            self.sim.trace_lines, self.sim.locations = True, {}
        self.own = set()
        self.states = set()
        self.changed = False

    def action(self, op):
        if op["op"] == "scan":
            self.sim.children = [{"what": "scan", "stdout": b"Success: no issues found in 1 source file\n".hex()}] * 99
            mypy = self.image.module("lazy_type_hint.utils.mypy").Mypy()
            if op["file"]:
                return lambda: mypy.scan_file(f"{self.world.root}/user/readme.txt")
            return lambda: mypy.scan_string("x = 1")
        return super().action(op)

    def links(self, position):
        for at, name, target in self.scenario["links"]:
            path = f"{self.world.root}/{name}"
            if at == position and os.path.isdir(os.path.dirname(path)) and not os.path.isdir(path):
                if os.path.lexists(path):
                    core._real["unlink"](path)
                core._real["symlink"](f"{self.world.root}/{target}", path)
        core._resolved.clear()

    def allowed(self, op, path, before):
        """Does the call own this path?"""
        world = self.world
        live = op["op"] in ("data", "yaml", "reset", "new")
        if live and (path == world.pyi or path == world.build or path.startswith(world.build + "/")):
            return True
        folders = []
        if live:
            folders.append(world.gen)
        if op["op"] in ("yaml", "lazy_yaml"):
            folders.append(world.tmp)
        if op["op"] == "export":
            target = os.path.join(world.root, op["path"])
            real = os.path.realpath(target)
            if path in (target, real):
                return True
            if op.get("create", False) and before is not None and path not in before and (target.startswith(path + "/") or real.startswith(path + "/")):
                return True
            folders += [os.path.dirname(target), os.path.dirname(real)]
        # Temporary files and folders: entries that did not exist
        for folder in folders:
            if path.startswith(folder + "/"):
                top = folder + "/" + path[len(folder) + 1 :].split("/")[0]
                if before is None or top not in before:
                    return True
        return False

    def execute(self, *, check=True):
        ops = self.scenario["ops"]
        faulty = {f["op"] for f in self.scenario.get("faults", ())}
        after = None
        try:
            for position, op in enumerate(ops):
                self.links(position)
                if op["op"] == "restart" or self.sim.inc.dead:
                    self.restart({"salt": 5} if op["op"] != "restart" else op)
                    if op["op"] == "restart":
                        continue
                before = World.tree(self.world.root)
                state, opened = process_state(), descriptors(self.world.root)
                self.sim.touched.clear()
                n_spawned = len(self.sim.spawned)
                outcome = self.perform(op)
                if not check:
                    continue
                self.verify(op, outcome, before, state, opened, op["id"] in faulty and bool(self.sim.injected))
                if len(self.sim.spawned) > n_spawned and op["op"] != "scan":
                    self.bad("spawned", f"{self.show(op)} executed {self.sim.spawned[-1]}", op)
                if self.violations:
                    return
        except core.SimAbort:
            pass

    def leftovers(self, op, what, paths):
        """A single failure, if it is not of the clean up itself, leaves no temporary files."""
        injected = self.sim.injected
        if len(injected) != 1 or injected[0]["event"] in ("line", "unlink", "rmdir", "open", "create") or op["op"] == "export":
            return
        for path in sorted(paths):
            module = path.startswith(self.world.build + "/") and path.endswith(".py")
            if path not in (self.world.pyi, self.world.build) and not module and path not in lasting(self.bench):
                self.bad("left", f"{what} leaves {self.world.label(path)} after the failure of {injected[0]['event']}", op)

    def verify(self, op, outcome, before, state, opened, fired):
        after = World.tree(self.world.root)
        changed = {p for p in {*before, *after} if before.get(p, 0) != after.get(p, 0)}
        self.changed = self.changed or bool(changed)
        what = f"{self.show(op)} ({self.describe_outcome(outcome)})"
        places = sorted(self.world.label(os.path.dirname(p)) for p in changed)
        self.states.add(hash_state({"x": f"{op['op']} {outcome[0]} {places}"}))
        if self.sim.escapes:
            self.bad("escape", f"{what}: {self.sim.escapes[0]}", op)
        for path in sorted(self.sim.touched):
            if not self.allowed(op, path, before):
                self.bad("touched", f"{what} changes {self.world.label(path)}", op)
        for path in sorted(changed):
            if not self.allowed(op, path, before):
                verb = "creates" if path not in before else "removes" if path not in after else "modifies"
                self.bad("changed", f"{what} {verb} {self.world.label(path)}", op)
        if outcome[0] != "crash" and not fired:
            target = os.path.realpath(os.path.join(self.world.root, op["path"])) if op["op"] == "export" else self.world.pyi
            for path in sorted(p for p in changed if p not in before):
                own = path == target or target.startswith(path + "/") or path == self.world.build or path.startswith(self.world.build + "/")
                if not own:
                    self.bad("left", f"{what} leaves {self.world.label(path)}", op)
            if outcome[0] == "raise" and op.get("cls") in WRONG and changed:
                self.bad("changed", f"{what} changes {sorted(map(self.world.label, changed))}", op)
        if outcome[0] != "crash" and fired:
            self.leftovers(op, what, [p for p in changed if p not in before])
        if outcome[0] != "crash":
            now = process_state()
            left = sorted({*(now_open := descriptors(self.world.root))} - {*opened})
            # An interruption can arrive before the descriptor is known
            if left and not any(i["kind"].startswith("intr") or i["event"] == "line" for i in self.sim.injected):
                self.bad("process", f"{what} leaves {[now_open[n] for n in left]} open", op)
            for key, value in state.items():
                if now[key] != value:
                    self.bad("process", f"{what} changes the {key} of the process: {str(value)[:200]} -> {str(now[key])[:200]}", op)
        del self.violations[3:]


def run(bench, scenario):
    mask = os.umask(scenario.get("umask", 0o022))
    try:
        return _run(bench, scenario)
    finally:
        os.umask(mask)


def _run(bench, scenario):
    run_ = LiveHistory(bench, scenario)
    run_.execute()
    if run_.sim.inc.dead:
        run_.restart({"salt": 7})
    threads = None
    if scenario.get("tasks") and not run_.violations and not run_.sim.anomalies:
        before = World.tree(run_.world.root)
        run_.sim.touched.clear()
        threads = Threads(run_, scenario)
        every = [op for ops in scenario["tasks"] for op in ops]
        # What they need is created before, because it is shared
        for inst in range(2):
            with run_.image:
                run_.instance(inst)
        threads.execute(scenario["tasks"])
        after = World.tree(run_.world.root)
        changed = {p for p in {*before, *after} if before.get(p, 0) != after.get(p, 0)}
        for path in sorted(run_.sim.touched | changed):
            if not any(run_.allowed(op, path, before) for op in every):
                run_.bad("touched", f"{len(scenario['tasks'])} threads change {run_.world.label(path)}")
        if run_.sim.escapes:
            run_.bad("escape", f"{run_.sim.escapes[0]}")
        del run_.violations[3:]
    out = run_.outcome(states=run_.states, nontrivial=run_.changed)
    return threads.complete(out) if threads else out
