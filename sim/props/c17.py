"""C17: the pre-push hook of check_code.py is complete or not there, and stops the push if the checks fail."""
import os
import re
import subprocess

import core
from core import World

from props.c01 import hash_state
from props.c13 import Script

ID = "C17"
LEVEL = "fault_enumeration"
TECHNIQUE = "kills, errors and interruptions at each event of enabling and disabling the hook, with its state checked afterwards"
NOTE = (
    "The content of reference is the one written by an execution without faults in a new repository: its meaning is checked by "
    "executing it with a real shell and a stub of python3 that ends with each of several exit codes. One case for each content."
)
RULE = (
    "seeded histories of 1-5 executions of check_code.py (enable, disable, wrong values) where one of them is killed, fails or is "
    "interrupted at each event or at some lines. Distinct: different event log; non-trivial: something fired"
)
STATES = "distinct (hook present, command, outcome, place of the fault) combinations"
PARTS = [("ops",), ("faults",)]
HOOK = "pkg/.git/hooks/pre-push"
OTHERS = {
    "pkg/.git/hooks/pre-push.sample": "#!/bin/sh\nexit 0\n",
    "pkg/.git/hooks/pre-commit": "#!/bin/sh\necho own\n",
    "pkg/.git/config": "[core]\n\tbare = false\n",
}
VALUES = {"enable": ["enable", "enable", "ENABLE", "enabled", "Enable"], "disable": ["disable", "disable", "DISABLE", "disabled"], "wrong": ["on", "", "yes", "dis"]}


def cases(tier):
    return 220 if tier == "quick" else 9000


def scenarios(bench, rng, tier, index):
    ops = []
    for number in range(rng.randrange(1, 6)):
        kind = rng.choice(["enable"] * 5 + ["disable"] * 4 + ["wrong"])
        ops.append({"id": number + 1, "op": kind, "value": rng.choice(VALUES[kind]), "enc": rng.choice(["utf-8", "ascii", "cp1252"])})
    scenario = {
        "seed": rng.randrange(1 << 30),
        "proc": {"salt": 1},
        "ops": ops,
        "hooks": rng.random() < 0.93,
        "max_write": rng.choice([None, None, 50, 300]),
        "same_pid": rng.random() < 0.5,
    }
    yield scenario
    base = execute(bench, dict(scenario, faults=[]))
    op = rng.choice(ops)
    events = base.sim.events.get(op["id"], [])
    points = list(enumerate(events, 1))
    if len(points) > 16:
        points = sorted(rng.sample(points, 16))
    for k, (kind, _, mut) in points:
        if kind == "write":
            yield dict(scenario, faults=[{"op": op["id"], "k": k, "kind": rng.choice(["torn", "short_err"]), "frac": rng.random(), "errno": "ENOSPC"}])
        if mut:
            yield dict(scenario, faults=[{"op": op["id"], "k": k, "kind": "crash"}])
            yield dict(scenario, faults=[{"op": op["id"], "k": k, "kind": "crash_after"}])
        errno = rng.choice(["ENOSPC", "EIO", "EACCES", "EROFS", "EDQUOT", "EMFILE"])
        yield dict(scenario, faults=[{"op": op["id"], "k": k, "kind": "err", "errno": errno}])
        yield dict(scenario, faults=[{"op": op["id"], "k": k, "kind": "err", "errno": errno, "sticky": True}])
        yield dict(scenario, faults=[{"op": op["id"], "k": k, "kind": rng.choice(["intr", "intr_after"])}])
    for _ in range(5):
        yield dict(scenario, faults=[{"op": op["id"], "line": rng.randrange(1, 260), "kind": rng.choice(["intr", "mem", "crash"])}])


class HookRun(Script):
    def __init__(self, bench, scenario):
        files = {**OTHERS}
        if not scenario["hooks"]:
            files = {"pkg/.git/config": OTHERS["pkg/.git/config"]}
        if scenario.get("location"):
            files = {scenario["location"] + name[len("pkg") :]: content for name, content in files.items()}
        super().__init__(bench, dict(scenario, files=files))
        self.others = files
        if scenario.get("location"):
            self.location = f"{self.world.root}/{scenario['location']}"

    def hook(self):
        path = (self.location or self.world.pkg) + HOOK[len("pkg") :]
        content = World.read(path)
        if content is None:
            return None
        return content, bool(core._real["stat"](path).st_mode & 0o100)

    def command(self, op):
        _, outcome, text = self.script(op, ["--auto-linting", op["value"]])
        self.sim.note("exit", f"{self.status(outcome)} {text!r}")
        return outcome, text


def execute(bench, scenario):
    """Without checks."""
    run_ = HookRun(bench, scenario)
    for number, op in enumerate(scenario["ops"]):
        if number:
            run_.restart(op)
        try:
            run_.command(op)
        except core.SimAbort:
            break
    run_.sim.finish()
    return run_


_reference = {}
SPECIAL = "user/with space, 'quote' & ñ"


def reference(bench):
    """Content of the hook in a new repository: (content, problem)."""
    if bench not in _reference:
        _reference[bench] = in_folder(bench, None)
        special = (None, "") if _reference[bench][1] else in_folder(bench, SPECIAL)
        if special[1]:
            _reference[bench] = None, f"repository in a folder called {SPECIAL!r}: {special[1]}"
    return _reference[bench]


def in_folder(bench, location):
    scenario = {"ops": [{"id": 1, "op": "enable", "value": "enable"}], "proc": {}, "hooks": True, "location": location}
    run_ = execute(bench, scenario)
    hook = run_.hook()
    if hook is None:
        return None, "enabling the hook does not create it"
    if not hook[1]:
        return hook[0], "the hook is not executable: git ignores it"
    return hook[0], meaning(bench, hook[0], run_.location or bench.world.pkg)


def meaning(bench, content, repository):
    """Execute the hook as git would do, with a stub of python3."""
    folder = os.path.join(os.path.dirname(bench.world.root), f"hook-{os.getpid()}")
    os.makedirs(os.path.join(folder, "bin"), exist_ok=True)
    World.write(f"{folder}/pre-push", content)
    World.write(
        f"{folder}/bin/python3",
        f'#!/bin/sh\npwd > {folder}/called\nfor a in "$@"; do echo "<$a>" >> {folder}/called; done\ncat > /dev/null\nexit $STUB\n',
    )
    os.chmod(f"{folder}/pre-push", 0o755)
    os.chmod(f"{folder}/bin/python3", 0o755)

    def push(code):
        if os.path.exists(f"{folder}/called"):
            os.unlink(f"{folder}/called")
        env = {"PATH": f"{folder}/bin:/usr/bin:/bin", "STUB": str(code)}
        result = subprocess.run([f"{folder}/pre-push", "origin", "url"], env=env, cwd=folder, capture_output=True, input=b"", timeout=60)
        return result, (World.read(f"{folder}/called") or b"").decode()

    for code in (0, 1, 2, 120, 130, 137, 255):
        result, called = push(code)
        script = re.search(r"<([^\n]*check_code.py)>", called)
        if not called.startswith(repository + "\n") or not script or os.path.normpath(os.path.join(repository, script.group(1))) != f"{repository}/check_code.py":
            return f"the hook does not execute check_code.py in {repository}: {called!r} {result}"
        match = re.search(r"<--(?:single-tool|only-run-tools)>\n<(.*)>", called)
        if match and match.group(1).lower() != "all linters":
            return f"the hook does not run all linters: {called!r}"
        if (result.returncode == 0) != (code == 0):
            return f"the hook ends with {result.returncode} if the checks end with {code}"
    # The repository was moved: There is no check_code.py where the hook looks for it
    os.rename(repository, repository + ".moved")
    try:
        result, called = push(2)
    finally:
        os.rename(repository + ".moved", repository)
    if result.returncode == 0:
        return f"the hook ends with 0 if the folder of the repository was moved and python3 fails: {called!r}"
    return ""


def run(bench, scenario):
    expected, problem = reference(bench)
    run_ = HookRun(bench, scenario)
    if problem:
        run_.bad("hook", problem)
        return run_.outcome()
    states = set()
    faulty = {f["op"] for f in scenario.get("faults", ())}
    try:
        for number, op in enumerate(scenario["ops"]):
            if number:
                run_.restart(op)
            before = run_.hook()
            outcome, text = run_.command(op)
            status = run_.status(outcome)
            after = run_.hook()
            what = f"check_code.py --auto-linting {op['value']} (hook {'present' if before else 'absent'}) -> exit {status}"
            fired = op["id"] in faulty and bool(run_.sim.injected)
            new = {"enable": (expected, True), "disable": None, "wrong": before}[op["op"]]
            key = f"{what} {run_.sim.injected[-1:] and run_.sim.injected[-1]['event']}"
            states.add(hash_state({"x": re.sub(r"\d+", "", key)}))
            if after not in (before, new):
                found = after[0].decode("utf-8", "replace") if after else None
                run_.bad("torn", f"{what}: the hook is {'not executable' if after and after[0] == expected else 'not complete'}: {found!r}", op)
            elif status == 0 and after != new:
                run_.bad("lost", f"{what}: the hook is {'present' if after else 'absent'}", op)
            elif status == 0 and op["op"] == "wrong":
                run_.bad("accepted", what, op)
            elif status != 0 and op["op"] != "wrong" and not fired and scenario["hooks"]:
                run_.bad("failed", f"{what}: {run_.describe_outcome(outcome)}", op)
            elif status != 0 and op["op"] == "wrong" and after != before:
                run_.bad("lost", f"{what}: changes the hook", op)
            elif run_.sim.spawned:
                run_.bad("spawned", f"{what}: executes {run_.sim.spawned}", op)
            if run_.violations:
                break
        tree = {k[len(run_.world.root) + 1 :]: v for k, v in World.tree(f"{run_.world.pkg}/.git").items() if v is not None}
        tree.pop(HOOK, None)
        for name, content in run_.others.items():
            if tree.pop(name, None) != content.encode() and not run_.violations:
                run_.bad("others", f"{name} was changed")
        if tree and not run_.sim.injected and not run_.violations:
            run_.bad("others", f"new files: {sorted(tree)}")
    except core.SimAbort:
        pass
    return run_.outcome(states=states, nontrivial=bool(run_.sim.injected))
