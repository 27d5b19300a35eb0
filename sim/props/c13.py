"""C13: check_code.py reports that everything is OK only if all selected tools passed."""
import argparse
import re
import sys
import types

import core
from runner import LiveRun, Threads, scheduling

from props.c01 import hash_state

ID = "C13"
LEVEL = "exploration"
TECHNIQUE = "simulated tools that fail, are killed, cannot be started or end in any order, under the sequential and parallel scheduler"
NOTE = (
    "Seeded search. The script is executed as `__main__` with the real configuration parser, argument parser and thread pool "
    "(its threads are tasks of the scheduler). The tools are simulated processes. `colorama` is a stub because it is not installed. "
    "A tool that ends well with undecodable output can be considered good or bad. The parallel mode, that the command line "
    "cannot activate, is activated by changing the parsed arguments."
)
RULE = (
    "seeded configurations (1-7 tools), selections and outcomes of the tools (13 kinds), with a fault (reading the configuration, "
    "writing to the terminal, interruption at some line) in a third of the runs. Distinct: different event log (includes commands, "
    "exit code and output); non-trivial: some tool or the script fails, or the selection is rejected"
)
STATES = "distinct (outcomes of the tools, mode, verdict) combinations"
PARTS = [("tools",), ("argv",), ("faults",), ("schedule",)]

TOOLS = ["ruff", "black", "codespell", "pytest", "mypy", "pylint", "lint", "ruff-format", "isort", "doctest", "pytest-cov", "MyTool"]
OUTCOMES = ["ok"] * 7 + [
    "ok_stderr", "fail", "fail_err", "killed", "ERROR", "passtext", "passtext_err", "no_passtext", "spawn", "undecodable", "undecodable_fail", "silent",
]  # fmt: skip
TEXTS = ["All checks passed!\n", "1 file would be left unchanged.\n", "", "no tests ran in 0.1s\n", "año ✓\n", "warning: x\r\n"]
PASS = ["no tests ran", "found 0 problems", "Nothing to do", "ñ"]


def cases(tier):
    return 5000 if tier == "quick" else 150000


def tool_entry(rng, number, name):
    entry = {"tool": name}
    token = f"k{number}x"
    if rng.random() < 0.3:
        entry["extra_args"] = rng.choice(["--check", "check --fix", "-q"])
    entry["path"] = f"src/{token}"
    if rng.random() < 0.4:
        entry["tool_desc"] = rng.choice(["Check types", "Añadir", "x"])
    if rng.random() < 0.3:
        entry["suggestions"] = rng.choice(["Fix it", ["One", "Two"], ["Año"]])
    if rng.random() < 0.2:
        entry["ignore"] = rng.sample(["Skipping", "Oh no", "warning", "line"], 2)
    if rng.random() < 0.15:
        entry["only_include"] = rng.sample(["E5", "error", "line"], 2)
    if rng.random() < 0.15:
        entry["display_output"] = True
    outcome = rng.choice(OUTCOMES)
    texts = rng.sample(PASS, rng.choice([1, 1, 2]))
    if outcome in ("passtext", "passtext_err", "no_passtext") or rng.random() < 0.1:
        entry["pass_if_output_contains"] = texts if rng.random() < 0.8 else texts[0]
    if name == "mypy" and rng.random() < 0.5:
        entry["dmypy"] = {"enable": rng.random() < 0.8}
        if rng.random() < 0.5:
            entry["dmypy"]["timeout"] = 60
    child = {"match": token, "always": True, "what": outcome, "code": 0, "seconds": rng.choice([0.1, 1, 1, 5, 30])}
    out, err = rng.choice(TEXTS).encode(), b""
    good = True
    if outcome == "ok_stderr":
        err = b"Skipping .ipynb files\nwarning: ERROR-free\n"
    elif outcome in ("fail", "fail_err", "no_passtext", "undecodable_fail", "silent"):
        child["code"], good = rng.choice([1, 1, 2, 3, 4, 5, 32, 64, 123, 126, 127, 128, 255, -6]), False
        text = rng.choice([b"src/a.py:1: E501 line too long\n", b"Oh no\nsomething else\n", b"  \n", "año: fallo\n".encode()])
        if outcome == "silent":
            text = out = b""
        if outcome == "fail_err":
            err = text
        else:
            out = text
        if outcome == "undecodable_fail":
            out, err = rng.choice([(out + b"\xff\xe9", b""), (out, b"\xff\xe9\n")])
    elif outcome == "killed":
        child["code"], good = rng.choice([-9, -11, -13, -15, -1, -2, -6, 130, 137, 139, 141, 143]), False
        out = out[: rng.randrange(len(out) + 1)].decode("utf-8", "ignore").encode()
    elif outcome == "ERROR":
        out, good = rng.choice([b"ERROR: not found\n", b"x\nERROR\n", b"1 ERRORS\n"]), False
    elif outcome == "passtext":
        child["code"] = rng.choice([1, 5, -9])
        out = b"bla\n" + texts[0].encode() + b" after ERROR 3\n"
    elif outcome == "passtext_err":
        child["code"], err, good = 5, texts[0].encode() + b"\n", False
        out = b""
    elif outcome == "spawn":
        child["spawn_error"], good = rng.choice(["FileNotFoundError", "ENOMEM", "EAGAIN", "EMFILE"]), False
    elif outcome == "undecodable":
        good = None
        out, err = rng.choice([(out + b"\xff\xe9\n", b""), (out, b"\xff\xe9\n")])
    given = entry.get("pass_if_output_contains", ())
    if outcome != "spawn" and any(t.encode() in out for t in ([given] if isinstance(given, str) else given)):
        good = True if outcome not in ("undecodable", "undecodable_fail") else None
    if good is False and rng.random() < 0.2:  # Takes long: It cannot be considered good without waiting
        child["seconds"] = rng.choice([700, 4000, 100000])
    child.update(stdout=out.hex(), stderr=err.hex())
    return {"number": number, "entry": entry, "child": child, "good": good}


def scenarios(bench, rng, tier, index):
    tools = []
    names = rng.sample(TOOLS, rng.choice([1, 2, 3, 3, 4, 5]))
    if "pytest" in names and rng.random() < 0.6:
        names.append("pytest")  # As the real configuration
    for number, name in enumerate(names):
        tools.append(tool_entry(rng, number, name))
    if rng.random() < 0.4:  # At most one fails
        spare = rng.randrange(len(names))
        for number in range(len(names)):
            while number != spare and not tools[number]["good"]:
                tools[number] = tool_entry(rng, number, names[number])
    argv = []
    r = rng.random()
    if r < 0.2:
        name = rng.choice([n for n in names if n.islower()] or ["xyz"])
        argv = ["--single-tool", rng.choice([name, name.upper(), name.title()])]
    elif r < 0.35:
        argv = ["--single-tool", rng.choice(["all linters", "All Linters"])]
    elif r < 0.55:
        argv = ["--only-run-tools", *rng.sample(sorted(set(names)), rng.randrange(1, len(set(names)) + 1))]
    elif r < 0.62:
        argv = ["--only-run-tools", "all linters"]
        if "pytest" in names and rng.random() < 0.5:
            argv.append("pytest")
    elif r < 0.72:
        bad = rng.choice([n for n in [*TOOLS, "my", "ruf", "test", "pytest mypy", "xyz"] if n not in names])
        argv = rng.choice([["--single-tool", bad], ["--only-run-tools", bad], ["--only-run-tools", *names, bad]])
    elif r < 0.75:
        argv = ["--single-tool", names[0], "--only-run-tools", names[0]]
    if rng.random() < 0.05:
        argv.append("--disable-parallel")
    if rng.random() < 0.05:
        argv.append("--cls")
    scenario = {
        "seed": rng.randrange(1 << 30),
        "proc": {"salt": 1, "enc": rng.choice(["utf-8", "ascii", "cp1252"])},
        "argv": argv,
        "tools": tools,
        "status": rng.choice([0, 2]),
        "cpus": rng.choice([1, 2, 8]),
        "parallel": rng.random() < 0.5,
    }
    if rng.random() < 0.05:
        scenario["broken"] = rng.choice(["tool: ruff\n", "+- path: x\n", "+- [", "+- tool: '\n", "5\n", "", None, "- 5\n"])
    yield {**scenario, **scheduling(rng)}
    r = rng.random()
    if r < 0.15:
        fault = {"op": 1, "kind": "err", "errno": rng.choice(["EIO", "EACCES", "ENOENT", "EMFILE"]), "k": rng.randrange(1, 5)}
        yield {**scenario, "faults": [fault], **scheduling(rng)}
    elif r < 0.25:
        yield {**scenario, "terminal": [rng.randrange(12), rng.choice(["BrokenPipeError", "OSError"])], **scheduling(rng)}
    elif r < 0.4:
        fault = {"op": 1, "kind": rng.choice(["intr", "intr", "mem", "crash"]), "line": rng.randrange(1, 700)}
        yield {**scenario, "parallel": False, "faults": [fault], **scheduling(rng)}
    if scenario["parallel"]:
        yield {**scenario, **scheduling(rng)}


def selection(argv, names):
    """Positions of the tools that have to be run, or None if they cannot be."""
    single = argv[argv.index("--single-tool") + 1].lower() if "--single-tool" in argv else ""
    several = []
    if "--only-run-tools" in argv:
        for name in argv[argv.index("--only-run-tools") + 1 :]:
            if name.startswith("--"):
                break
            several.append(name)
    if single and several:
        return None
    chosen = {single} if single else set(several)
    if not chosen:
        return list(range(len(names)))
    if "all linters" in chosen:
        chosen = (chosen - {"all linters"}) | (set(names) - {"pytest"})
    if chosen - set(names):
        return None
    return [i for i, n in enumerate(names) if n in chosen] or None


class Terminal:
    encoding = "utf-8"

    def __init__(self, fail):
        self.text = []
        self.fail = fail
        self.n = 0

    def write(self, text):
        if self.fail and self.n >= self.fail[0]:
            raise {"BrokenPipeError": BrokenPipeError, "OSError": OSError}[self.fail[1]](32, "injected")
        self.n += 1
        self.text.append(text)
        return len(text)

    def flush(self):
        if self.fail and self.n >= self.fail[0]:
            raise BrokenPipeError(32, "injected")

    def isatty(self):
        return False

    def fileno(self):
        raise OSError("no file")


class _Empty:
    def __getattr__(self, name):
        return ""


def colorama():
    module = types.ModuleType("colorama")
    module.Fore = module.Style = module.Back = _Empty()
    module.init = lambda **kwargs: None
    return module


class Script(LiveRun):
    """check_code.py executed as `__main__`."""

    LOAD = None
    location = None  # Folder of the script, if it is not the one of the package

    def script(self, op, argv, *, terminal=None, parallel=False):
        code = self.bench.factory.code(f"{self.world.pkg}/check_code.py")
        path = f"{self.location or self.world.pkg}/check_code.py"
        main = types.ModuleType("__main__")
        main.__file__ = path
        main.__dict__["__builtins__"] = self.image.builtins
        out = Terminal(terminal)
        err = Terminal(None)
        real = argparse.ArgumentParser.parse_args

        def parse_args(parser, *args, **kwargs):
            namespace = real(parser, *args, **kwargs)
            if parallel and hasattr(namespace, "disable_parallel"):
                namespace.disable_parallel = False
            return namespace

        saved = sys.argv, sys.stdout, sys.stderr, sys.modules["__main__"], sys.modules.get("colorama")
        sys.argv, sys.stdout, sys.stderr = [path, *argv], out, err
        sys.modules["__main__"] = main
        sys.modules["colorama"] = colorama()
        argparse.ArgumentParser.parse_args = parse_args
        try:
            threads = Threads(self, self.scenario)
            history = threads.execute([[op]], lambda _: lambda: exec(code, main.__dict__))  # noqa: S102
            outcome = history[0]["outcome"]
        finally:
            argparse.ArgumentParser.parse_args = real
            sys.argv, sys.stdout, sys.stderr, sys.modules["__main__"], old = saved
            if old is None:
                sys.modules.pop("colorama", None)
            else:
                sys.modules["colorama"] = old
        return threads, outcome, "".join(out.text)

    @staticmethod
    def status(outcome):
        """Exit code that the shell sees."""
        kind, value = outcome
        if kind == "crash":
            return 137
        if kind == "ok":
            return 0
        if isinstance(value, SystemExit):
            code = value.code
            if code is None:
                return 0
            return code & 255 if isinstance(code, int) else 1
        return 130 if isinstance(value, KeyboardInterrupt) else 1


def run(bench, scenario):
    import yaml

    tools = scenario["tools"]
    names = [t["entry"]["tool"] for t in tools]
    good = [t["good"] for t in tools]
    text = yaml.safe_dump([t["entry"] for t in tools], allow_unicode=True, sort_keys=False)
    selected = selection(scenario["argv"], names)
    if "broken" in scenario:
        text = text + scenario["broken"][1:] if (scenario["broken"] or "").startswith("+") else scenario["broken"]
        selected = None
    if not tools:
        return LiveRun(bench, scenario).outcome(nontrivial=False)
    run_ = Script(bench, dict(scenario, files={"pkg/check_code_args.yaml": text}))
    sim = run_.sim
    sim.children = [dict(t["child"]) for t in tools]
    sim.children.append({"match": "dmypy status", "always": True, "what": "status", "code": scenario["status"], "stdout": b"Daemon\n".hex()})
    sim.cpus = scenario["cpus"]
    unknown, selected = selected is None, selected or []
    try:
        threads, outcome, text = run_.script(
            {"id": 1, "op": "script"}, scenario["argv"], terminal=scenario.get("terminal"), parallel=scenario["parallel"]
        )
    except core.SimAbort:
        return run_.outcome()
    status = run_.status(outcome)
    faulty = bool(scenario.get("faults") or scenario.get("terminal"))
    error = "" if outcome[0] != "raise" else f" ({type(outcome[1]).__name__}: {str(outcome[1])[:120]})"
    what = f"check_code.py {' '.join(scenario['argv'])} -> exit {status}{error}"
    sim.note("exit", f"{status} {text[:2000]!r}")
    started = {}
    foreign = []
    positions = {t["number"]: i for i, t in enumerate(tools)}
    for child in sim.spawned:
        command = child["command"] if isinstance(child["command"], str) else " ".join(child["command"])
        token = re.search(r"\bk(\d+)x\b", command)
        if token and int(token.group(1)) in positions:
            number = positions[int(token.group(1))]
            started[number] = started.get(number, 0) + 1
            entry = tools[number]["entry"]
            if f"{names[number]} " not in command and not (names[number] == "mypy" and "dmypy" in command):
                run_.bad("command", f"{names[number]} is executed as {command!r}")
            args = entry.get("extra_args", "")
            if args and args not in command and not (entry.get("dmypy") or {}).get("enable"):
                run_.bad("command", f"{names[number]} is executed without its arguments {args!r}: {command!r}")
        elif "dmypy status" not in command and command != "cls":
            foreign.append(command)
    shown = {i: f"{names[i]}:{tools[i]['child']['what']}" for i in range(len(tools))}
    chosen = [shown[i] for i in selected]
    failed = [shown[i] for i in selected if good[i] is False]
    unclear = [i for i in selected if good[i] is None]
    missing = [shown[i] for i in selected if i not in started]
    is_ok = "EVERYTHING IS OK" in text
    if foreign or any(i not in selected or n > 1 for i, n in started.items()):
        run_.bad("started", f"{what}: started {[shown[i] for i in started]} {foreign}, but {chosen} are the selected ones")
    elif status == 0:
        if unknown:
            run_.bad("ok", f"{what}: the selection or the configuration is wrong")
        elif failed:
            run_.bad("ok", f"{what}, although {failed} failed. Selected: {chosen}. Output: {text}")
        elif missing:
            run_.bad("ok", f"{what}, although {missing} were not started")
        elif not is_ok:
            run_.bad("message", f"{what}, but the output does not say that everything is OK: {text}")
    elif is_ok and not faulty:
        run_.bad("message", f"{what}, but the output says that everything is OK: {text}")
    elif not failed and not unclear and not faulty and not unknown:
        run_.bad("failure", f"{what}, although nothing failed: {chosen}. Output: {text}")
    ends = {tools[i]["child"]["what"] for i in selected}
    if not run_.violations and not sim.anomalies and not faulty and not unknown and not ends & {"undecodable", "undecodable_fail", "spawn"}:
        if missing:
            run_.bad("started", f"{what}: {missing} were not started")
        report(run_, selected, names, good, text, what)
    key = f"{'parallel' if scenario['parallel'] else 'sequential'}:exit{status}"
    run_.probes[key] = 1
    states = {hash_state({"x": f"{key} {chosen} {faulty}"})}
    return threads.complete(run_.outcome(states=states, nontrivial=status != 0 or bool(failed)))


def report(run_, selected, names, good, text, what):
    """The status of each tool is shown."""
    found = {}
    for line in text.splitlines():
        match = re.match(r"\[(OK|NOK)\] (\S+)", line)
        if match:
            name = "mypy" if match.group(2) == "dmypy" else match.group(2)
            found.setdefault(name, []).append(match.group(1))
    expected = {}
    for i in selected:
        expected.setdefault(names[i], []).append("OK" if good[i] else "NOK")
    if {k: sorted(v) for k, v in found.items()} != {k: sorted(v) for k, v in expected.items()}:
        run_.bad("report", f"{what}: shows {found}, and these were the results: {expected}. Output: {text}")
