"""C12: the wrapper of Mypy never reports success for a failed run."""
import os

import core
from runner import LiveRun, Threads, scheduling

from props.c01 import hash_state

ID = "C12"
LEVEL = "exploration"
TECHNIQUE = "simulated child processes: every exit, death at any byte of the output, spawn error and mixture of reported errors"
NOTE = (
    "Seeded search. Mypy itself is a simulated process that writes its real formats. An error is ignored if it contains any of "
    "the given words."
)
RULE = (
    "seeded programs of 1-7 scans (strings and files, 0-3 threads, shared wrappers), each with a child process with 0-4 reported "
    "errors and one of 14 ways to end; 2 schedules for each; non-trivial: some child did not end well or reported errors. "
    "Distinct: different event log (includes the commands and verdicts)"
)
STATES = "distinct (way to end, words to ignore, verdict) combinations"
PARTS = [("pre",), ("tasks", "*"), ("post",), ("stalls",), ("schedule",)]

CODES = ["assignment", "arg-type", "return-value", "misc", "name-defined", "override", "list-item"]
MESSAGES = [
    'Incompatible types in assignment (expression has type "List[int]", variable has type "str")',
    'Argument 1 to "f" has incompatible type "Dict[str, Any]"; expected "int"',
    'Name "undefined" is not defined',
    "Overloaded function signatures 1 and 2 overlap with incompatible return types",
    'Missing type parameters for generic type "Dict[ñ]"',
    "invalid syntax",
    'Module "error" has no attribute "warning"',
    'Unused "type: ignore" comment',
]
WORDS = [*CODES, "Overloaded", "incompatible", "Name", "syntax", "zzz", "Module"]


def cases(tier):
    return 4000 if tier == "quick" else 120000


def make_error(rng, path, others):
    where = path if not others or rng.random() < 0.7 else rng.choice(others)
    return {"file": where, "line": rng.randrange(1, 300), "msg": rng.choice(MESSAGES), "code": rng.choice(CODES)}


def write(rng, errors, style):
    """What mypy writes for these errors."""
    lines = []
    for e in errors:
        column = f":{rng.randrange(1, 9)}" if style.get("columns") else ""
        code = f"  [{e['code']}]" if not style.get("no_codes") else ""
        lines.append(f"{e['file']}:{e['line']}{column}: error: {e['msg']}{code}")
        if style.get("notes") and rng.random() < 0.5:
            lines.append(f"{e['file']}:{e['line']}: note: See the documentation of the checker")
    if style.get("summary", True):
        n_files = len({e["file"] for e in errors})
        if errors:
            lines.append(f"Found {len(errors)} error{'s' * (len(errors) > 1)} in {n_files} file{'s' * (n_files > 1)} (checked 1 source file)")
        else:
            lines.append("Success: no issues found in 1 source file")
    return style.get("newline", "\n").join(lines) + "\n" if lines else ""


ENDS = (
    ["normal"] * 8
    + ["killed"] * 3
    + ["crash", "crash_silent", "stderr", "spawn", "no_errors_1", "config", "undecodable", "stdout_crash"]
)
SIGNALS = [-9, -11, -15, -6, -13, -1, 130, 137, 139, 141, -2]


def scenarios(bench, rng, tier, index):
    number = 0
    children = []
    enc = rng.choice(["utf-8", "utf-8", "ascii", "cp1252"])  # Of the process and the ones it starts

    def op():
        nonlocal number
        number += 1
        what = rng.choice(["scan_string", "scan_file"])
        token = f"token{number}x"
        if what == "scan_string":
            path, target = "<string>", f"# {token}\nx: int = {rng.choice(['1', chr(241), 'error: 1', '[]'])}\n"
        else:
            name = rng.choice([f"{token}.py", f"{token}_{'ñ' if enc == 'utf-8' else 'n'}.py", f"{token} b.py"])
            target = f"user/{rng.choice(['', 'sub/'])}{name}"
            path = rng.choice([name, f"sub/{name}", f"/abs/{name}"])
        others = ["other_module.py", "lib/stub.pyi"] if what == "scan_file" else []
        errors = [make_error(rng, path, others) for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 4]))]
        words = rng.sample(WORDS, rng.choice([0, 0, 1, 1, 2, 3]))
        if errors and rng.random() < 0.5:  # All of them are ignored
            words = sorted({e["code"] for e in errors})[:3]
            errors = [e for e in errors if e["code"] in words]
            if rng.random() < 0.2 and errors:
                errors.append(make_error(rng, path, others))
        style = {k: True for k in ("columns", "no_codes", "notes") if rng.random() < 0.2}
        if rng.random() < 0.15:
            style["summary"] = False
        end = rng.choice(ENDS)
        out = write(rng, errors, style).encode(enc, "backslashreplace")
        child = {"match": token, "always": True, "what": end, "code": 1 if errors else 0, "seconds": rng.choice([0.1, 2, 30])}
        err = b""
        clean = not errors
        if end == "killed":
            out = out[: rng.randrange(len(out) + 1)] if out else out
            child["code"] = rng.choice(SIGNALS)
        elif end == "crash":
            child["code"] = rng.choice([1, 2, 3, 255])
            out = out[: rng.randrange(len(out) + 1)]
            err = b"Traceback (most recent call last):\n  ...\nRuntimeError: INTERNAL ERROR\n"
        elif end == "crash_silent":
            child["code"] = rng.choice([2, 3, 127, 255])
            out = rng.choice([b"", out])
        elif end == "stderr":
            err = rng.choice([b"mypy: can't read file 'x.py': No such file or directory\n", b"warning: deprecated\n", b"Warning: unused section(s) in pyproject.toml\n", b"DeprecationWarning: old\n", b" ", b"\n", "año\n".encode(enc, "replace")])
        elif end == "spawn":
            child["spawn_error"] = rng.choice(["FileNotFoundError", "PermissionError", "ENOMEM", "EMFILE", "EAGAIN"])
        elif end == "no_errors_1":
            child["code"], errors = 1, []
            out = rng.choice([b"", b"Found 1 error in 1 file\n", b"x.py:1: note: nothing\n", b"poetry could not find mypy\n"])
        elif end == "config":
            child["code"] = 2
            out = b"pyproject.toml: [mypy]: Unrecognized option: stritc = True\n" + out
        elif end == "undecodable":
            out = out + b"\xff\xfe\xe9\x81 \n"
            clean = False
        elif end == "stdout_crash":
            child["code"] = 2
            out = out + b"x.py:1: error: INTERNAL ERROR -- Please try using mypy master on GitHub  [misc]\n"
        if not clean and rng.random() < 0.2:  # Takes long: It cannot be considered good without waiting
            child["seconds"] = rng.choice([700, 4000, 100000])
        child.update(stdout=out.hex(), stderr=err.hex())
        children.append(child)
        dct = {"id": number, "op": what, "target": target, "wrapper": rng.randrange(2), "end": end}
        if rng.random() < 0.4:
            dct["strict"] = True
        if rng.random() < 0.4:
            dct["python_version"] = rng.choice(["3.9", "3.12"])
        if words or rng.random() < 0.3:
            dct["ignore"] = words
            dct["as"] = rng.choice(["tuple", "list", "set", "iter", "dict"])
        if what == "scan_file" and rng.random() < 0.5:
            dct["pathlib"] = True
        ended = end in ("normal", "undecodable")
        relevant = [e for e in errors if what == "scan_string" or os.path.basename(target) in e["file"]]
        not_ignored = [e for e in relevant if not any(w in f"{e['msg']} [{e['code']}]" for w in words)]
        if not ended or not_ignored:
            dct["must"] = "fail"
        elif end == "normal" and not style.get("no_codes"):
            dct["must"] = "succeed"
        return dct

    pre = [op() for _ in range(rng.randrange(1, 4))]
    tasks = [[op() for _ in range(rng.randrange(1, 3))] for _ in range(rng.choice([0, 0, 2, 3]))]
    post = [op() for _ in range(rng.randrange(2))]
    scenario = {
        "seed": rng.randrange(1 << 30),
        "proc": {"salt": rng.randrange(99), "enc": enc},
        "pre": pre,
        "tasks": tasks,
        "post": post,
        "children": children,
        "files": {o["target"]: "x = 'ñ'\n" for o in [*pre, *(o for ops in tasks for o in ops), *post] if o["op"] == "scan_file"},
    }
    for _ in range(2 if tasks else 1):
        yield {**scenario, **scheduling(rng, tasks)}


def run(bench, scenario):
    run_ = LiveRun(bench, scenario)
    run_.sim.children = [dict(c) for c in scenario["children"]]
    with run_.image:
        mypy = run_.image.module("lazy_type_hint.utils.mypy")
    wrappers = {}
    states = set()
    interesting = 0
    threads = None

    def action(op):
        if op["wrapper"] not in wrappers:
            wrappers[op["wrapper"]] = mypy.Mypy()
        wrapper = wrappers[op["wrapper"]]
        kwargs = {k: op[k] for k in ("strict", "python_version") if k in op}
        if "ignore" in op:
            make = {"tuple": tuple, "list": list, "set": set, "iter": iter, "dict": dict.fromkeys}[op["as"]]
            kwargs["ignore_errors"] = make(op["ignore"])
        target = op["target"]
        if op["op"] == "scan_file":
            target = os.path.join(run_.world.root, target)
            if op.get("pathlib"):
                from pathlib import Path

                target = Path(target)
        return lambda: getattr(wrapper, op["op"])(target, **kwargs)

    def verify(op, outcome):
        nonlocal interesting
        if run_.violations:
            return
        success = outcome[0] == "ok" and bool(outcome[1].success)
        key = f"{'raise' if outcome[0] == 'raise' else 'success' if success else 'failure'}:{op['end']}"
        run_.probes[key] = run_.probes.get(key, 0) + 1
        interesting += op["end"] != "normal" or op.get("must") == "fail"
        states.add(hash_state({"x": f"{key} {sorted(op.get('ignore', []))}"}))
        run_.sim.note("verdict", f"{op['id']} {key}")
        if success and op.get("must") == "fail":
            run_.bad("success", f"{run_.show(op)} reports success. Child: {child_of(op)}", op)
        elif op.get("must") == "succeed" and not success:
            what = run_.describe_outcome(outcome) if outcome[0] == "raise" else outcome[1]
            run_.bad("failure", f"{run_.show(op)} reports {str(what)[:500]}. Child: {child_of(op)}", op)
        elif success and not any(matches(op, c["command"]) for c in run_.sim.spawned):
            run_.bad("command", f"{run_.show(op)} reports success but these commands were executed: {run_.sim.spawned}", op)
        elif outcome[0] == "ok" and not success:
            try:
                text = str(outcome[1])
            except Exception as error:  # noqa: BLE001
                run_.bad("describe", f"{run_.show(op)}: the result cannot be shown: {error!r}", op)
                return
            if text == "No errors":
                run_.bad("describe", f"{run_.show(op)}: the result is shown as {text!r}", op)

    def child_of(op):
        child = scenario["children"][op["id"] - 1]
        return {k: bytes.fromhex(v).decode("utf-8", "replace")[:600] if k in ("stdout", "stderr") else v for k, v in child.items()}

    def matches(op, command):
        """The command checks what was asked for."""
        if not isinstance(command, list):
            return True  # Through a shell: not looked into
        if op["op"] == "scan_file":
            path = os.path.join(run_.world.root, op["target"])
            if not any(os.path.join(run_.world.user, c) == path for c in command):
                return False
        elif op["target"] not in command:
            return False
        version = op.get("python_version", "3.8")
        return ("--strict" in command) == bool(op.get("strict")) and (
            version in command or any(c.endswith(f"={version}") for c in command)
        )

    try:
        for op in [*scenario["pre"], None, *scenario["post"]]:
            if op is None:
                if not scenario["tasks"]:
                    continue
                threads = Threads(run_, scenario)
                history = threads.execute(scenario["tasks"], action)
                if run_.sim.anomalies:
                    break
                for record in history:
                    verify(record["op"], record["outcome"])
            else:
                with run_.image:
                    verify(op, run_.sim.op(op["id"], action(op)))
            if run_.violations:
                break
    except core.SimAbort:
        pass
    out = run_.outcome(states=states, nontrivial=interesting > 0)
    return threads.complete(out) if threads else out
