"""Requests answered by another interpreter, that has another hash seed."""
from __future__ import annotations

import json
import os
import subprocess
import sys

import core
import oracle
from core import World


class Peer:
    """Side of the worker."""

    def __init__(self, args, number=0):
        own = int(os.environ.get("PYTHONHASHSEED") or 0)
        env = dict(os.environ, PYTHONHASHSEED=str((own * 31 + 101 + number * 977) % 4_000_000_000))
        here = os.path.dirname(os.path.abspath(__file__))
        command = [
            sys.executable, "-B", os.path.join(here, "worker.py"), "--peer",
            "--root", f"{args.root}-peer{number}", "--source", args.source,
        ]  # fmt: skip
        self.process = core._real_Popen(
            command, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, encoding="utf-8"
        )
        self.ready = False

    def ask(self, request):
        assert core.cur() is None
        if not self.ready:
            self._answer()
            self.ready = True
        self.process.stdin.write(json.dumps(request) + "\n")
        self.process.stdin.flush()
        answer = json.loads(self._answer())
        if "error" in answer:
            raise core.HarnessError(answer["error"])
        return answer

    def _answer(self):
        line = self.process.stdout.readline()
        if not line:
            raise core.HarnessError("the other interpreter ended")
        return line


def pack(files):
    return {k: None if v is None else v.decode("utf-8", "surrogateescape") for k, v in files.items()}


def paths(files):
    """Generated files (see `oracle.generated_files`) -> paths relative to the root of the world."""
    gen = "pkg/lazy_type_hint/generators/"
    return {gen + ("lazy_type_hint_live.pyi" if k == "pyi" else k): v for k, v in files.items()}


def install_files(world, files):
    """Make the generated files be the given ones (as packed)."""
    import shutil

    if os.path.lexists(world.pyi):
        os.remove(world.pyi)
    if os.path.lexists(world.build):
        shutil.rmtree(world.build)
    for path, content in sorted(paths(files).items()):
        path = os.path.join(world.root, path)
        if content is None:
            os.makedirs(path, exist_ok=True)
        else:
            World.write(path, content)


def answer(bench, request):
    """Side of the other interpreter."""
    kind = request["kind"]
    if kind == "op":  # An operation of the live class in a new process, over the given files
        from runner import LiveRun

        op = request["op"]
        scenario = {"seed": request["seed"], "proc": request.get("proc", {}), "ops": [op], "files": paths(request["files"])}
        run = LiveRun(bench, scenario)
        run.cfg[str(op.get("inst", 0))] = request["cfg"]
        outcome = run.perform(op)
        run.sim.finish()
        name = type(outcome[1]).__name__ if outcome[0] == "raise" else ""
        text = str(outcome[1])[:300] if outcome[0] == "raise" else ""
        return {"outcome": [outcome[0], name, text], "files": pack(oracle.generated_files(bench.world))}
    if kind == "text":
        return {"text": bench.ref_data(request["strat"], request["cls"], request["data"])}
    if kind == "texts":
        return {"texts": [bench.ref_data(r["strat"], r["cls"], r["data"]) for r in request["requests"]]}
    if kind == "yaml":
        return {"text": bench.ref_yaml(request["strat"], request["cls"], request["text"], request["comments"])}
    raise core.HarnessError(kind)
