"""Entry point of the checks.

    run.py C01                     check one property (VERIF_TIER, VERIF_SEED)
    run.py --replay FILE           execute a replay file again
    run.py --selftest [C01 ...]    prove that the simulations are deterministic
"""
from __future__ import annotations

import importlib
import json
import os
import pwd
import shutil
import subprocess
import sys
import tempfile
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
PYTHON = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
BUCKETS = 8


def scratch_dir():
    for base in ("/dev/shm", "/tmp"):
        try:
            usage = shutil.disk_usage(base)
            if usage.free < 300 << 20:
                continue
            folder = tempfile.mkdtemp(prefix="vsim-", dir=base)
            return folder
        except OSError:
            continue
    raise SystemExit("no scratch folder available")


class Scratch:
    def __enter__(self):
        self.path = scratch_dir()
        os.chmod(self.path, 0o755)
        source = os.path.join(self.path, "src")
        os.makedirs(source)

        def ignore(folder, names):
            skip = {n for n in names if n == "__pycache__" or n.endswith((".pyc", ".pyi"))}
            if os.path.basename(folder) == "generators" and "build" in names:
                skip.add("build")
            return skip

        shutil.copytree(os.path.join(REPO, "lazy_type_hint"), os.path.join(source, "lazy_type_hint"), ignore=ignore)
        for name in ("check_code.py", "check_code_args.yaml", "pyproject.toml"):
            if os.path.exists(os.path.join(REPO, name)):
                shutil.copy(os.path.join(REPO, name), source)
        shutil.copytree(HERE, os.path.join(self.path, "sim"), ignore=shutil.ignore_patterns("__pycache__"))
        self.user = None
        if os.getuid() == 0:
            try:
                nobody = pwd.getpwnam("nobody")
                probe = subprocess.run(["true"], user=nobody.pw_uid, group=nobody.pw_gid, extra_groups=[], check=False)
                if probe.returncode == 0:
                    self.user = nobody
            except (OSError, KeyError, subprocess.SubprocessError):
                self.user = None
        for folder, _, files in os.walk(self.path):
            os.chmod(folder, 0o755)
            for name in files:
                os.chmod(os.path.join(folder, name), 0o644)
        self.work = os.path.join(self.path, "work")
        os.makedirs(self.work)
        if self.user is not None:
            os.chown(self.work, self.user.pw_uid, self.user.pw_gid)
        self.setarch = []
        if shutil.which("setarch"):
            probe = subprocess.run(["setarch", "-R", "true"], check=False, capture_output=True)
            if probe.returncode == 0:
                self.setarch = ["setarch", "-R"]
        return self

    def __exit__(self, *args):
        assert "vsim-" in self.path
        shutil.rmtree(self.path, ignore_errors=True)

    def spawn(self, name, arguments, hashseed):
        out = os.path.join(self.work, f"{name}.json")
        env = {
            "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
            "HOME": self.work,
            "LC_ALL": "C.UTF-8",
            "PYTHONHASHSEED": str(hashseed),
            "PYTHONDONTWRITEBYTECODE": "1",
            "OPENBLAS_NUM_THREADS": "1",
            "OMP_NUM_THREADS": "1",
            "MKL_NUM_THREADS": "1",
        }
        command = [
            *self.setarch,
            PYTHON,
            "-B",
            os.path.join(self.path, "sim", "worker.py"),
            "--root",
            os.path.join(self.work, f"world-{name}"),
            "--source",
            os.path.join(self.path, "src"),
            "--out",
            out,
            *arguments,
        ]
        kwargs = {}
        if self.user is not None:
            kwargs = {"user": self.user.pw_uid, "group": self.user.pw_gid, "extra_groups": []}
        errors = open(os.path.join(self.work, f"{name}.err"), "wb")
        process = subprocess.Popen(
            command, env=env, cwd=self.work, stdin=subprocess.DEVNULL, stdout=errors, stderr=errors, start_new_session=True, **kwargs
        )
        return process, out, errors.name

    @staticmethod
    def collect(process, out, errors, timeout):
        try:
            process.wait(timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(process.pid, 9)
            except OSError:
                process.kill()
            process.wait()
            return {"error": "worker killed: time limit"}
        try:
            with open(out) as file:
                return json.load(file)
        except (OSError, ValueError):
            with open(errors, "rb") as file:
                tail = file.read()[-3000:].decode("utf-8", "replace")
            return {"error": f"worker ended with {process.returncode} and no result:\n{tail}"}


def hashseed_of(seed, bucket):
    return (seed * 1009 + bucket * 7 + 11) % 4_000_000_000


def known_findings(prop):
    """Kinds of violations of the property that are recorded as known findings."""
    dct = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as file:
            for line in file:
                if line.startswith("known: "):
                    fields = dict(f.split("=", 1) for f in line.split()[1:3])
                    if fields.get("property") == prop:
                        dct[fields["kind"]] = " ".join(line.split()[3:])
    return dct


def load_property(name):
    sys.path.insert(0, HERE)
    return importlib.import_module(f"props.{name.lower()}")


def replay_once(scratch, record, name, prop):
    path = os.path.join(scratch.work, f"{name}.replay.json")
    with open(path, "w") as file:
        json.dump(record, file)
    os.chmod(path, 0o644)
    process, out, errors = scratch.spawn(name, ["--prop", prop, "--replay", path, "--tier", record.get("tier", "quick"), "--seed", str(record.get("seed", 1))], record.get("hashseed") or 0)
    return scratch.collect(process, out, errors, 200)


def check(prop_id, tier, seed, *, cases=0):
    start = time.time()
    prop = load_property(prop_id)
    known = known_findings(prop_id)
    thorough = tier == "thorough"
    soft = float(os.environ.get("VERIF_SOFT_SECONDS", 620 if thorough else 240))
    with Scratch() as scratch:
        arguments = ["--prop", prop_id, "--tier", tier, "--seed", str(seed), "--buckets", str(BUCKETS), "--cases", str(cases), "--known", ",".join(known), "--soft-seconds", str(soft), "--shrink-seconds", "60" if thorough else "30"]
        workers = [
            scratch.spawn(f"b{bucket}", [*arguments, "--bucket", str(bucket)], hashseed_of(seed, bucket))
            for bucket in range(BUCKETS)
        ]
        deadline = time.time() + soft + 200
        results = [scratch.collect(*worker, max(5.0, deadline - time.time())) for worker in workers]
        errors = [r["error"] for r in results if r.get("error")]
        violations = [r["violation"] for r in results if r.get("violation")]
        verdict, report = None, None
        if violations:
            violations.sort(key=lambda v: (v["index"], v["kind"]))
            for number, record in enumerate(violations[:3]):
                record.update(seed=seed, tier=tier)
                for attempt in range(2):
                    again = replay_once(scratch, record, f"r{number}{attempt}", prop_id)
                    if any(v["kind"] == record["kind"] for v in again.get("violations", [])):
                        record["replay"] = "exact" if again["digest"] == record["digest"] else "same violation"
                        break
                    if attempt == 0 and record.get("full_scenario"):
                        record = dict(record, scenario=record["full_scenario"])
                        record.pop("full_scenario")
                else:
                    record["replay"] = "not reproduced in a new process"
                    continue
                report = record
                break
            if report is None and len(violations) >= 3:
                report = violations[0]  # Different cases fail, although not in isolation
            if report is None:
                errors.append("violation that cannot be reproduced: " + json.dumps(violations[0])[:3000])
        coverage, wall = merge(results, prop, seed, scratch, start, tier), time.time() - start
    done = sum(r.get("cases_done", 0) for r in results)
    planned = sum(r.get("cases", 0) for r in results)
    coverage["cases_planned"], coverage["cases_done"] = planned, done
    if report is not None:
        verdict = 1
    elif errors:
        verdict = 2
    elif done < planned * 0.2:
        verdict = 2
        errors.append(f"only {done} of {planned} cases could be executed in time")
    else:
        verdict = 0
    write_evidence(prop_id, prop, tier, seed, coverage, wall, verdict, report)
    for kind, text in known.items():
        hits = sum(r.get("known", {}).get(kind, [0])[0] for r in results)
        if hits or verdict == 0:
            print(f"KNOWN-FINDING: property={prop_id} {text} (observed in {hits} runs)")
    if verdict == 1:
        folder = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(folder, exist_ok=True)
        path = os.path.join(folder, f"{prop_id}-{seed}-{report['index']}-{report['kind']}.json".replace("/", "_"))
        report.pop("full_scenario", None)
        with open(path, "w") as file:
            json.dump(report, file, indent=1)
        print(f"{report['kind']}: {report['message']}")
        print(f"seed={seed} case={report['index']} replay: {report.get('replay')} (minimised with {report['shrink_runs']} runs)")
        for line in report["log"][-40:]:
            print("   ", line)
        print(f"VIOLATION property={prop_id} replay={path}")
    elif verdict == 2:
        for error in errors[:3]:
            print(f"ERROR of the check: {error}", file=sys.stderr)
    else:
        c = coverage
        print(
            f"OK property={prop_id} tier={tier} seed={seed}: {c['evaluations']} runs, {c['distinct_nontrivial']} distinct, "
            f"{sum(c['faults_injected'].values())} faults, {wall:.1f} s"
        )
    return verdict


def merge(results, prop, seed, scratch, start, tier):
    merged = {"fired": {}, "kinds": {}, "probes": {}}
    digests, states, inter, samples = set(), set(), set(), []
    runs = steps = switches = 0
    seconds = 0.0
    for result in results:
        stats = result.get("stats")
        if not stats:
            continue
        runs += stats["runs"]
        steps += stats["steps"]
        switches += stats["switches"]
        seconds += stats["seconds"]
        digests.update(stats["digests"])
        states.update(stats["states"])
        inter.update(stats["inter"])
        samples.extend(stats["samples"][:1])
        for name in merged:
            for key, value in stats[name].items():
                merged[name][key] = merged[name].get(key, 0) + value
    wall = max(time.time() - start, 0.001)
    coverage = {
        "evaluations": runs,
        "distinct_nontrivial": len(digests),
        "rule": prop.RULE,
        "samples": samples[:3],
        "simulated_runs_per_hour": int(runs / wall * 3600),
        "seeds": f"one master seed ({seed}); one derived seed per case",
        "simulated_seconds": round(seconds, 3),
        "faults_injected": {k: v for k, v in sorted(merged["fired"].items()) if not k.startswith(("child:run", "short_write_knob"))},
        "knobs": {k: v for k, v in merged["fired"].items() if k.startswith("short_write_knob")},
        "io_events": dict(sorted(merged["kinds"].items())),
        "probes": dict(sorted(merged["probes"].items())),
        "scheduler_steps": steps,
        "context_switches": switches,
        "interpreters": [f"PYTHONHASHSEED={hashseed_of(seed, b)}" for b in range(BUCKETS)],
        "real_components": getattr(prop, "REAL", "all modules of lazy_type_hint, PyYAML, pandas, numpy, CPython io/os/pathlib/shutil/tempfile over a tmpfs folder"),
        "stub_components": getattr(prop, "STUB", "thread scheduler and locks, clock, process identity, locale, identities/hashes, random names, fault injection in the file system calls"),
    }
    if states:
        coverage["distinct_states"] = len(states)
        coverage["state_measure"] = getattr(prop, "STATES", "distinct contents of the generated files at the end of an operation")
    if inter:
        coverage["distinct_interleavings"] = len(inter)
        coverage["interleaving_measure"] = "sequence of context switches (task and I/O event where it happens)"
    return coverage


def write_evidence(prop_id, prop, tier, seed, coverage, wall, verdict, report):
    folder = os.path.join(VERIF, "evidence")
    os.makedirs(folder, exist_ok=True)
    evidence = {
        "property": prop_id,
        "tier": tier,
        "seed": seed,
        "level": prop.LEVEL,
        "coverage": coverage,
        "wall_s": round(wall, 2),
    }
    path = os.path.join(folder, f"{prop_id}.json")
    with open(path + ".tmp", "w") as file:
        json.dump(evidence, file, indent=1)
    os.replace(path + ".tmp", path)


def replay(path):
    with open(path) as file:
        record = json.load(file)
    with Scratch() as scratch:
        again = replay_once(scratch, record, "replay", record["property"])
    if again.get("error"):
        print(again["error"], file=sys.stderr)
        return 2
    for line in again["log"]:
        print("   ", line)
    same = [v for v in again["violations"] if v["kind"] == record["kind"]]
    for violation in again["violations"]:
        print(f"{violation['kind']}: {violation['message']}")
    if same:
        print("exactly the same execution" if again["digest"] == record["digest"] else "same violation, different execution")
        print(f"VIOLATION property={record['property']} replay={path}")
        return 1
    print("the violation does not happen with this tree")
    return 0


def selftest(names, seed, cases):
    """Same cases in different interpreters, hash seeds and number of workers: the logs must be the same."""
    failed = 0
    for name in names:
        with Scratch() as scratch:
            runs = []
            for buckets, base in ((8, 11), (8, 501), (5, 90001)):
                arguments = ["--prop", name, "--tier", "quick", "--seed", str(seed), "--buckets", str(buckets), "--cases", str(cases), "--digests", "--known", ",".join(known_findings(name))]
                workers = [scratch.spawn(f"s{base}-{b}", [*arguments, "--bucket", str(b)], base + b) for b in range(buckets)]
                results = [scratch.collect(*worker, 600) for worker in workers]
                for result in results:
                    if result.get("error"):
                        print(name, result["error"])
                        failed += 1
                    if result.get("violation"):
                        print(name, "violation", result["violation"]["kind"], result["violation"]["message"][:500])
                        failed += 1
                runs.append(sorted((tuple(d) for r in results for d in r.get("run_digests", [])), key=repr))
            different = [sum(a != b for a, b in zip(runs[0], other)) + abs(len(runs[0]) - len(other)) for other in runs[1:]]
            print(f"{name}: {len(runs[0])} runs, different logs: {different}")
            failed += sum(different)
    return 1 if failed else 0


def main():
    arguments = sys.argv[1:]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    if arguments and arguments[0] == "--replay":
        sys.exit(replay(arguments[1]))
    if arguments and arguments[0] == "--selftest":
        names = arguments[1:] or sorted(n[:-3].upper() for n in os.listdir(os.path.join(HERE, 'props')) if n.startswith('c'))
        sys.exit(selftest(names, seed, int(os.environ.get("VERIF_CASES", "120"))))
    if arguments and arguments[0] in ("thorough", "quick"):
        tier = arguments.pop(0)
    cases = int(os.environ.get("VERIF_CASES", "0"))
    sys.exit(check(arguments[0].upper(), tier, seed, cases=cases))


if __name__ == "__main__":
    main()
