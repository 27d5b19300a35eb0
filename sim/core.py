"""Deterministic simulator: seams, faults, tasks, scheduler.

Everything in this module works inside one process. The code under test is only seen by the seams while a simulated
task is running in the current thread (`_tls.task`); any other code of the process is not affected.

One scenario (plain JSON) decides every choice: operations, faults, schedule, identities, locale and names. Running
the same scenario again gives the same log.
"""
from __future__ import annotations

import _thread
import builtins
import collections
import concurrent.futures.thread
import dis
import errno
import functools
import hashlib
import io
import itertools
import locale as _locale
import multiprocessing
import opcode
import os
import queue
import random
import re
import shutil
import stat as _stat
import subprocess
import sys
import tempfile
import threading
import time
import uuid

# Real primitives, captured before any seam is installed
_real_allocate = _thread.allocate_lock
_real_Lock = threading.Lock
_real_RLock = threading.RLock
_real_Thread_start = threading.Thread.start
_real_Thread_join = threading.Thread.join
_real_Thread_is_alive = threading.Thread.is_alive
_real_SimpleQueue = queue.SimpleQueue
_real_open = io.open
_real = {
    name: getattr(os, name)
    for name in (
        "open close read write pread pwrite writev readv replace rename remove unlink mkdir rmdir link symlink "
        "truncate ftruncate chmod fchmod chown fchown lchown utime scandir listdir stat lstat fstat access mkfifo "
        "mknod sendfile copy_file_range posix_fallocate fsync fdatasync setxattr removexattr readlink system fork "
        "kill killpg getpid urandom memfd_create statvfs popen posix_spawn execv execve cpu_count"
    ).split()
    if hasattr(os, name)
}
_real_time = {
    n: getattr(time, n) for n in ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "sleep")
}
_real_Popen = subprocess.Popen
_real_getpreferredencoding = _locale.getpreferredencoding
_real_getencoding = getattr(_locale, "getencoding", None)
_real_sleep = time.sleep

_tls = threading.local()


class SimCrash(BaseException):
    """The simulated process was killed: the code of that incarnation does not run any more."""


class SimAbort(BaseException):
    """The run was abandoned by the simulator (deadlock, too many steps)."""


class HarnessError(Exception):
    """Something is wrong in the simulator, not in the code under test."""


def cur():
    return getattr(_tls, "task", None)


# ------------------------------------------------------------------------------------------------------------------
# Incarnations (simulated processes)


class Incarnation:
    def __init__(self, sim, number, *, salt, encoding):
        self.sim = sim
        self.number = number
        self.pid = 4000 + 13 * number if not sim.same_pid else 1  # Containers: always the same one
        self.salt = salt
        self.encoding = encoding
        self.dead = False
        self.image = None
        self.ids = IdTable(salt)

    def die(self):
        self.dead = True
        if self.sim.sched is not None:  # Nobody waits any more
            for task in self.sim.sched.tasks:
                if task.inc is self and task.state in ("blocked", "sleep"):
                    task.state = "ready"


class IdTable:
    """Replacement of `id`: deterministic, and as adversarial as the language allows.

    The identity of an object that nobody refers to any more is given to the next new object.
    """

    def __init__(self, salt):
        self.salt = salt
        self.rng = random.Random(salt * 7919 + 17)
        self.by_addr = {}
        self.types = {}
        self.busy = False

    def get(self, obj):
        if isinstance(obj, type):
            try:
                return self.types[obj]
            except KeyError:
                name = f"{obj.__module__}.{obj.__qualname__}.{len(self.types) if obj.__module__ != 'builtins' else 0}"
                digest = hashlib.blake2b(f"{self.salt}:{name}".encode(), digest_size=6).digest()
                value = 1 << 50 | int.from_bytes(digest, "big") << 4
                while value in self.types.values():
                    value += 16
                self.types[obj] = value
                return value
        addr = id(obj)
        entry = self.by_addr.get(addr)
        if entry is not None:
            return entry[1]
        reused = None
        # References to a dead object: `entry` (list) and the argument of getrefcount
        for addr_, entry_ in list(self.by_addr.items()):
            if sys.getrefcount(entry_[0]) <= 2:
                reused = entry_[1]
                del self.by_addr[addr_]
                break
        value = reused if reused is not None else 0x7F0000000000 | self.rng.getrandbits(36) << 4
        self.by_addr[addr] = [obj, value]
        return value

    def hash(self, obj):
        cls = type(obj)
        if isinstance(obj, type) and cls.__hash__ is type.__hash__:
            return self.get(obj) >> 4
        if cls.__hash__ is object.__hash__:
            return self.get(obj) >> 4
        value = hash(obj)
        if isinstance(obj, (int, str, bytes, float, type(None))):
            return value
        # Not a scalar: Any value is as good as any other one, as long as equal objects have the same one
        value = (value ^ (self.salt * 0x9E3779B97F4A7C15)) & 0x1FFFFFFFFFFFFFFF
        return value


# ------------------------------------------------------------------------------------------------------------------
# World


class World:
    """Folders of one worker that every simulated process can see."""

    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.pkg = os.path.join(self.root, "pkg")
        self.tmp = os.path.join(self.root, "tmp")
        self.user = os.path.join(self.root, "user")
        self.pkgdir = os.path.join(self.pkg, "lazy_type_hint")
        self.gen = os.path.join(self.pkgdir, "generators")
        self.build = os.path.join(self.gen, "build")
        self.pyi = os.path.join(self.gen, "lazy_type_hint_live.pyi")
        self.pristine = None

    def inside(self, path):
        return path == self.root or path.startswith(self.root + "/")

    def label(self, path):
        if path.startswith(self.root):
            path = path[len(self.root) + 1 :]
        path = path.replace("pkg/lazy_type_hint/generators", "GEN")
        return re.sub(r"\d{3,}", "#", path)

    @staticmethod
    def tree(folder):
        """Path -> bytes of every file (None in folders)."""
        dct = {}
        stack = [folder]
        while stack:
            current = stack.pop()
            with _real["scandir"](current) as it:
                entries = list(it)
            for entry in entries:
                if entry.is_symlink():
                    dct[entry.path] = b"-> " + os.fsencode(os.readlink(entry.path))
                elif entry.is_dir(follow_symlinks=False):
                    dct[entry.path] = None
                    stack.append(entry.path)
                else:
                    try:
                        fd = _real["open"](entry.path, os.O_RDONLY)
                    except OSError as error:
                        dct[entry.path] = repr(error.errno).encode()
                        continue
                    try:
                        content = b""
                        while True:
                            chunk = _real["read"](fd, 1 << 20)
                            if not chunk:
                                break
                            content += chunk
                        dct[entry.path] = content
                    finally:
                        _real["close"](fd)
        return dct

    @staticmethod
    def write(path, content):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if isinstance(content, str):
            content = content.encode("utf-8", "surrogateescape")
        fd = _real["open"](path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
        try:
            view = memoryview(content)
            while view:
                view = view[_real["write"](fd, view) :]
        finally:
            _real["close"](fd)

    @staticmethod
    def read(path):
        try:
            fd = _real["open"](path, os.O_RDONLY)
        except OSError:
            return None
        try:
            content = b""
            while True:
                chunk = _real["read"](fd, 1 << 20)
                if not chunk:
                    return content
                content += chunk
        finally:
            _real["close"](fd)

    def restore(self, contents=None):
        """Bring the folders to its initial state: package as installed, nothing generated and the sentinels."""
        target = dict(self.pristine)
        for path, content in (contents or {}).items():
            target[path] = content
            while (path := os.path.dirname(path)) not in target and path != self.root:
                target[path] = None
        current = self.tree(self.root)
        for path in sorted(current, reverse=True):  # Children first
            is_dir = current[path] is None
            if path not in target or (target[path] is None) != is_dir:
                if is_dir:
                    _real["rmdir"](path)
                else:
                    _real["unlink"](path)
        for path in sorted(target):
            if target[path] is None:
                if current.get(path, b"") is not None or path not in current:
                    os.makedirs(path, exist_ok=True)
            elif current.get(path) != target[path]:
                self.write(path, target[path])


# ------------------------------------------------------------------------------------------------------------------
# Simulation (one run)

ERRNOS = {
    "ENOSPC": errno.ENOSPC,
    "EIO": errno.EIO,
    "EACCES": errno.EACCES,
    "EPERM": errno.EPERM,
    "EMFILE": errno.EMFILE,
    "ENFILE": errno.ENFILE,
    "EROFS": errno.EROFS,
    "EDQUOT": errno.EDQUOT,
    "ENOMEM": errno.ENOMEM,
    "EBUSY": errno.EBUSY,
    "ESTALE": errno.ESTALE,
    "ENOENT": errno.ENOENT,
}


class Sim:
    MAX_STEPS = 1_000_000
    MAX_LINES = 2_000_000

    def __init__(self, world, *, seed=0, faults=(), max_write=None):
        self.world = world
        self.seed = seed
        self.rng = random.Random(f"sim:{seed}")  # Names, latencies, listing order
        self.faults = {}
        for fault in faults:
            self.faults.setdefault(fault["op"], []).append(dict(fault))
        self.fired = collections.Counter()
        self.injected = []
        self.kinds = collections.Counter()
        self.clock = 1_700_000_000.0
        self.start_clock = self.clock
        self.log = []
        self.events = {}  # op -> list of (kind, label, mut)
        self.lines = collections.Counter()  # op -> number of package lines
        self.escapes = []
        self.touched = set()  # Absolute paths mutated by the code under test
        self.observer = None
        self.observing = False
        self.inc = None
        self.n_inc = 0
        self.step = 0
        self.sched = None
        self.done = False
        self.max_write = max_write
        self.stalls = {}  # (op, event) -> seconds that the system needs for it. Negative: the clock is set back
        self.same_pid = False
        self.cpus = 4
        self.fds = {}
        self.children = []  # Behaviour of the child processes, in order
        self.spawned = []
        self.trace_lines = False
        self.locations = None  # op -> {place of the code: first line event there}
        self.names = itertools.count()
        self.anomalies = []
        self.states = set()

    # -- incarnations
    def boot(self, *, salt=0, encoding="utf-8", image_factory=None):
        self.n_inc += 1
        self.inc = Incarnation(self, self.n_inc, salt=salt, encoding=encoding)
        self.note("boot", f"{salt} {encoding}")
        if image_factory is not None:
            self.inc.image = image_factory(self.inc)
        return self.inc

    # -- log
    def note(self, kind, text=""):
        self.log.append(f"{kind} {text}")

    def digest(self):
        return hashlib.blake2b("\n".join(self.log).encode("utf-8", "backslashreplace"), digest_size=12).hexdigest()

    # -- faults
    def pick_fault(self, op, k, kind, line=None):
        faults = self.faults.get(op)
        if not faults:
            return None
        for fault in faults:
            if line is not None:
                if fault.get("line", line + 1) <= line and not fault.get("spent"):
                    fault["spent"] = True
                    return fault
                continue
            if "k" not in fault:
                continue
            if fault.get("sticky"):
                if k >= fault["k"] and (not fault.get("only") or kind in fault["only"]):
                    return fault
            elif fault["k"] == k and not fault.get("spent"):
                fault["spent"] = True
                return fault
        return None

    # -- running operations in the current thread
    def op(self, op_id, fn, *, inc=None, record=True):
        """Run `fn` as operation `op_id` of a single threaded simulated process. Returns ("ok"|"raise"|"crash", x)."""
        inc = inc or self.inc
        task = cur()
        own = task is None
        if own:
            task = Task(self, 0, inc)
            _tls.task = task
        task.op, task.k, task.line = op_id, 0, 0
        self.note("op", str(op_id))
        tracing = self.trace_lines
        if tracing:
            sys.settrace(task.tracer)
        try:
            try:
                value = fn()
                outcome = ("ok", value)
            except SimCrash:
                outcome = ("crash", None)
            except SimAbort:
                raise
            except BaseException as error:  # noqa: BLE001
                outcome = ("raise", error)
                if not isinstance(error, (Exception, KeyboardInterrupt)):
                    if isinstance(error, (SystemExit, GeneratorExit)):
                        pass
                    else:
                        raise
            finally:
                if tracing:
                    sys.settrace(None)
        finally:
            self.lines[op_id] += task.line
            task.op = None
            if own:
                _tls.task = None
        if inc.dead:
            outcome = ("crash", None)
        self.note(
            "ret",
            f"{op_id} {outcome[0]} {type(outcome[1]).__name__ if outcome[0] == 'raise' else ''}",
        )
        return outcome

    def finish(self):
        self.done = True
        for fd, path in list(self.fds.items()):
            try:
                if os.readlink(f"/proc/self/fd/{fd}") in (path, path + " (deleted)"):
                    _real["close"](fd)
            except OSError:
                pass
        self.fds.clear()

    def simulated_seconds(self):
        return self.clock - self.start_clock


def _nothing_raises(frame):
    """Nothing can be raised before the next thing that the frame does.

    The interpreter handles signals at calls and at jumps backwards, and allocates for neither of these:
     - the call to `__exit__` of a `with` block, after the end of the block
     - the `NOP` of a `try:` line (no entry of the exception table covers it)
     - the `release` of a lock that starts a `finally` block
    """
    code, i = frame.f_code.co_code, frame.f_lasti
    if i < 0:
        return False
    names = [opcode.opname[code[j]] for j in range(i, min(i + 10, len(code)), 2)]
    if names[:1] == ["NOP"]:
        return True
    if (names[:3] == ["LOAD_CONST"] * 3 and "CALL" in names[3:5]) or "WITH_EXCEPT_START" in names[:2]:
        return True
    return _releases(frame.f_code, i)


@functools.lru_cache(maxsize=None)
def _releases(code, offset):
    for instruction in dis.get_instructions(code):
        if instruction.offset < offset:
            continue
        if instruction.opname in ("LOAD_ATTR", "LOAD_METHOD"):
            if instruction.argval in ("release", "__exit__"):
                return True
        elif not instruction.opname.startswith(("LOAD_", "PUSH_EXC_INFO", "PUSH_NULL", "NOP")):
            return False
    return False


class Task:
    def __init__(self, sim, number, inc):
        self.sim = sim
        self.number = number
        self.inc = inc
        self.op = None
        self.k = 0
        self.line = 0
        self.state = "ready"
        self.waiting = None
        self.gate = None
        self.sleep_until = None
        self.ident = None

    def tracer(self, frame, event, arg):
        code = frame.f_code
        if code.co_filename.startswith(self.sim.world.pkg) and code.co_name != "<module>":
            return self.local_tracer
        return None

    def local_tracer(self, frame, event, arg):
        if event == "line":
            sim = self.sim
            if sim.observing or cur() is not self:
                return self.local_tracer
            self.line += 1
            if sim.locations is not None:
                where = (frame.f_code.co_filename, frame.f_lineno)
                sim.locations.setdefault(self.op, {}).setdefault(where, self.line)
            if self.inc.dead:
                raise SimCrash()
            if sim.sched is not None:
                sim.sched.yield_point(self, "line")
                if self.inc.dead:
                    raise SimCrash()
            elif self.line > sim.MAX_LINES:
                sim.anomalies.append(("hang", f"op {self.op}: more than {sim.MAX_LINES} lines executed"))
                raise SimAbort("too many lines")
            if self.op in sim.faults and not _nothing_raises(frame):
                fault = sim.pick_fault(self.op, None, "line", line=self.line)
                if fault is not None:
                    where = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}"
                    sim.fired[f"{fault['kind']}@line"] += 1
                    sim.injected.append({"op": self.op, "kind": fault["kind"], "event": "line", "path": where})
                    sim.note("fault", f"{fault['kind']} line {self.line} {where}")
                    if fault["kind"] == "intr":
                        raise KeyboardInterrupt("injected")
                    if fault["kind"] == "mem":
                        raise MemoryError("injected")
                    if fault["kind"] == "crash":
                        self.inc.die()
                        raise SimCrash()
        return self.local_tracer


# ------------------------------------------------------------------------------------------------------------------
# Seams: file system


def _abspath(path, dir_fd=None):
    if isinstance(path, int):
        try:
            return _real["readlink"](f"/proc/self/fd/{path}")
        except OSError:
            return f"fd:{path}"
    path = os.fspath(path)
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if not os.path.isabs(path):
        if dir_fd is not None:
            base = _real["readlink"](f"/proc/self/fd/{dir_fd}")
        else:
            base = os.getcwd()
        path = os.path.join(base, path)
    path = os.path.normpath(path)
    return path


def _resolve(path):
    """Absolute path where the effect lands: Links in the parent folders are followed."""
    head, tail = os.path.split(path)
    if not tail:
        return path
    resolved = _resolved.get(head)
    if resolved is None:
        task = cur()
        _tls.task = None  # The system calls of the simulator are not events
        try:
            resolved = os.path.realpath(head)
        except OSError:
            return path
        finally:
            _tls.task = task
        _resolved[head] = resolved
    return os.path.join(resolved, tail)


_resolved = {}  # Folder -> real folder. Forgotten when a link might have changed


_ALLOWED_OUTSIDE = ("/dev/null", "/dev/tty", "/dev/stdout", "/dev/stderr")


def _raise_fault(fault, path):
    kind = fault["kind"]
    if kind == "intr" or kind == "intr_after":
        raise KeyboardInterrupt("injected")
    if kind == "mem":
        raise MemoryError("injected")
    code = ERRNOS[fault.get("errno", "EIO")]
    raise OSError(code, os.strerror(code), path)


def io_event(task, kind, path, mut, real, *, path2=None, fault_ok=True, crash_ok=True):
    """Run `real` as one I/O event of the simulated process. Faults are injected here."""
    sim = task.sim
    inc = task.inc
    world = sim.world
    if sim.observing:
        return real()
    if inc.dead:
        raise SimCrash()
    inside = world.inside(path) and (path2 is None or world.inside(path2))
    if not inside:
        outside = [p for p in (path, path2) if p is not None and not world.inside(p)]
        if mut and not all(p in _ALLOWED_OUTSIDE or p.startswith(("pipe:", "fd:", "socket:")) for p in outside):
            sim.escapes.append((kind, outside[0]))
            sim.note("escape", f"{kind} {outside[0]}")
            raise PermissionError(errno.EACCES, "the simulator does not allow this", outside[0])
        return real()  # Not part of the simulated world (stdlib sources, /dev/null)
    if sim.sched is not None:
        sim.sched.yield_point(task, "io")
        if inc.dead:
            raise SimCrash()
    task.k += 1
    if sim.stalls:
        _stall(task, sim)
    label = world.label(path) if path2 is None else f"{world.label(path)} -> {world.label(path2)}"
    sim.events.setdefault(task.op, []).append((kind, label, mut))
    sim.kinds[kind] += 1
    sim.clock += 0.0001 * (1 + sim.rng.randrange(40))
    fault = sim.pick_fault(task.op, task.k, kind) if task.op in sim.faults else None
    if fault is not None and fault["kind"] in ("err", "intr", "mem", "intr_after") and not fault_ok:
        fault = None
    if fault is not None and fault["kind"] in ("short", "torn", "short_err") and kind != "write":
        fault = dict(fault, kind={"short": "none", "torn": "crash", "short_err": "err"}[fault["kind"]])
        if fault["kind"] == "none" or (fault["kind"] == "err" and not fault_ok):
            fault = None
    sim.note("io", f"t{task.number} {task.op}.{task.k} {kind} {label}" + (f" !{fault['kind']}" if fault else ""))
    if fault is not None:
        fk = fault["kind"]
        sim.fired[f"{fk}:{fault['errno']}@{kind}" if "errno" in fault and fk in ("err", "short_err") else f"{fk}@{kind}"] += 1
        sim.injected.append({"op": task.op, "kind": fk, "event": kind, "path": path})
        if fk == "crash":
            inc.die()
            raise SimCrash()
        if fk == "crash_after":
            if mut:
                sim.touched.add(path)
                if path2:
                    sim.touched.add(path2)
            try:
                real()
            finally:
                inc.die()
                _observe(sim)
            raise SimCrash()
        if fk == "mkdir":  # Done by somebody else
            sim.observing = True
            try:
                os.makedirs(os.path.join(world.root, fault["path"]), exist_ok=True)
            finally:
                sim.observing = False
        if fk in ("err", "mem", "intr"):
            _raise_fault(fault, path)
        if fk == "intr_after":
            real()
            if mut:
                sim.touched.add(path)
                _observe(sim)
            _raise_fault(fault, path)
        if fk in ("torn", "short", "short_err"):
            return ("partial", fault)
    if mut:
        sim.touched.add(path)
        if path2 is not None:
            sim.touched.add(path2)
    result = real()
    if mut:
        _observe(sim)
    return result


def _stall(task, sim):
    """The system takes long for this event: All other threads, and the timers, go on meanwhile."""
    seconds = sim.stalls.get((task.op, task.k))
    if seconds is None:
        return
    sim.fired["stall" if seconds > 0 else "clock_back"] += 1
    sim.note("stall", f"t{task.number} {task.op}.{task.k} {seconds}")
    if seconds < 0 or sim.sched is None:
        sim.clock += seconds
    else:
        sim.sched.sleep(task, seconds)
        if task.inc.dead:
            raise SimCrash()


def _observe(sim):
    if sim.observer is not None and not sim.observing:
        sim.observing = True
        try:
            sim.observer()
        finally:
            sim.observing = False


def _write_event(task, path, data, write):
    """One write: can be short, torn or fail after being partially done. `write(bytes)` is the real thing."""
    sim = task.sim
    view = memoryview(data).cast("B")
    limit = len(view)
    if sim.max_write and limit > sim.max_write:
        limit = sim.max_write
        sim.fired["short_write_knob"] += 1
    result = io_event(task, "write", path, True, lambda: write(view[:limit]))
    if isinstance(result, tuple) and result and result[0] == "partial":
        fault = result[1]
        amount = min(int(len(view) * fault.get("frac", 0.5)), max(len(view) - 1, 0))
        if fault["kind"] == "short":
            amount = max(1, amount)
        sim.touched.add(path)
        written = write(view[:amount]) if amount else 0
        if fault["kind"] == "torn":
            task.inc.die()
            _observe(sim)
            raise SimCrash()
        _observe(sim)
        if fault["kind"] == "short_err":
            _raise_fault(fault, path)
        return written
    return result


class SimFileIO(io.FileIO):
    def __init__(self, file, mode, closefd, opener, task):
        self._task = task
        self._mut = any(c in mode for c in "wax+")
        self._ready = False
        super().__init__(file, mode, closefd, opener)
        self._path = _resolve(_abspath(self.fileno()))
        self._ready = True

    def _active(self):
        task = cur()
        if task is None or task.sim is not self._task.sim:
            return None
        return task

    def _gone(self):
        return self._task.inc.dead or self._task.sim.done

    def readinto(self, buffer):
        task = self._active()
        if task is None:
            return super().readinto(buffer)
        parent = super()
        return io_event(task, "read", self._path, False, lambda: parent.readinto(buffer))

    def readall(self):
        task = self._active()
        if task is None:
            return super().readall()
        parent = super()
        return io_event(task, "read", self._path, False, lambda: parent.readall())

    def read(self, size=-1):
        task = self._active()
        if task is None:
            return super().read(size)
        parent = super()
        return io_event(task, "read", self._path, False, lambda: parent.read(size))

    def write(self, data):
        if self._gone():
            return memoryview(data).nbytes
        task = self._active()
        if task is None:
            return super().write(data)
        return _write_event(task, self._path, data, super().write)

    def truncate(self, size=None):
        if self._gone():
            return 0
        task = self._active()
        if task is None:
            return super().truncate(size)
        parent = super()
        return io_event(task, "truncate", self._path, True, lambda: parent.truncate(size))

    def close(self):
        if self.closed or not getattr(self, "_ready", False):
            return super().close()
        fd = self.fileno()
        task = self._active()
        try:
            if self._mut and task is not None and not self._gone():
                io_event(task, "close", self._path, False, lambda: None)
        finally:
            self._task.sim.fds.pop(fd, None)
            super().close()


def sim_open(
    file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None
):
    task = cur()
    if task is None or task.sim.observing:
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not isinstance(file, int):
        file = os.fspath(file)
    if not isinstance(mode, str):
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    path = _resolve(_abspath(file))
    mut = any(c in mode for c in "wax+")
    if not task.sim.world.inside(path) and (not mut or path in _ALLOWED_OUTSIDE):
        if "b" not in mode and encoding in (None, "locale"):
            encoding = task.inc.encoding
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    modes = set(mode)
    text = "b" not in modes
    if (
        modes - set("axrwb+t")
        or len(mode) > len(modes)
        or sum(c in modes for c in "rwax") != 1
        or ("t" in modes and "b" in modes)
        or (not text and (encoding is not None or errors is not None or newline is not None))
    ):
        return _real_open(os.devnull, mode, buffering, encoding, errors, newline)  # Raises the right error
    raw_mode = "".join(c for c in "xrwa" if c in modes) + ("+" if "+" in modes else "")

    if isinstance(file, int):
        raw = SimFileIO(file, raw_mode, closefd, opener, task)  # Already open
    else:
        creates = any(c in modes for c in "wax")
        kind = "create" if creates else "open"
        if opener is not None:
            raw = SimFileIO(file, raw_mode, closefd, opener, task)  # `opener` goes through os.open
        else:
            raw = io_event(
                task, kind, path, mut, lambda: SimFileIO(file, raw_mode, closefd, None, task)
            )
    task.sim.fds[raw.fileno()] = raw._path
    try:
        if buffering == 0:
            if text:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if "+" in modes:
            buffer = io.BufferedRandom(raw, size)
        elif modes & set("wax"):
            buffer = io.BufferedWriter(raw, size)
        else:
            buffer = io.BufferedReader(raw, size)
        if not text:
            return buffer
        if encoding is None or encoding == "locale":
            encoding = task.inc.encoding
        wrapper = io.TextIOWrapper(buffer, encoding, errors, newline, line_buffering=buffering == 1)
        wrapper.mode = mode
        return wrapper
    except BaseException:
        raw.close()
        raise


def _one_path(name, kind, mut):
    real = _real[name]

    def seam(path, *args, **kwargs):
        task = cur()
        if task is None or task.sim.observing:
            return real(path, *args, **kwargs)
        target = _resolve(_abspath(path, kwargs.get("dir_fd")))
        return io_event(task, kind, target, mut, lambda: real(path, *args, **kwargs))

    seam.__name__ = name
    return seam


def _two_paths(name, kind):
    real = _real[name]

    def seam(src, dst, *args, **kwargs):
        task = cur()
        if task is None or task.sim.observing:
            return real(src, dst, *args, **kwargs)
        a = _resolve(_abspath(src, kwargs.get("src_dir_fd")))
        b = _resolve(_abspath(dst, kwargs.get("dst_dir_fd")))
        _resolved.clear()
        tmp = task.sim.world.tmp + "/"
        if kind in ("rename", "link") and a.startswith(tmp) != b.startswith(tmp):  # The temporary folder is other file system

            def other_device():
                raise OSError(errno.EXDEV, os.strerror(errno.EXDEV), src, None, dst)

            return io_event(task, kind, a, True, other_device, path2=b)
        return io_event(task, kind, a, True, lambda: real(src, dst, *args, **kwargs), path2=b)

    seam.__name__ = name
    return seam


def _symlink(src, dst, *args, **kwargs):
    task = cur()
    if task is None or task.sim.observing:
        return _real["symlink"](src, dst, *args, **kwargs)
    target = _resolve(_abspath(dst, kwargs.get("dir_fd")))
    _resolved.clear()
    return io_event(task, "symlink", target, True, lambda: _real["symlink"](src, dst, *args, **kwargs))


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    task = cur()
    if task is None or task.sim.observing:
        return _real["open"](path, flags, mode, dir_fd=dir_fd)
    target = _resolve(_abspath(path, dir_fd))
    mut = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
    kind = "create" if flags & os.O_CREAT else "open"
    fd = io_event(task, kind, target, mut, lambda: _real["open"](path, flags, mode, dir_fd=dir_fd))
    task.sim.fds[fd] = target
    return fd


def _os_close(fd):
    task = cur()
    if task is not None and not task.sim.observing:
        task.sim.fds.pop(fd, None)
    return _real["close"](fd)


def _os_write(fd, data):
    task = cur()
    if task is None or task.sim.observing:
        return _real["write"](fd, data)
    path = _abspath(fd)
    if not task.sim.world.inside(path):
        return _real["write"](fd, data)
    return _write_event(task, path, data, lambda view: _real["write"](fd, view))


def _yield_only(name, kind):
    """Reads of metadata: A point where other threads can run or the process can be killed, but never fails."""
    real = _real[name]

    def seam(path, *args, **kwargs):
        task = cur()
        if task is None or task.sim.observing:
            return real(path, *args, **kwargs)
        try:
            target = _abspath(path, kwargs.get("dir_fd"))
        except (TypeError, ValueError, OSError):
            return real(path, *args, **kwargs)
        return io_event(task, kind, target, False, lambda: real(path, *args, **kwargs), fault_ok=False)

    seam.__name__ = name
    return seam


class _SimScandir:
    def __init__(self, entries):
        self._entries = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._entries)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    def close(self):
        self._entries = iter(())


def _order(sim, names, key):
    """The order of a listing is not specified: It depends on the seed."""
    names = sorted(names, key=key)
    if sim.seed % 3 == 1:
        names.reverse()
    elif sim.seed % 3 == 2:
        random.Random(sim.seed).shuffle(names)
    return names


def _scandir(path="."):
    task = cur()
    if task is None or task.sim.observing:
        return _real["scandir"](path)
    target = _resolve(_abspath(path))

    def real():
        with _real["scandir"](path) as it:
            return _order(task.sim, it, lambda entry: entry.name)

    return _SimScandir(io_event(task, "scandir", target, False, real))


def _listdir(path="."):
    task = cur()
    if task is None or task.sim.observing:
        return _real["listdir"](path)
    target = _resolve(_abspath(path))
    return io_event(
        task, "listdir", target, False, lambda: _order(task.sim, _real["listdir"](path), lambda name: name)
    )


def _forbidden(name):
    real = _real[name]

    def seam(*args, **kwargs):
        task = cur()
        if task is None:
            return real(*args, **kwargs)
        task.sim.escapes.append((name, repr(args)[:200]))
        task.sim.note("escape", name)
        raise PermissionError(errno.EPERM, "the simulator does not allow this")

    seam.__name__ = name
    return seam


# ------------------------------------------------------------------------------------------------------------------
# Seams: identity of the process, clock, names


def _getpid():
    task = cur()
    return _real["getpid"]() if task is None else task.inc.pid


_real_get_ident = threading.get_ident


def _get_ident():
    """The main threads of different processes can have the same identifier."""
    task = cur()
    if task is not None and task.ident is not None and sys._getframe(1).f_code.co_filename.startswith(task.sim.world.pkg):
        return task.ident
    return _real_get_ident()


def _urandom(n):
    task = cur()
    if task is None:
        return _real["urandom"](n)
    return bytes(task.sim.rng.randrange(256) for _ in range(n))


def _clock(name):
    real = _real_time[name]

    def seam():
        task = cur()
        if task is None:
            return real()
        task.sim.clock += 0.00001
        return int(task.sim.clock * 1e9) if name.endswith("_ns") else task.sim.clock

    seam.__name__ = name
    return seam


def _sleep(seconds):
    task = cur()
    if task is None:
        return _real_time["sleep"](seconds)
    if task.inc.dead:
        raise SimCrash()
    task.sim.note("sleep", f"t{task.number} {seconds}")
    if task.sim.sched is not None:
        task.sim.sched.sleep(task, seconds)
    else:
        task.sim.clock += seconds
    return None


class _Names:
    """Names of `tempfile`: deterministic, and with collisions with the files that are already there."""

    def __iter__(self):
        return self

    def __next__(self):
        task = cur()
        if task is None:
            return f"ext{_real['urandom'](5).hex()}"
        return f"n{next(task.sim.names):05d}"


def _getpreferredencoding(do_setlocale=True):
    task = cur()
    return _real_getpreferredencoding(do_setlocale) if task is None else task.inc.encoding


def _getencoding():
    task = cur()
    return _real_getencoding() if task is None else task.inc.encoding


# ------------------------------------------------------------------------------------------------------------------
# Seams: locks


_lock_context = threading.local()


def in_sim_context():
    return cur() is not None or getattr(_lock_context, "on", 0) > 0


class lock_context:
    """Locks created inside (import of the code under test) are simulated ones."""

    def __enter__(self):
        _lock_context.on = getattr(_lock_context, "on", 0) + 1

    def __exit__(self, *args):
        _lock_context.on -= 1


class SimLock:
    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def _me(self):
        return cur() or "external"

    def acquire(self, blocking=True, timeout=-1):
        task = cur()
        me = self._me()
        if task is not None:
            if task.inc.dead:
                raise SimCrash()
            sched = task.sim.sched
            if sched is not None and not task.sim.observing:
                sched.yield_point(task, "lock")
                if task.inc.dead:
                    raise SimCrash()
            if self.reentrant and self.owner is me:
                self.count += 1
                return True
            while self.owner is not None:
                if not blocking:
                    return False
                if sched is None:
                    if isinstance(self.owner, Task) and self.owner.inc is not task.inc:
                        break  # Left by a killed process: Locks do not survive
                    task.sim.anomalies.append(("deadlock", f"op {task.op} waits for a lock that nobody will release"))
                    raise SimAbort("deadlock")
                if timeout is not None and timeout >= 0:
                    sched.sleep(task, timeout)
                    if self.owner is not None:
                        return False
                    break
                sched.block(task, self)
                if task.inc.dead:
                    raise SimCrash()
        elif self.reentrant and self.owner is me:
            self.count += 1
            return True
        elif self.owner is not None:
            if not blocking:
                return False
            raise HarnessError("a simulated lock is held outside of the simulation")
        self.owner = me
        self.count = 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        task = cur()
        if self.reentrant and self.owner is not self._me():
            raise RuntimeError("cannot release un-acquired lock")
        self.count -= 1
        if self.count == 0 or not self.reentrant:
            self.owner = None
            self.count = 0
            if task is not None and task.sim.sched is not None:
                task.sim.sched.wake(self)
                if not task.inc.dead and not task.sim.observing:
                    task.sim.sched.yield_point(task, "lock")

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *args):
        self.release()

    # Used by threading.Condition
    def _is_owned(self):
        return self.owner is self._me()

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0


class SimRLock(SimLock):
    reentrant = True

    def _release_save(self):
        state = self.count
        self.count = 1
        self.release()
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self.count = state


def _make_lock():
    return SimLock() if in_sim_context() else _real_allocate()


def _make_rlock(*args):
    return SimRLock() if in_sim_context() else _real_RLock()


def _flock_seam(real):
    import fcntl

    def seam(fd, operation, *args):
        task = cur()
        if task is None or task.sim.sched is None or operation & (fcntl.LOCK_NB | fcntl.LOCK_UN):
            return real(fd, operation, *args)
        while True:
            try:
                return real(fd, operation | fcntl.LOCK_NB, *args)
            except BlockingIOError:
                task.sim.sched.sleep(task, 0.01)
                if task.inc.dead:
                    raise SimCrash() from None

    return seam


# ------------------------------------------------------------------------------------------------------------------
# Scheduler: real threads, one running at a time


class Scheduler:
    def __init__(self, sim, policy):
        self.sim = sim
        self.policy = policy
        self.tasks = []
        self.finished = _real_allocate()
        self.finished.acquire()
        self.aborted = False
        self.schedule = []  # Choices different from the default
        self.switches = 0
        self.errors = []
        self.on_resume = None
        self.trace = hashlib.blake2b(digest_size=10)

    def add(self, fn, inc):
        task = Task(self.sim, len(self.tasks) + 1, inc)
        task.gate = _real_allocate()
        task.gate.acquire()
        task.fn = fn
        self.tasks.append(task)

        def body():
            task.gate.acquire()
            _tls.task = task
            try:
                if not self.aborted:
                    self._resumed(task)
                    fn(task)
            except (SimAbort, SimCrash):
                pass
            except BaseException as error:  # noqa: BLE001
                self.errors.append((task.number, error))
            finally:
                sys.settrace(None)
                _tls.task = None
                task.state = "done"
                self.wake(task)
                self._leave(task)

        task.thread = threading.Thread(target=body, daemon=True)
        return task

    def run(self, timeout=60.0):
        sim = self.sim
        sim.sched = self
        previous = sys.getswitchinterval()
        try:
            for task in self.tasks:
                _real_Thread_start(task.thread)
            if self.tasks:
                first = self._choose(None, "start", list(self.tasks))
                first.gate.release()
                if not self.finished.acquire(timeout=timeout):
                    raise TimeoutError("the simulated threads do not make progress")
                for task in self.tasks:
                    task.thread.join(timeout)
        finally:
            sys.setswitchinterval(previous)
            sim.sched = None
        if self.errors:
            raise HarnessError(f"task {self.errors[0][0]} failed: {self.errors[0][1]!r}") from self.errors[0][1]

    # -- choice
    def _ready(self):
        return [t for t in self.tasks if t.state == "ready"]

    def _choose(self, task, kind, ready):
        """Default: the current task goes on. If it cannot, the one with the lowest number."""
        self.sim.step += 1
        step = self.sim.step
        default = task if task in ready else ready[0]
        target = self.policy.decide(step, kind, default, ready)
        if target is not default:
            self.schedule.append([step, target.number])
        return target

    def yield_point(self, task, kind):
        if self.aborted:
            raise SimAbort()
        sim = self.sim
        if sim.step > sim.MAX_STEPS:
            sim.anomalies.append(("hang", f"more than {sim.MAX_STEPS} steps"))
            self.abort()
            raise SimAbort()
        ready = self._ready()
        if len(ready) < 2:
            sim.step += 1
            return
        target = self._choose(task, kind, ready)
        if target is not task:
            self._switch(task, target)

    def _switch(self, task, target):
        self.switches += 1
        self.sim.note("switch", f"t{task.number}->t{target.number}")
        self.trace.update(f"{task.number}>{target.number}@{task.op}.{task.k};".encode())
        target.gate.release()
        task.gate.acquire()
        self._resumed(task)
        if self.aborted:
            raise SimAbort()

    def _resumed(self, task):
        if self.on_resume is not None:
            self.on_resume(task)

    def _wake_sleepers(self):
        sleeping = [t for t in self.tasks if t.state == "sleep"]
        if not sleeping:
            return False
        first = min(sleeping, key=lambda t: (t.sleep_until, t.number))
        self.sim.clock = max(self.sim.clock, first.sleep_until)
        first.state = "ready"
        return True

    def _pass_on(self, task, kind):
        """The current task cannot go on: Let another one run."""
        ready = self._ready()
        if not ready and self._wake_sleepers():
            ready = self._ready()
        if not ready:
            waiting = [f"op {t.op}" for t in self.tasks if t.state == "blocked"]
            self.sim.anomalies.append(("deadlock", f"all threads wait for each other: {', '.join(waiting)}"))
            self.abort()
            raise SimAbort()
        target = self._choose(task, kind, ready)
        if target is not task:
            self._switch(task, target)

    def block(self, task, lock):
        task.state, task.waiting = "blocked", lock
        self.sim.note("block", f"t{task.number}")
        self._pass_on(task, "block")
        task.waiting = None

    def wake(self, lock):
        for task in self.tasks:
            if task.state == "blocked" and task.waiting is lock:
                task.state = "ready"

    def sleep(self, task, seconds):
        task.state, task.sleep_until = "sleep", self.sim.clock + max(0.0, seconds)
        self._pass_on(task, "sleep")
        if task.inc.dead:
            raise SimCrash()

    def _leave(self, task):
        remaining = [t for t in self.tasks if t.state != "done"]
        if not remaining:
            self.finished.release()
            return
        if self.aborted:
            # One at a time, so that the clean up of the others does not run concurrently
            remaining[0].state = "ready"
            remaining[0].gate.release()
            return
        ready = self._ready()
        if not ready and self._wake_sleepers():
            ready = self._ready()
        if not ready:
            self.sim.anomalies.append(("deadlock", "threads wait for a lock that was never released"))
            self.abort()
            remaining[0].state = "ready"
            remaining[0].gate.release()
            return
        target = self._choose(task, "exit", ready)
        self.sim.note("exit", f"t{task.number}->t{target.number}")
        target.gate.release()

    def abort(self):
        self.aborted = True


class RandomPolicy:
    """Seeded preemptions: Probability per kind of point, different in every run."""

    def __init__(self, seed, *, io=0.3, lock=0.4, line=0.01):
        self.rng = random.Random(f"sched:{seed}")
        self.p = {"io": io, "lock": lock, "line": line}

    def decide(self, step, kind, default, ready):
        if kind in self.p:
            if self.rng.random() >= self.p[kind]:
                return default
            others = [t for t in ready if t is not default]
            return self.rng.choice(others) if others else default
        return self.rng.choice(ready)


class FixedPolicy:
    """Replay of the choices of another run."""

    def __init__(self, schedule):
        self.choices = {step: number for step, number in schedule}

    def decide(self, step, kind, default, ready):
        number = self.choices.get(step)
        if number is not None:
            for task in ready:
                if task.number == number:
                    return task
        return default


# ------------------------------------------------------------------------------------------------------------------
# Seams: child processes


class FakePopen:
    """Child process that behaves as the scenario says (`sim.children`, in order of creation)."""

    def __init__(
        self,
        args,
        bufsize=-1,
        executable=None,
        stdin=None,
        stdout=None,
        stderr=None,
        preexec_fn=None,
        close_fds=True,
        shell=False,
        cwd=None,
        env=None,
        universal_newlines=None,
        startupinfo=None,
        creationflags=0,
        restore_signals=True,
        start_new_session=False,
        pass_fds=(),
        *,
        user=None,
        group=None,
        extra_groups=None,
        encoding=None,
        errors=None,
        text=None,
        umask=-1,
        pipesize=-1,
        process_group=None,
    ):
        task = cur()
        sim = task.sim
        self._sim = sim
        self._task = task
        self.args = args
        self.returncode = None
        self.pid = 20_000 + len(sim.spawned)
        if sim.sched is not None:
            sim.sched.yield_point(task, "io")
        command = args if isinstance(args, str) else " ".join(str(a) for a in args)
        behaviour = sim.child_for(command, len(sim.spawned))
        sim.spawned.append({"command": args if isinstance(args, str) else [str(a) for a in args], "shell": bool(shell)})
        sim.note("spawn", re.sub(r"/[^ ]*/(?=[^/ ]*)", "", command)[:160])
        sim.fired[f"child:{behaviour.get('what', 'run')}"] += 1
        error = behaviour.get("spawn_error")
        if error:
            code = {"FileNotFoundError": errno.ENOENT, "PermissionError": errno.EACCES}.get(error) or getattr(errno, error)
            raise OSError(code, os.strerror(code), args if isinstance(args, str) else str(args[0]))
        self._behaviour = behaviour
        self._text = bool(text or universal_newlines or encoding or errors)
        self._encoding = encoding or task.inc.encoding
        self._errors = errors or "strict"
        self._out = bytes.fromhex(behaviour.get("stdout", ""))
        self._err = bytes.fromhex(behaviour.get("stderr", ""))
        if stderr == subprocess.STDOUT:
            self._out, self._err = self._out + self._err, b""
        self._pipes = (stdout == subprocess.PIPE, stderr == subprocess.PIPE)
        for target, content in ((stdout, self._out), (stderr, self._err)):
            if target is not None and hasattr(target, "write"):
                try:
                    target.write(content)
                except TypeError:
                    target.write(content.decode("utf-8", "replace"))
        self.stdout = self._stream(self._out) if self._pipes[0] else None
        self.stderr = self._stream(self._err) if self._pipes[1] else None
        self.stdin = io.BytesIO() if stdin == subprocess.PIPE else None

    def _stream(self, content):
        raw = io.BytesIO(content)
        return io.TextIOWrapper(raw, self._encoding, self._errors) if self._text else raw

    def _decode(self, content):
        if not self._text:
            return content
        return content.decode(self._encoding, self._errors).replace("\r\n", "\n").replace("\r", "\n")

    def communicate(self, input=None, timeout=None):
        self._run(timeout)
        out = self._decode(self._out) if self._pipes[0] else None
        err = self._decode(self._err) if self._pipes[1] else None
        return out, err

    def _run(self, timeout=None):
        if self.returncode is not None:
            return
        duration = self._behaviour.get("seconds", 1.0)
        task = cur()
        if timeout is not None and duration > timeout:
            self._sim.clock += timeout
            raise subprocess.TimeoutExpired(self.args, timeout)
        if self._sim.sched is not None and task is not None:
            self._sim.sched.sleep(task, duration)
        else:
            self._sim.clock += duration
        self.returncode = self._behaviour.get("code", 0)

    def wait(self, timeout=None):
        self._run(timeout)
        return self.returncode

    def poll(self):
        self._run()
        return self.returncode

    def kill(self):
        self.returncode = -9

    def terminate(self):
        self.returncode = -15

    def send_signal(self, sig):
        self.returncode = -sig

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.wait()

    def __class_getitem__(cls, item):
        return cls


class _PopenSeam(type):
    def __call__(cls, *args, **kwargs):
        if cls is SeamPopen:
            return FakePopen(*args, **kwargs) if cur() is not None else _real_Popen(*args, **kwargs)
        return super().__call__(*args, **kwargs)

    def __instancecheck__(cls, instance):
        return isinstance(instance, (FakePopen, _real_Popen))


class SeamPopen(metaclass=_PopenSeam):
    def __class_getitem__(cls, item):
        return cls


def _child_for(self, command, index):
    for child in self.children:
        if child.get("match") and child["match"] in command and not child.get("used"):
            if not child.get("always"):
                child["used"] = True
            return child
    plain = [c for c in self.children if not c.get("match")]
    if index < len(plain):
        return plain[index]
    return {"what": "unexpected", "code": 0}


Sim.child_for = _child_for


# ------------------------------------------------------------------------------------------------------------------


def _thread_start(self):
    """Threads started by the code under test are tasks of the scheduler."""
    task = cur()
    if task is None:
        return _real_Thread_start(self)
    sched = task.sim.sched
    if sched is None:
        raise HarnessError("the code under test starts threads: only simulated with a scheduler")
    if getattr(self, "_sim_task", None) is not None:
        raise RuntimeError("threads can only be started once")

    def body(new):
        try:
            self.run()
        except (SimAbort, SimCrash):
            raise
        except BaseException as error:  # noqa: BLE001
            task.sim.note("thread-error", type(error).__name__)

    _tls.task, depth, _lock_context.on = None, getattr(_lock_context, "on", 0), 0
    try:
        self._sim_task = sched.add(body, task.inc)
        _real_Thread_start(self._sim_task.thread)
    finally:
        _tls.task, _lock_context.on = task, depth
    self._sim_task.op = task.op
    self._started.set()
    sched.yield_point(task, "io")


def _thread_join(self, timeout=None):
    target = getattr(self, "_sim_task", None)
    if target is None:
        return _real_Thread_join(self, timeout)
    task = cur()
    if task is None or task.sim.sched is None:
        return None
    sched = task.sim.sched
    if timeout is not None and target.state != "done":
        sched.sleep(task, timeout)
        return None
    while target.state != "done":
        sched.block(task, target)
        if task.inc.dead:
            raise SimCrash()
    return None


def _thread_is_alive(self):
    target = getattr(self, "_sim_task", None)
    return _real_Thread_is_alive(self) if target is None else target.state != "done"


class _NoLock:
    """Lock of `concurrent.futures` against the end of the interpreter: not part of the simulation."""

    def __enter__(self):
        return True

    def __exit__(self, *args):
        pass

    acquire = release = _at_fork_reinit = lambda self, *args: True


def _install_numbers():
    """Futures and threads are kept in sets: deterministic order of them."""
    base = concurrent.futures._base
    for cls in (base.Future, threading.Thread):

        def init(self, *args, real=cls.__init__, **kwargs):
            task = cur()
            self._number = next(task.sim.names) if task is not None else id(self)
            real(self, *args, **kwargs)

        cls.__init__ = init
        cls.__hash__ = lambda self: getattr(self, "_number", id(self))
    base.id = lambda obj: getattr(obj, "_number", id(obj))


def _simple_queue():
    return queue._PySimpleQueue() if in_sim_context() else _real_SimpleQueue()


def _cpu_count():
    task = cur()
    return _real["cpu_count"]() if task is None else task.sim.cpus


_installed = False


def install(tmp):
    """Install the seams in this process. They do nothing out of simulated tasks."""
    global _installed
    if _installed:
        return
    _installed = True
    builtins.open = sim_open
    io.open = sim_open
    os.open = _os_open
    os.close = _os_close
    os.write = _os_write
    for name in ("replace", "rename", "link"):
        setattr(os, name, _two_paths(name, "rename" if name != "link" else "link"))
    os.symlink = _symlink
    for name, kind in (
        ("remove", "unlink"),
        ("unlink", "unlink"),
        ("mkdir", "mkdir"),
        ("rmdir", "rmdir"),
        ("truncate", "truncate"),
        ("ftruncate", "truncate"),
        ("chmod", "chmod"),
        ("fchmod", "chmod"),
        ("chown", "chown"),
        ("fchown", "chown"),
        ("lchown", "chown"),
        ("utime", "utime"),
        ("mkfifo", "mkfifo"),
        ("mknod", "mknod"),
        ("posix_fallocate", "fallocate"),
        ("setxattr", "xattr"),
        ("removexattr", "xattr"),
        ("pwrite", "pwrite"),
        ("writev", "writev"),
    ):
        if name in _real:
            setattr(os, name, _one_path(name, kind, True))
    for name in ("fsync", "fdatasync"):
        setattr(os, name, _one_path(name, "fsync", False))
    for name in ("stat", "lstat", "access"):
        setattr(os, name, _yield_only(name, "stat"))
    os.scandir = _scandir
    os.listdir = _listdir
    for name in ("system", "fork", "kill", "killpg", "popen", "posix_spawn", "execv", "execve"):
        setattr(os, name, _forbidden(name))
    os.getpid = _getpid
    threading.get_ident = _get_ident
    os.urandom = _urandom
    if hasattr(random, "_urandom"):
        random._urandom = _urandom
    for name in ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter"):
        setattr(time, name, _clock(name))
    time.sleep = _sleep
    threading.Lock = _make_lock
    threading.RLock = _make_rlock
    threading._allocate_lock = _make_lock
    threading.Thread.start = _thread_start
    threading.Thread.join = _thread_join
    threading.Thread.is_alive = _thread_is_alive
    threading._time = time.monotonic
    queue.SimpleQueue = _simple_queue
    concurrent.futures.thread._global_shutdown_lock = _NoLock()
    _install_numbers()
    os.cpu_count = multiprocessing.cpu_count = _cpu_count
    subprocess.Popen = SeamPopen
    _locale.getpreferredencoding = _getpreferredencoding
    if _real_getencoding:
        _locale.getencoding = _getencoding
    try:
        import fcntl

        fcntl.flock = _flock_seam(fcntl.flock)
        fcntl.lockf = _flock_seam(fcntl.lockf)
    except ImportError:
        pass
    shutil._USE_CP_SENDFILE = False
    # `shutil` decided at import time whether the functions above support folder descriptors
    for name in ("open", "stat", "lstat", "unlink", "remove", "rmdir", "mkdir", "rename", "chmod", "utime", "access"):
        os.supports_dir_fd.add(getattr(os, name))
    for name in ("scandir", "listdir", "stat", "chmod", "utime", "truncate"):
        os.supports_fd.add(getattr(os, name))
    for name in ("stat", "chmod", "utime", "chown", "link", "access"):
        os.supports_follow_symlinks.add(getattr(os, name))
    tempfile.tempdir = tmp
    tempfile._name_sequence = _Names()
    sys.unraisablehook = lambda *args: None
