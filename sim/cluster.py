"""Simulated machines: processes, ssh, remote shell, containers, on a virtual clock.

The launcher under test runs for real; ``subprocess.Popen`` is the seam.  A spawned
command becomes a simulated process whose start delay, duration and exit status come
from the plan.  Nothing is ever executed.
"""
from __future__ import annotations

import errno
import os
import subprocess
import sys
import time as _time

from .core import HarnessError, Rebound, Violation

_RealPopen = subprocess.Popen


# ------------------------------------------------------------------ sh words
class ShellInterprets(Exception):
    """The remote shell would do more than split this command into words."""


def sh_words(cmd: str):
    """Words of a POSIX shell command without expansions; anything else is reported."""
    out, cur, quoted, i = [], None, False, 0
    n = len(cmd)
    while i < n:
        c = cmd[i]
        if c in " \t":
            if cur is not None:
                out.append(cur)
                cur = None
            i += 1
        elif c == "'":
            j = cmd.find("'", i + 1)
            if j < 0:
                raise ShellInterprets("unterminated quote")
            cur = (cur or "") + cmd[i + 1:j]
            i = j + 1
        elif c == '"':
            cur = cur or ""
            i += 1
            while True:
                if i >= n:
                    raise ShellInterprets("unterminated quote")
                c = cmd[i]
                if c == '"':
                    i += 1
                    break
                if c in "$`":
                    raise ShellInterprets(f"expansion {c!r} at {cmd[i:i + 12]!r}")
                if c == "\\" and i + 1 < n and cmd[i + 1] in '$`"\\\n':
                    if cmd[i + 1] != "\n":
                        cur += cmd[i + 1]
                    i += 2
                    continue
                cur += c
                i += 1
        elif c == "\\":
            if i + 1 >= n:
                raise ShellInterprets("trailing backslash")
            if cmd[i + 1] != "\n":
                cur = (cur or "") + cmd[i + 1]
            i += 2
        elif c in "\n;&|<>()$`*?[!":
            raise ShellInterprets(f"{c!r} at {cmd[i:i + 12]!r}")
        elif c in "#~" and cur is None:
            raise ShellInterprets(f"{c!r} at {cmd[i:i + 12]!r}")
        else:
            cur = (cur or "") + c
            i += 1
    if cur is not None:
        out.append(cur)
    return out


_SSH_ARG = set("BbcDEeFIiJLlmOopQRSWw")
_DOCKER_ARG = {"-e", "--env", "-u", "--user", "-w", "--workdir", "--env-file", "--detach-keys"}


def parse_command(argv, env, stdin):
    """What a spawned command line starts: dict(where, container, env, argv, script, ...)."""
    words = list(argv)
    place = dict(host=None, user=None, key=None, container=None, env=dict(env))
    if words and os.path.basename(words[0]) == "ssh":
        i, dest = 1, None
        while i < len(words):
            w = words[i]
            if w == "--":
                i += 1
                continue
            if w.startswith("-") and len(w) > 1 and dest is None:
                if w[1] in _SSH_ARG:
                    if len(w) > 2:
                        val = w[2:]
                    else:
                        i += 1
                        val = words[i]
                    if w[1] == "i":
                        place["key"] = val
                    if w[1] == "l":
                        place["user"] = val
                i += 1
                continue
            dest = w
            i += 1
            break
        if dest is None:
            raise ShellInterprets("ssh without destination")
        place["host"] = dest.rsplit("@", 1)[-1]
        place["user"] = dest.rsplit("@", 1)[0] if "@" in dest else place["user"]
        place["env"] = {}
        words = sh_words(" ".join(words[i:]))       # ssh joins with spaces, the remote shell splits
    if words[:1] == ["docker"] or words[:1] == ["podman"]:
        if words[1:2] != ["exec"]:
            raise ShellInterprets(f"unexpected container command {words[:3]}")
        i = 2
        cenv = {}
        while i < len(words) and words[i].startswith("-"):
            w = words[i]
            val = None
            if w.startswith("--") and "=" in w:
                w, val = w.split("=", 1)
            elif w in _DOCKER_ARG:
                i += 1
                val = words[i]
            elif w.startswith("-e") and len(w) > 2:
                w, val = "-e", w[2:]
            if w in ("-e", "--env"):
                k, eq, v = val.partition("=")
                if eq:
                    cenv[k] = v
                else:
                    cenv[k] = place["env"].get(k, "")
            i += 1
        place["container"] = words[i] if i < len(words) else None
        place["env"] = cenv
        words = words[i + 1:]
    while words and (words[0] == "env" or ("=" in words[0] and words[0].split("=")[0].isidentifier())):
        if words[0] != "env":
            k, _, v = words[0].partition("=")
            place["env"][k] = v
        words = words[1:]
    place["exe"] = words[0] if words else None
    rest = words[1:]
    while rest and rest[0] in ("-u", "-I", "-B", "-E", "-s"):
        rest = rest[1:]
    place["script"] = rest[0] if rest else None
    place["args"] = rest[1:]
    place["stdin"] = stdin
    return place


# ------------------------------------------------------------------ processes
class Proc:
    def __init__(self, pid, argv, env, spec, t):
        self.pid, self.argv, self.env = pid, argv, env
        self.t_start = t + spec["delay"]
        self.t_end = self.t_start + spec["dur"]
        self.rc = spec["rc"]
        self.stubborn = spec.get("stubborn", 0)
        self.started = self.ended = self.reaped = False
        self.stdin_fd = None
        self.stdin_data = None
        self.signals = []
        self.started_at = None


class World:
    """specs: per spawned process [delay, dur, rc]; faults: spawn index -> kind;
    interrupts: {wait-operation index: exception name}."""

    def __init__(self, specs, spawn_faults=(), interrupts=(), res=None):
        self.specs = specs
        self.spawn_faults = dict(spawn_faults)
        self.interrupts = dict(interrupts)
        self.t = 0.0
        self.procs = []
        self.n_spawn = 0
        self.n_wait = 0
        self.n_ops = 0
        self.order = []           # indices in start order
        self.res = res
        self.raised = []
        self.on_start = None

    # clock ------------------------------------------------------------------
    def tick(self, dt):
        self.advance_to(self.t + dt)

    def advance_to(self, t):
        while True:
            evs = []
            for i, p in enumerate(self.procs):
                if not p.started:
                    evs.append((p.t_start, 0, i))
                elif not p.ended:
                    evs.append((p.t_end, 1, i))
            evs = [e for e in evs if e[0] <= t]
            if not evs:
                break
            when, kind, i = min(evs)
            self.t = max(self.t, when)
            p = self.procs[i]
            if kind == 0:
                p.started = True
                p.started_at = self.t
                self.order.append(i)
                self.log("start", i)
                self.drain(p)
                if self.on_start:
                    self.on_start(i, p)
            else:
                self.drain(p)
                p.ended = True
                self.log("end", i, p.rc)
        self.t = max(self.t, t)

    def drain(self, p):
        """The process reads its standard input to the end (of what is there)."""
        if p.stdin_fd is None:
            return
        p.stdin_data = p.stdin_data or b""
        while True:
            try:
                b = os.read(p.stdin_fd, 1 << 16)
            except BlockingIOError:
                return
            if not b:
                break
            p.stdin_data += b
        os.close(p.stdin_fd)
        p.stdin_fd = None

    def log(self, *a):
        if self.res is not None:
            self.res.ev(*a, round(self.t, 6))

    def next_event(self):
        ts = [p.t_start if not p.started else p.t_end for p in self.procs if not p.ended]
        return min(ts) if ts else None

    def maybe_interrupt(self, where):
        k = self.interrupts.get(self.n_wait)
        self.n_wait += 1
        if k:
            self.log("interrupt", where, k)
            if self.res is not None:
                self.res.faults[f"interrupt-{k}@{where}"] += 1
            e = {"int": KeyboardInterrupt, "term": SystemExit}[k](*(() if k == "int" else (143,)))
            self.raised.append(e)
            raise e

    def signal(self, p, sig):
        self.log("signal", self.procs.index(p), int(sig))
        if p.ended:
            return
        p.signals.append(int(sig))
        if int(sig) == 9 or not p.stubborn:
            if not p.started:
                p.started = True
                p.t_start = self.t
                p.started_at = None
                if p.stdin_fd is not None:
                    os.close(p.stdin_fd)
                    p.stdin_fd = None
            p.t_end = min(p.t_end, self.t + 0.001) if p.t_end > self.t else p.t_end
            p.rc = -int(sig)

    def close(self):
        for p in self.procs:
            if p.stdin_fd is not None:
                os.close(p.stdin_fd)
                p.stdin_fd = None

    # installation -------------------------------------------------------------
    def __enter__(self):
        world = self
        self._saved = (subprocess.Popen, _time.sleep, _time.monotonic, _time.time, _time.perf_counter,
                       os.system, os.fork, os.kill, os.waitpid)

        class Popen:
            """subprocess.Popen against the simulated world."""
            def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None,
                         preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None, **kw):
                world.n_ops += 1
                world.tick(0.0005)
                world.maybe_interrupt("spawn")
                i = world.n_spawn
                world.n_spawn += 1
                f = world.spawn_faults.get(i)
                if f:
                    world.res.faults["spawn-" + f] += 1
                    world.log("spawn-fault", i, f)
                    e = {"enoent": FileNotFoundError(errno.ENOENT, "No such file or directory", "ssh"),
                         "eagain": BlockingIOError(errno.EAGAIN, "Resource temporarily unavailable"),
                         "enomem": OSError(errno.ENOMEM, "Cannot allocate memory"),
                         "emfile": OSError(errno.EMFILE, "Too many open files")}[f]
                    world.raised.append(e)
                    raise e
                if isinstance(args, (str, bytes)):
                    argv = sh_words(os.fsdecode(args)) if shell else [os.fsdecode(args)]
                else:
                    argv = [os.fsdecode(a) for a in args]
                    for a in args:
                        if not isinstance(a, (str, bytes, os.PathLike)):
                            raise TypeError(f"expected str, bytes or os.PathLike object, not {type(a).__name__}")
                    if shell:
                        raise HarnessError("shell=True with an argument list is not simulated")
                for k, v in (env or {}).items():
                    if not isinstance(k, (str, bytes)) or not isinstance(v, (str, bytes)):
                        raise TypeError(f"expected str, bytes or os.PathLike object, not {type(v).__name__}")
                spec = world.specs[min(i, len(world.specs) - 1)]
                p = Proc(1000 + i, argv, dict(os.environ if env is None else env), spec, world.t)
                world.procs.append(p)
                world.log("spawn", i, tuple(argv[:1]))
                self._p = p
                self.args = args
                self.pid = p.pid
                self.returncode = None
                self.stdin = self.stdout = self.stderr = None
                if stdin is not None and not isinstance(stdin, int):
                    stdin = stdin.fileno()
                if stdin == subprocess.PIPE:
                    r, w = os.pipe()
                    os.set_blocking(r, False)
                    p.stdin_fd = r
                    text = kw.get("text") or kw.get("universal_newlines") or kw.get("encoding")
                    self.stdin = os.fdopen(w, "w" if text else "wb")
                elif stdin == subprocess.DEVNULL:
                    p.stdin_fd = os.open(os.devnull, os.O_RDONLY)
                elif isinstance(stdin, int) and stdin >= 0:
                    p.stdin_fd = os.dup(stdin)

            def poll(self):
                world.n_ops += 1
                world.tick(0.01)
                return self._reap()

            def _reap(self):
                if self._p.ended and self.returncode is None:
                    self._p.reaped = True
                    self.returncode = self._p.rc
                return self.returncode

            def wait(self, timeout=None):
                world.n_ops += 1
                if self.returncode is not None:
                    return self.returncode
                if self.stdin is not None and not self.stdin.closed and not self._p.started:
                    self.stdin.flush()
                end = None if timeout is None else world.t + timeout
                world.maybe_interrupt("wait")
                while not self._p.ended:
                    nxt = world.next_event()
                    if end is not None and (nxt is None or nxt > end):
                        world.advance_to(end)
                        raise subprocess.TimeoutExpired(self.args, timeout)
                    if nxt is None:
                        raise HarnessError("wait for a process that never ends")
                    world.advance_to(nxt)
                return self._reap()

            def communicate(self, input=None, timeout=None):
                if self.stdin is not None and not self.stdin.closed:
                    if input is not None:
                        self.stdin.write(input)
                    self.stdin.close()
                self.wait(timeout)
                return None, None

            def send_signal(self, sig):
                world.n_ops += 1
                if self.returncode is None:
                    world.signal(self._p, sig)

            def terminate(self):
                self.send_signal(15)

            def kill(self):
                self.send_signal(9)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                if self.stdin is not None and not self.stdin.closed:
                    self.stdin.close()
                self.wait()

        subprocess.Popen = Popen
        _time.sleep = lambda s: (world.maybe_interrupt("sleep"), world.tick(max(float(s), 0.0)))[1]
        _time.monotonic = lambda: world.t
        _time.perf_counter = lambda: world.t
        _time.time = lambda: 1.7e9 + world.t

        def nope(name):
            def f(*a, **k):
                raise HarnessError(f"{name} is not simulated")
            return f
        os.system, os.fork, os.kill, os.waitpid = map(nope, ("os.system", "os.fork", "os.kill", "os.waitpid"))
        now = (subprocess.Popen, _time.sleep, _time.monotonic, _time.time, _time.perf_counter,
               os.system, os.fork, os.kill, os.waitpid)
        self._rebound = Rebound(zip(self._saved, now))
        self._rebound.__enter__()
        return self

    def __exit__(self, *a):
        self._rebound.__exit__()
        (subprocess.Popen, _time.sleep, _time.monotonic, _time.time, _time.perf_counter,
         os.system, os.fork, os.kill, os.waitpid) = self._saved
        self.close()
