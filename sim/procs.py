"""Simulated external processes: `subprocess` keeps its own code down to the creation of
the child; the child is a stub run inside the simulation.

A stub program is a generator function program(proc): it may `yield` (the caller that
waits may be interrupted or another caller may run), read and write files in proc.cwd,
and returns its exit status (>= 0 exit code, < 0 killed by that signal), or raises OSError
before its first yield when it cannot be started."""
import os
import signal
import subprocess

import sched

_sys = None


class Proc:
    def __init__(self, args, cwd, env, stdout):
        self.args = [os.fspath(a) for a in args]
        self.cwd = cwd
        self.stdout = stdout
        self.killed = None
        self.status = None
        self.started = False
        self.gen = None
        self.notes = {}

    def path(self, name):
        return os.path.join(self.cwd, name)


class Processes:
    """installs itself in `subprocess`; programs(proc) -> generator, or None when the
    file does not exist (then starting fails as the operating system would)"""

    def __init__(self, programs, interrupt_at=None):
        self.programs = programs
        self.log = []
        self.interrupts = {}
        self.waits = 0

    def __enter__(self):
        global _sys
        P = subprocess.Popen
        self.saved = {k: getattr(P, k) for k in ("_execute_child", "_wait", "_internal_poll", "send_signal")}
        _sys = self
        P._execute_child = _execute_child
        P._wait = _wait
        P._internal_poll = _internal_poll
        P.send_signal = _send_signal
        self.saved_os = {k: getattr(os, k) for k in ("system", "posix_spawn", "posix_spawnp", "execv", "fork")}
        for k in ("system", "posix_spawn", "posix_spawnp", "execv"):
            setattr(os, k, _refuse)
        return self

    def __exit__(self, *a):
        global _sys
        for k, v in self.saved.items():
            setattr(subprocess.Popen, k, v)
        for k, v in self.saved_os.items():
            setattr(os, k, v)
        _sys = None


def _refuse(*a, **k):
    raise NotImplementedError("simulation: this way of starting a process is not simulated")


def _execute_child(
    self, args, executable, preexec_fn, close_fds, pass_fds, cwd, env, startupinfo, creationflags, shell,
    p2cread, p2cwrite, c2pread, c2pwrite, errread, errwrite, *rest
):
    if isinstance(args, (str, bytes)) or isinstance(args, os.PathLike):
        args = [args]
    args = list(args)
    if shell:
        import shlex

        args = shlex.split(os.fspath(args[0])) if len(args) == 1 else args
    sched.external_point(-1)
    base = os.getcwd() if cwd is None else os.path.join(os.getcwd(), os.fspath(cwd))
    if not os.path.isdir(base):
        raise FileNotFoundError(2, "No such file or directory", os.fspath(cwd))
    base = os.path.realpath(base)
    proc = Proc(args, base, env, c2pwrite)
    # the operating system resolves a relative program name from the child's directory
    exe = os.path.join(base, proc.args[0])
    if not os.path.isfile(exe):
        raise FileNotFoundError(2, "No such file or directory", proc.args[0])
    if not os.access(exe, os.X_OK):
        raise PermissionError(13, "Permission denied", proc.args[0])
    proc.exe = os.path.realpath(exe)
    gen = _sys.programs(proc)
    _sys.log.append(proc)
    proc.gen = gen
    self._sim = proc
    self.pid = 1 << 22 | len(_sys.log)
    _advance(proc)  # may raise OSError: could not be started
    proc.started = True
    self._child_created = True
    for fd in {p2cread, c2pwrite, errwrite}:
        pass
    if c2pread != -1 or errread != -1 or p2cwrite != -1:
        while proc.status is None:  # output goes through pipes: run to the end at once
            _advance(proc)
    devnull = getattr(self, "_devnull", None)
    for fd, own in ((p2cread, p2cwrite != -1), (c2pwrite, c2pread != -1), (errwrite, errread != -1)):
        if fd != -1 and own and fd != devnull:
            os.close(fd)
    if devnull is not None:
        os.close(devnull)
    self._closed_child_pipe_fds = True


def _advance(proc):
    if proc.status is not None:
        return
    if proc.killed is not None:
        proc.status = -proc.killed
        proc.gen.close()
        return
    try:
        next(proc.gen)
    except StopIteration as e:
        proc.status = e.value


def _wait(self, timeout):
    p = self._sim
    while p.status is None:
        if _sys is not None:
            _sys.waits += 1
        sched.external_point(len(_sys.log) if _sys else 0, leave=True)
        _sched_only(p)
        _advance(p)
    self.returncode = p.status
    return self.returncode


def _sched_only(p):
    exc = p.notes.pop("interrupt", None)
    if exc is not None and p.killed is None:
        raise exc


def _internal_poll(self, _deadstate=None, **k):
    p = getattr(self, "_sim", None)
    if p is None:
        return self.returncode
    if self.returncode is None:
        _advance(p)
        if p.status is not None:
            self.returncode = p.status
    return self.returncode


def _send_signal(self, sig):
    if self.returncode is None:
        self._sim.killed = int(sig)
