"""Crash points: every operation that changes files below a directory can be the one before which the process dies or fails."""
import fcntl
import multiprocessing as mp
import os
import signal
import sys
import tempfile

WRITES = {"open", "os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.link", "os.symlink", "os.truncate"}
_state = dict(root=None, at=0, mode=None, count=None, log=None)


def arm(root, at=0, mode="kill", log=None):
    """The at-th (from 1) change below root kills the process group (mode kill) or fails with ENOSPC (mode error); 0: only count."""
    first = _state["root"] is None
    if first:  # a lock that is released whatever happens to the process holding it (worker processes get terminated)
        fd, _state["lock"] = tempfile.mkstemp(prefix="vh-crash-", dir=os.path.dirname(os.path.dirname(os.path.realpath(root))))
        os.close(fd)
    _state.update(root=os.path.realpath(root) + os.sep, at=at, mode=mode, count=mp.RawValue("i", 0))
    _state["log"] = None if log is None else os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
    if first:
        sys.addaudithook(_hook)


def disarm() -> int:
    n = _state["count"].value
    _state["mode"] = None
    return n


def _hook(event, args):
    if event not in WRITES or _state["mode"] is None:
        return
    path = args[0]
    if event == "open" and not (isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)):
        return
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if not isinstance(path, (str, os.PathLike)):
        return
    path = os.path.abspath(os.fspath(path))
    if not (path + os.sep).startswith(_state["root"]):
        return
    lock = os.open(_state["lock"], os.O_RDONLY)
    try:
        fcntl.flock(lock, fcntl.LOCK_EX)
        _state["count"].value += 1
        n = _state["count"].value
    finally:
        os.close(lock)
    if _state["log"] is not None:
        os.write(_state["log"], f"{event} {path}\n".encode())
    if n == _state["at"]:
        if _state["mode"] == "kill":
            os.killpg(0, signal.SIGKILL)
        raise OSError(28, "No space left on device (injected)", path)
