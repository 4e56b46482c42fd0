"""Runs functions in processes that imported the code under test but have not used it yet.

start() forks a zygote; call() asks it to fork a child which runs one function and returns its result.  The zygote ends
when every process holding the write end of its lifeline pipe has ended.  The zygote named warm has built one polyphase
rate filter, whose first construction takes over a second; the one named cold has used nothing.
"""

import importlib
import os
import pickle
import select
import signal
import socket
import struct
import sys
import traceback

_address = {}
_lifeline = []


def _read(c, n):
    b = b""
    while len(b) < n:
        d = c.recv(min(n - len(b), 1 << 20))
        if not d:
            raise EOFError("fresh process ended without an answer")
        b += d
    return b


def _receive(c):
    return pickle.loads(_read(c, struct.unpack("<Q", _read(c, 8))[0]))


def _send(c, v):
    b = pickle.dumps(v)
    c.sendall(struct.pack("<Q", len(b)) + b)


def _child(c):
    try:
        where, name, args = _receive(c)
        fn = getattr(importlib.import_module(where), name)
        out = (True, fn(*args))
    except BaseException as ex:
        out = (False, f"{type(ex).__name__}: {ex}", traceback.format_exc())
    try:
        _send(c, out)
    finally:
        os._exit(0)


def _zygote(s, r):
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        ready, _, _ = select.select([s, r], [], [])
        if r in ready:
            os._exit(0)
        c, _ = s.accept()
        if not os.fork():
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_PROF, 0.0)
            s.close()
            os.close(r)
            _child(c)
        c.close()


def _warm():
    import diamondback

    diamondback.PolyphaseRateFilter(1.0)


def start(name="cold"):
    """Forks a zygote from this process, which must not have used the code under test."""
    if name in _address:
        return
    s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    _address[name] = f"\0vm-fresh-{os.getpid()}-{os.urandom(8).hex()}"
    s.bind(_address[name])
    s.listen(64)
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    if not os.fork():
        os.close(w)
        try:
            if name == "warm":
                _warm()
            _zygote(s, r)
        finally:
            os._exit(1)
    s.close()
    os.close(r)
    _lifeline.append(w)


class Failed(Exception):
    """The function raised in the fresh process."""


def call(where, name, *args, timeout=240.0, zygote="cold"):
    """The result of where.name(*args) in a new process."""
    start(zygote)
    with socket.socket(socket.AF_UNIX, socket.SOCK_STREAM) as c:
        c.settimeout(timeout)
        c.connect(_address[zygote])
        _send(c, (where, name, args))
        out = _receive(c)
    if not out[0]:
        raise Failed(out[1] + "\n" + out[2])
    return out[1]
