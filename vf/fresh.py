"""Calls in processes without a history: a server imports the code under test and forks for each request."""

import atexit
import os
import pickle
import struct
import subprocess
import sys

_server = None


def _read(f, n):
    out = b""
    while len(out) < n:
        part = f.read(n - len(out))
        if not part:
            raise EOFError
        out += part
    return out


def _receive(f):
    (n,) = struct.unpack("<Q", _read(f, 8))
    return pickle.loads(_read(f, n))


def _send(f, value):
    data = pickle.dumps(value, protocol=4)
    f.write(struct.pack("<Q", len(data)) + data)
    f.flush()


def call(module, function, case):
    """The function's result for the case (picklable), in a process that hasn't called anything before.

    Returns (True, result) or (False, message of the exception it raised).
    """
    global _server
    if _server is None or _server[0] != os.getpid():
        p = subprocess.Popen([sys.executable, "-m", "vf.fresh"], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        _server = os.getpid(), p
        atexit.register(p.stdin.close)
    p = _server[1]
    _send(p.stdin, (module, function, case))
    return _receive(p.stdout)


def _serve():
    import importlib
    import signal
    import warnings

    import numpy as np

    from . import core

    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    core.bootstrap()
    import matplotlib.pyplot  # noqa: F401

    from pyotf import display, labview, microscope, otf, phaseretrieval, utils, zernike  # noqa: F401

    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    modules = {}
    while True:
        try:
            module, function, case = _receive(sys.stdin.buffer)
        except EOFError:
            return
        if module not in modules:
            modules[module] = importlib.import_module(module)
        child = os.fork()
        if child == 0:
            try:
                with warnings.catch_warnings(), np.errstate(all="ignore"):
                    warnings.simplefilter("ignore")
                    try:
                        answer = True, getattr(modules[module], function)(case)
                    except Exception as e:
                        answer = False, f"{type(e).__name__}: {e}"
                _send(out, answer)
            finally:
                os._exit(0)
        os.waitpid(child, 0)


if __name__ == "__main__":
    _serve()
    os._exit(0)
