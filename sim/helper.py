"""
Processes with a hash seed and memory layout of their own.

`Helpers(seeds)` starts one interpreter per hash seed.  Each answers requests in
forks of itself, so that a request finds the process as it was after start-up;
what "the process did before" is part of the request.
"""
import ctypes
import json
import os
import struct
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ADDR_NO_RANDOMIZE = 0x0040000


def _fixed_addresses():
    # memory addresses are then the same whenever a run is repeated
    try:
        ctypes.CDLL(None).personality(ADDR_NO_RANDOMIZE)
    except Exception:
        pass


def _write(fd, obj):
    data = json.dumps(obj, default=repr).encode("ascii")
    data = struct.pack(">I", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _read(fd):
    def take(size):
        data = b""
        while len(data) < size:
            part = os.read(fd, size - len(data))
            if not part:
                return None
            data += part
        return data

    head = take(4)
    if head is None:
        return None
    data = take(struct.unpack(">I", head)[0])
    return None if data is None else json.loads(data)


class Helpers:
    def __init__(self, seeds):
        self.procs = []
        self.n = 0
        for seed in seeds:
            env = dict(os.environ, PYTHONHASHSEED=str(seed))
            self.procs.append(subprocess.Popen([sys.executable, "-B", "-m", "sim.helper"], cwd=HERE, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, preexec_fn=_fixed_addresses))

    def ask(self, which, request):
        self.n += 1
        number = [os.getpid(), self.n]
        proc = self.procs[which]
        _write(proc.stdin.fileno(), {"number": number, "request": request})
        while True:
            reply = _read(proc.stdout.fileno())
            if reply is None:
                raise OSError("a helper process ended")
            if reply["number"] == number:
                return reply


def answer(request):
    """Do the history, then the work; the results of the work."""
    import random

    from sim import jobs
    from sim.typed import canon

    mod = __import__("ciscoconfparse")
    rng = random.Random(request["noise"])
    keep = []

    def litter():
        # objects which move the addresses of everything made afterwards
        for _ in range(rng.randint(0, 400)):
            keep.append([object() for _ in range(rng.randint(0, 5))] if rng.random() < 0.5 else "x" * rng.randint(1, 600))
        del keep[::3]

    if request["noise"]:
        litter()
    for job in request["history"]:
        jobs.run(mod, job, session=False)
    out = []
    for job in request["work"]:
        if request["noise"]:
            litter()
        first = json.loads(json.dumps(jobs.run(mod, job, session=False), default=canon))
        out.append(first)
    again = [json.loads(json.dumps(jobs.run(mod, job, session=False), default=canon)) for job in request["work"]]
    return [out, again]


def serve():
    from sim import target

    target.setup()
    fd_in, fd_out = os.dup(0), os.dup(1)
    os.dup2(os.open(os.devnull, os.O_RDWR), 0)
    os.dup2(2, 1)
    while True:
        msg = _read(fd_in)
        if msg is None:
            os._exit(0)
        pid = os.fork()
        if pid == 0:
            try:
                reply = {"results": answer(msg["request"])}
            except BaseException as exc:
                import traceback

                reply = {"error": "".join(traceback.format_exception(exc))[-4000:], "repo": _in_repo(exc)}
            _write(fd_out, dict(reply, number=msg["number"]))
            os._exit(0)
        os.waitpid(pid, 0)


def _in_repo(exc):
    from sim.core import tb_in_repo

    return tb_in_repo(exc)


if __name__ == "__main__":
    sys.path.insert(0, HERE)
    serve()
