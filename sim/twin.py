"""
A clean process to compare with: forked before the run touches the code under
test, it answers every request in a fork of its own, so that nothing of the run
and nothing of an earlier request can influence the answer.
"""
import json
import os
import struct

from sim.core import HarnessError


def _send(fd, obj):
    data = json.dumps(obj).encode("ascii")
    data = struct.pack(">I", len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _recv(fd):
    head = b""
    while len(head) < 4:
        part = os.read(fd, 4 - len(head))
        if not part:
            return None
        head += part
    size = struct.unpack(">I", head)[0]
    data = b""
    while len(data) < size:
        part = os.read(fd, size - len(data))
        if not part:
            return None
        data += part
    return json.loads(data)


class Twin:
    """Twin(fn): ask(request) returns what fn(request) gives in a clean process."""

    def __init__(self, fn):
        down, self.to = os.pipe()
        self.back, up = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.to)
            os.close(self.back)
            self._serve(fn, down, up)
        os.close(down)
        os.close(up)

    @staticmethod
    def _serve(fn, down, up):
        while True:
            request = _recv(down)
            if request is None:
                os._exit(0)
            pid = os.fork()
            if pid == 0:
                try:
                    answer = ["ok", fn(request)]
                except BaseException as exc:
                    import traceback

                    answer = ["error", "".join(traceback.format_exception(exc))[-3000:]]
                _send(up, answer)
                os._exit(0)
            os.waitpid(pid, 0)

    def ask(self, request):
        _send(self.to, request)
        answer = _recv(self.back)
        if answer is None:
            raise HarnessError("the clean process ended")
        if answer[0] != "ok":
            raise HarnessError("in the clean process: " + answer[1])
        return answer[1]

    def close(self):
        os.close(self.to)
        os.close(self.back)
        os.waitpid(self.pid, 0)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()
        return False
