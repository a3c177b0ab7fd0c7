"""
A simulated disk under real Python file objects.

Files below the scratch directory of the run are opened through `Disk.open`,
which builds the usual stack (TextIOWrapper, BufferedReader / -Writer) on a raw
file whose device operations obey the faults of the plan.  os.open() / os.read()
/ os.write() / os.replace() on such files go through the same device.

A fault is {"on": "open" | "read" | "write" | "close" | "rename", ...}:
  {"on": "open", "n": k, "errno": E}     the k-th open fails
  {"on": "read", "at": b, "errno": E}    reading a file at offset b fails
  {"on": "write", "at": b, "errno": E}   writing after b bytes fails (a full disk: ENOSPC); shorter part is stored
  {"on": "close", "n": k, "errno": E}    the k-th close fails (delayed write error)
  {"on": "rename", "n": k, "errno": E}
  {"on": "crash", "at": b}               the process dies after b bytes were written (-1: at the first open for writing)
`chunks` is a list of sizes: what single device reads and writes transfer.
"""
import builtins
import errno
import io
import os

from sim.core import HarnessError


class SimCrash(BaseException):
    """The simulated process died here."""


REAL = {name: getattr(os, name) for name in ("open", "read", "write", "close", "replace", "rename", "fsync")}
REAL_OPEN = io.open


class RawFile(io.FileIO):
    """The device below one open file."""

    def __init__(self, disk, file, mode, closefd=True, opener=None):
        super().__init__(file, mode, closefd, opener)
        self.disk = disk
        self.sim_pos = 0
        self.errors_left = True
        disk.opened.append(self)

    def readinto(self, buf):
        data = self.disk.device_read(self, len(buf), lambda n: io.FileIO.read(self, n))
        buf[:len(data)] = data
        return len(data)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        return self.disk.device_read(self, size, lambda n: io.FileIO.read(self, n))

    def readall(self):
        # as FileIO.readall(): until the end of the file
        out = []
        while True:
            data = self.read(1 << 20)
            if not data:
                return b"".join(out)
            out.append(data)

    def write(self, data):
        data = bytes(data)
        return self.disk.device_write(data, lambda part: io.FileIO.write(self, part))

    def close(self):
        if self.closed:
            return
        super().close()
        self.disk.device_close()

    def __del__(self):
        # as the real thing, but never through the simulated device
        if not self.closed:
            io.FileIO.close(self)


class Disk:
    def __init__(self, root, ctx):
        self.root = os.path.realpath(root)
        self.ctx = ctx
        self.faults = []
        self.chunks = [1 << 20]
        self.buffer = io.DEFAULT_BUFFER_SIZE
        self.opened = []
        self.fds = {}
        self.dead = False
        self.reset()

    def reset(self, faults=(), chunks=None, buffer=None):
        """A new faulty period."""
        self.faults = [dict(f) for f in faults]
        self.chunks = list(chunks or [1 << 20])
        self.buffer = buffer or io.DEFAULT_BUFFER_SIZE
        self.n_chunk = 0
        self.counts = {"open": 0, "close": 0, "rename": 0}
        self.written = 0
        self.opened = []
        self.fired = []

    def leaked(self):
        return [raw.name for raw in self.opened if not raw.closed] + sorted(self.fds.values())

    # -- patches ----------------------------------------------------------

    def __enter__(self):
        builtins.open = io.open = self.open
        os.open, os.read, os.write, os.close = self.os_open, self.os_read, self.os_write, self.os_close
        os.replace, os.rename = self.os_replace, self.os_rename
        return self

    def __exit__(self, *args):
        builtins.open = io.open = REAL_OPEN
        for name, func in REAL.items():
            setattr(os, name, func)
        return False

    def mine(self, file):
        if isinstance(file, int):
            return file in self.fds
        try:
            path = os.path.realpath(os.path.join(os.getcwd(), os.fsdecode(file)))
        except (TypeError, ValueError):
            return False
        return path.startswith(self.root + os.sep)

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if not self.mine(file):
            return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
        bare = "".join(c for c in mode if c not in "bt")
        self.device_open(writing=bare[:1] in ("w", "a", "x") or "+" in bare)
        if isinstance(file, int):
            self.fds.pop(file, None)
        raw = RawFile(self, file, bare, closefd, opener)
        if buffering == 0:
            if "b" not in mode:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = buffering if buffering > 1 else self.buffer
        if "+" in bare:
            buf = io.BufferedRandom(raw, size)
        elif bare[0] == "r":
            buf = io.BufferedReader(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        if "b" in mode:
            return buf
        text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1, write_through=self.buffer != io.DEFAULT_BUFFER_SIZE)
        text.mode = mode
        return text

    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        if dir_fd is not None or not self.mine(path):
            return REAL["open"](path, flags, mode, dir_fd=dir_fd)
        self.device_open(writing=bool(flags & (os.O_WRONLY | os.O_RDWR)))
        fd = REAL["open"](path, flags, mode)
        self.fds[fd] = str(path)
        return fd

    def os_read(self, fd, size):
        if fd not in self.fds:
            return REAL["read"](fd, size)

        class Pos:
            sim_pos = os.lseek(fd, 0, os.SEEK_CUR)
            errors_left = True

        return self.device_read(Pos, size, lambda n: REAL["read"](fd, n))

    def os_write(self, fd, data):
        if fd not in self.fds:
            return REAL["write"](fd, data)
        return self.device_write(bytes(data), lambda part: REAL["write"](fd, part))

    def os_close(self, fd):
        known = self.fds.pop(fd, None)
        REAL["close"](fd)
        if known is not None:
            self.device_close()

    def os_replace(self, src, dst, **kwargs):
        if self.mine(src) or self.mine(dst):
            self.device_rename()
        return REAL["replace"](src, dst, **kwargs)

    def os_rename(self, src, dst, **kwargs):
        if self.mine(src) or self.mine(dst):
            self.device_rename()
        return REAL["rename"](src, dst, **kwargs)

    # -- the device -------------------------------------------------------

    def fire(self, fault):
        name = f"{fault['on']}:{fault.get('errno', 'process')}"
        self.fired.append(name)
        self.ctx.fault(name)
        self.ctx.ev("fault", fault)
        if fault["on"] == "crash":
            self.dead = True
            raise SimCrash("simulated crash")
        code = getattr(errno, fault["errno"], None)
        if code is None:
            raise HarnessError("errno " + fault["errno"])
        raise OSError(code, os.strerror(code))

    def find(self, on, **want):
        for fault in self.faults:
            if fault["on"] == on and all(fault.get(k) == v for k, v in want.items()):
                return fault
        return None

    def alive(self):
        if self.dead:
            raise SimCrash("the simulated process is dead")

    def device_open(self, writing):
        self.alive()
        self.counts["open"] += 1
        fault = self.find("open", n=self.counts["open"])
        if fault:
            self.fire(fault)
        fault = self.find("crash", at=-1)
        if fault and writing:
            self.fire(fault)

    def chunk(self, size):
        part = self.chunks[self.n_chunk % len(self.chunks)]
        self.n_chunk += 1
        if part < size:
            self.ctx.fault("short-transfer")
        return max(1, min(size, part)) if size else 0

    def device_read(self, raw, size, read):
        self.alive()
        want = self.chunk(size)
        for fault in self.faults:
            if fault["on"] == "read" and fault["at"] <= raw.sim_pos + want:
                left = fault["at"] - raw.sim_pos
                if left <= 0:
                    self.fire(fault)
                want = min(want, left)
        data = read(want)
        raw.sim_pos += len(data)
        return data

    def device_write(self, data, write):
        if self.dead:
            return len(data)
        want = self.chunk(len(data))
        for fault in self.faults:
            if fault["on"] in ("write", "crash") and 0 <= fault["at"] <= self.written + want:
                left = fault["at"] - self.written
                if left <= 0:
                    self.fire(fault)
                want = min(want, left)
        done = write(data[:want])
        self.written += done
        return done

    def device_close(self):
        self.alive()
        self.counts["close"] += 1
        fault = self.find("close", n=self.counts["close"])
        if fault:
            self.fire(fault)

    def device_rename(self):
        self.alive()
        self.counts["rename"] += 1
        fault = self.find("rename", n=self.counts["rename"])
        if fault:
            self.fire(fault)


OPEN_ERRORS = ["ENOENT", "EACCES", "EMFILE", "ENFILE", "EIO", "ESTALE", "EISDIR"]
READ_ERRORS = ["EIO", "ESTALE", "ETIMEDOUT", "EISDIR"]
WRITE_ERRORS = ["ENOSPC", "EIO", "EDQUOT", "ESTALE", "EFBIG"]


def chunks(rng):
    """How much single transfers move."""
    r = rng.random()
    if r < 0.4:
        return [1 << 20]
    if r < 0.6:
        return [rng.choice([1, 2, 3, 7, 13])]
    return [rng.choice([1, 3, 10, 64, 100, 511, 4096]) for _ in range(rng.randint(1, 5))]
