"""
Log destinations under the control of the simulator.

loguru runs for real.  Its sinks are objects which fail on schedule; its queue
(enqueue=True) and the thread which empties it are replaced by a queue which the
simulator empties at the points which the plan names.
"""
import errno
import pickle
import sys
import types

ERRORS = {
    "ENOSPC": lambda: OSError(errno.ENOSPC, "No space left on device"),
    "EPIPE": lambda: BrokenPipeError(errno.EPIPE, "Broken pipe"),
    "closed": lambda: ValueError("I/O operation on closed file."),
    "unicode": lambda: UnicodeEncodeError("ascii", "\u00e9", 0, 1, "ordinal not in range(128)"),
    "memory": lambda: MemoryError(),
    "type": lambda: TypeError("the sink is broken"),
    "recursion": lambda: RecursionError("maximum recursion depth exceeded"),
}


class Sink:
    """A stream; `faults` is a list of [first message, how many, error]."""

    def __init__(self, world, spec):
        self.world = world
        self.spec = spec
        self.seen = 0

    def write(self, message):
        num = self.seen
        self.seen += 1
        self.world.messages += 1
        for at, what in self.spec.get("switches", []):
            if at == num and not self.world.emptying:
                self.world.control(what)
        for first, count, error in self.spec.get("faults", []):
            if first <= num < first + count:
                self.world.ctx.fault("sink:" + error)
                raise ERRORS[error]()

    def flush(self):
        if self.spec.get("bad_flush"):
            self.world.ctx.fault("sink-flush")
            raise ERRORS[self.spec["bad_flush"]]()

    def isatty(self):
        return bool(self.spec.get("tty"))

    def stop(self):
        pass


class _Queue:
    """Stands for multiprocessing.SimpleQueue: pickles, but the simulator empties it."""

    def __init__(self, world):
        self.world = world
        self.items = []
        self.puts = 0
        world.queues.append(self)

    def put(self, item):
        self.puts += 1
        data = pickle.dumps(item)
        if item is not None and item is not True and self.world.queue_faults and self.puts in self.world.queue_faults:
            self.world.ctx.fault("queue-broken")
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        self.items.append(data)
        if self.world.drain_every and self.puts % self.world.drain_every == 0 and item is not None:
            self.world.drain()

    def get(self):
        return pickle.loads(self.items.pop(0)) if self.items else None

    def close(self):
        pass


class _Lock:
    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False

    def acquire(self, *args):
        return True

    def release(self):
        pass


class _Event:
    def wait(self):
        pass

    def set(self):
        pass

    def clear(self):
        pass


class _Thread:
    def __init__(self, world, target):
        self.world, self.target = world, target

    def start(self):
        self.world.writers.append(self.target)

    def join(self):
        # (loguru holds its lock)
        self.world.emptying += 1
        try:
            self.target()
        finally:
            self.world.emptying -= 1


class _Stderr:
    """Where loguru reports that a sink failed."""

    def __init__(self, world, broken):
        self.world, self.broken = world, broken

    def write(self, text):
        if self.broken:
            raise OSError(errno.EIO, "Input/output error")
        return len(text)

    def flush(self):
        pass


class World:
    def __init__(self, ctx, mod, plan):
        self.ctx, self.mod = ctx, mod
        self.queues, self.writers, self.ids = [], [], []
        self.messages = 0
        self.emptying = 0       # messages are written by the queue's thread
        self.draining = False
        self.drain_every = plan.get("drain_every", 0)
        self.queue_faults = set(plan.get("queue_faults", []))
        self.stderr = plan.get("stderr", "good")

    def __enter__(self):
        import loguru._handler as handler

        self.saved = (handler.multiprocessing, handler.Thread, sys.stderr, sys.stdout)
        handler.multiprocessing = types.SimpleNamespace(SimpleQueue=lambda: _Queue(self), Event=_Event, Lock=_Lock)
        handler.Thread = lambda target, daemon, name: _Thread(self, target)
        sys.stderr = None if self.stderr == "none" else _Stderr(self, self.stderr == "broken")
        sys.stdout = _Stderr(self, False)
        return self

    def __exit__(self, *args):
        import loguru
        import loguru._handler as handler

        sys.stderr, sys.stdout = self.saved[2:]
        try:
            loguru.logger.remove()
        except Exception as exc:
            self.ctx.ev("remove", type(exc).__name__)
        handler.multiprocessing, handler.Thread = self.saved[:2]
        return False

    def drain(self):
        if self.draining:
            return
        self.draining = True
        self.emptying += 1
        try:
            for writer in self.writers:
                writer()
        finally:
            self.draining = False
            self.emptying -= 1

    def control(self, step):
        """One change of the logging set-up."""
        from loguru import logger

        util = sys.modules["ciscoconfparse.ccp_util"]
        what = step["c"]
        self.ctx.fault("logging:" + what + ":" + step.get("via", ""))
        if what == "add":
            sink = Sink(self, step["sink"])
            via = step["via"]
            if via == "control":
                self.ids += util.ccp_logger_control(sink=sink, action="add", enqueue=step["enqueue"], read_only=step["read_only"], debug=step["debug"])
            elif via == "configure":
                # it logs to the standard output of the moment
                keep, sys.stdout = sys.stdout, sink
                try:
                    self.ids += util.configure_loguru(read_only=step["read_only"])
                finally:
                    sys.stdout = keep
            else:
                self.ids.append(logger.add(sink if step["stream"] else sink.write, level=step["level"], enqueue=step["enqueue"], diagnose=step["diagnose"], backtrace=step["backtrace"], serialize=step["serialize"], catch=True))
        elif what == "remove":
            if self.ids:
                number = self.ids.pop(step["n"] % len(self.ids))
                try:
                    if step["via"] == "control":
                        util.ccp_logger_control(action="remove", active_handlers=[number])
                    else:
                        logger.remove(number)
                except ValueError:
                    pass        # it is gone already
        elif what == "remove_all":
            logger.remove()
        elif what in ("disable", "enable"):
            if step["via"] == "control":
                util.ccp_logger_control(action=what)
            else:
                getattr(logger, what)("ciscoconfparse")
        elif what == "drain":
            self.drain()
        else:
            raise AssertionError(what)


def _faults(rng):
    r = rng.random()
    if r < 0.2:
        return []
    if r < 0.5:
        return [[0, 10 ** 9, rng.choice(sorted(ERRORS))]]
    return [[rng.randint(0, 12), rng.choice([1, 1, 3, 10 ** 6]), rng.choice(sorted(ERRORS))] for _ in range(rng.randint(1, 4))]


def make_control(rng):
    r = rng.random()
    if r < 0.6:
        return {"c": "add", "via": rng.choice(["loguru", "loguru", "control", "configure"]), "enqueue": rng.random() < 0.3, "read_only": rng.random() < 0.3, "debug": rng.choice([0, 0, 1]), "stream": rng.random() < 0.7,
                "level": rng.choice(["DEBUG", "DEBUG", "INFO", "ERROR", "CRITICAL", 5]), "diagnose": rng.random() < 0.6, "backtrace": rng.random() < 0.5, "serialize": rng.random() < 0.25,
                "sink": {"faults": _faults(rng), "tty": rng.random() < 0.3, "bad_flush": rng.choice([None, None, None, "ENOSPC"]),
                         "switches": [[rng.randint(0, 20), {"c": rng.choice(["disable", "enable"]), "via": "loguru"}] for _ in range(rng.choice([0, 0, 0, 1, 2]))]}}
    if r < 0.68:
        return {"c": "remove", "n": rng.randint(0, 9), "via": rng.choice(["control", "loguru"])}
    if r < 0.74:
        return {"c": "remove_all"}
    if r < 0.8:
        return {"c": "drain"}
    return {"c": rng.choice(["disable", "enable", "enable"]), "via": rng.choice(["control", "loguru"])}
