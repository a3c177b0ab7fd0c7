"""
Core of the deterministic simulator: runs, results, isolation, shrinking.

One simulated run is a pure function of (plan, code under test,
PYTHONHASHSEED).  A plan is a JSON document made by `generate(rng, tier)` of a
check module from one PRNG; `execute(plan, ctx)` runs it.  Every run happens in
a process forked from a worker which has imported the code under test, so that
no run sees what another one left behind (module level caches, log handlers,
class attributes...).
"""
import hashlib
import json
import os
import random
import resource
import select
import signal
import sys
import time as _time

# the real clock, kept before any check replaces the functions in `time`
real_time = _time.time
real_monotonic = _time.monotonic

REPO = os.environ.get("VERIF_REPO", "/repo")
CPU_LIMIT_S = 40         # CPU seconds which a single run may use (a check can name another limit)
WALL_LIMIT_S = 150       # wall seconds which a single run may use


class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, kind, msg="", key=""):
        super().__init__(kind, msg)
        self.kind = kind
        self.msg = str(msg)
        self.key = key      # identifies the failing input / site (known findings)


class HarnessError(Exception):
    """The simulator (not the code under test) misbehaved."""


def jdump(obj):
    return json.dumps(obj, sort_keys=True, ensure_ascii=True, default=repr)


def digest(obj):
    if not isinstance(obj, (str, bytes)):
        obj = jdump(obj)
    if isinstance(obj, str):
        obj = obj.encode("utf-8", "surrogatepass")
    return hashlib.sha256(obj).hexdigest()[:16]


class Ctx:
    """What a run records.  Nothing here draws randomness or reads a clock."""

    def __init__(self, keep_log=False):
        self.keep_log = keep_log
        self.log = []
        self._h = hashlib.sha256()
        self.n_events = 0
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.simtime = 0.0
        self.steps = 0
        self.nontrivial = False
        self.extra = {}

    def ev(self, *parts):
        """Append one event to the history of this run."""
        line = " ".join(p if isinstance(p, str) else jdump(p) for p in parts)
        self.n_events += 1
        self._h.update(line.encode("utf-8", "surrogatepass") + b"\n")
        if self.keep_log:
            self.log.append(line)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.nontrivial = True

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, obj):
        self.states.add(digest(obj))

    def result(self):
        return {
            "status": "ok",
            "faults": self.faults,
            "probes": self.probes,
            "states": sorted(self.states),
            "simtime": self.simtime,
            "steps": self.steps,
            "nontrivial": self.nontrivial,
            "trace": self._h.hexdigest()[:16],
            "events": self.n_events,
            "log": self.log,
            "extra": self.extra,
        }


def tb_in_repo(exc):
    """True if a frame of the code under test is in the traceback of exc."""
    prefix = os.path.join(os.path.realpath(REPO), "ciscoconfparse") + os.sep
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        tb = exc.__traceback__
        while tb is not None:
            if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(prefix):
                return True
            tb = tb.tb_next
        exc = exc.__cause__ or exc.__context__
    return False


def rng_for(seed, pid, index):
    return random.Random(f"{seed}/{pid}/{index}")


def make_plan(mod, seed, index, tier):
    rng = rng_for(seed, mod.ID, index)
    plan = mod.generate(rng, tier)
    # plans must survive the trip through a replay file
    return json.loads(json.dumps(plan))


def _run_in_child(mod, plan, keep_log):
    """Executed in the forked child; returns a result dict."""
    ctx = Ctx(keep_log=keep_log)
    try:
        mod.execute(plan, ctx)
        return ctx.result()
    except Violation as exc:
        res = ctx.result()
        res.update(status="violation", kind=exc.kind, msg=exc.msg[:6000], key=exc.key)
        return res
    except HarnessError as exc:
        res = ctx.result()
        res.update(status="harness", kind="HarnessError", msg=repr(exc))
        return res
    except BaseException as exc:
        import traceback

        text = "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))
        res = ctx.result()
        if tb_in_repo(exc):
            res.update(status="violation", kind="unexpected-exception:" + type(exc).__name__, msg=text[-6000:], key=type(exc).__name__)
        else:
            res.update(status="harness", kind=type(exc).__name__, msg=text[-6000:])
        return res


def _child_main(mod, make, keep_log, wfd):
    try:
        sys.setrecursionlimit(4000)
        used = resource.getrusage(resource.RUSAGE_SELF)
        soft = int(used.ru_utime + used.ru_stime) + getattr(mod, "CPU_LIMIT_S", CPU_LIMIT_S)
        resource.setrlimit(resource.RLIMIT_CPU, (soft, soft + 20))
        plan = make()
        res = _run_in_child(mod, plan, keep_log)
        data = json.dumps(res, default=repr).encode("ascii", "backslashreplace")
    except BaseException as exc:
        data = json.dumps({"status": "harness", "kind": "child", "msg": repr(exc)}).encode()
    view = memoryview(data)
    while len(view):
        n = os.write(wfd, view)
        view = view[n:]
    os.close(wfd)
    os._exit(0)


def fork_run(mod, make, keep_log=False):
    """Run one plan in a forked child; `make()` returns the plan."""
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        _child_main(mod, make, keep_log, wfd)
    os.close(wfd)
    chunks = []
    deadline = real_monotonic() + WALL_LIMIT_S
    timed_out = False
    while True:
        left = deadline - real_monotonic()
        if left <= 0:
            timed_out = True
            os.kill(pid, signal.SIGKILL)
            break
        ready, _, _ = select.select([rfd], [], [], min(left, 5.0))
        if ready:
            data = os.read(rfd, 1 << 16)
            if not data:
                break
            chunks.append(data)
    os.close(rfd)
    _, status = os.waitpid(pid, 0)
    if timed_out:
        return {"status": "stuck", "kind": "no-progress", "msg": f"the run did not finish within {WALL_LIMIT_S} s"}
    if os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        if sig == signal.SIGXCPU or sig == signal.SIGKILL:
            return {"status": "stuck", "kind": "no-progress", "msg": f"the run used more than {getattr(mod, 'CPU_LIMIT_S', CPU_LIMIT_S)} s of CPU time (signal {sig})"}
        return {"status": "violation", "kind": f"died-signal-{sig}", "msg": "the interpreter died in this run", "key": ""}
    try:
        return json.loads(b"".join(chunks).decode("ascii"))
    except ValueError:
        return {"status": "harness", "kind": "result", "msg": f"unreadable result, exit status {status}"}


def is_violation(res):
    return res["status"] in ("violation", "stuck")


# ---------------------------------------------------------------------------
# shrinking
# ---------------------------------------------------------------------------

def _get(plan, path):
    for part in path:
        plan = plan[part]
    return plan


def _with(plan, path, value):
    new = json.loads(json.dumps(plan))
    cur = new
    for part in path[:-1]:
        cur = cur[part]
    cur[path[-1]] = value
    return new


def shrink(mod, plan, kind, budget_s=60.0, max_tries=600):
    """Minimise `plan` while the same kind of violation persists."""
    start = real_monotonic()
    tries = 0

    def still(candidate):
        nonlocal tries
        if tries >= max_tries or real_monotonic() - start > budget_s:
            return False
        tries += 1
        try:
            res = fork_run(mod, lambda: candidate)
        except OSError:
            return False
        return is_violation(res) and res["kind"] == kind

    if kind == "no-progress":
        # every try costs the whole time limit
        max_tries = 3
        budget_s = 120

    improved = True
    while improved and tries < max_tries and real_monotonic() - start < budget_s:
        improved = False
        paths = mod.shrink_paths(plan) if hasattr(mod, "shrink_paths") else [["ops"]]
        for path in paths:
            try:
                items = _get(plan, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(items, list) or not items:
                continue
            size = max(1, len(items) // 2)
            while size >= 1:
                pos = 0
                while pos < len(items):
                    candidate = _with(plan, path, items[:pos] + items[pos + size:])
                    if still(candidate):
                        plan = candidate
                        items = _get(plan, path)
                        improved = True
                    else:
                        pos += size
                size //= 2
        if hasattr(mod, "simpler"):
            for candidate in mod.simpler(plan):
                if still(candidate):
                    plan = candidate
                    improved = True
                    break
    return plan, tries
