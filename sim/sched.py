"""
A deterministic scheduler for threads which run the code under test.

Every simulated thread is a real thread, but only the one which holds the baton
runs; the others wait on a semaphore of their own.  While a thread runs code
under test, it reaches a yield point at every source line (or every byte code),
where the plan may take the baton away from it and hand it to another thread.
A plan holds explicit preemptions, [steps since the last one, which thread],
so a run is repeatable exactly, and the shrinker can take preemptions away.
When the preemptions are used up, the threads run to their end one by one.

Locks which the code under test makes are replaced by SimLock, with which a
blocked thread gives the baton away; threads which all wait are a deadlock.
"""
import _thread
import os
import sys
import threading

from sim.core import REPO, HarnessError, Violation

CURRENT = None          # the running Scheduler
STEP_LIMIT = 6_000_000


class Killed(BaseException):
    """Ends the threads of a simulation which is over."""


class _Thread:
    def __init__(self, num, name, fn):
        self.num, self.name, self.fn = num, name, fn
        self.go = _thread.allocate_lock()
        self.go.acquire()
        self.done = False
        self.blocked = None     # predicate; the thread can go on once it is true
        self.gave_up = False
        self.exc = None
        self.result = None
        self.steps = 0
        self.kill_at = None
        self.kill_error = None
        self.killed = False
        self.ident = None


class Scheduler:
    def __init__(self, ctx, switches, first=0.0, kills=(), victims=None):
        self.ctx = ctx
        self.switches = [(max(1, int(gap)), float(frac)) for gap, frac in switches]
        self.first = first
        self.victims = victims  # the threads which may be preempted (None: all)
        self.kills = kills
        self.prefix = os.path.join(os.path.realpath(REPO), "ciscoconfparse") + os.sep
        self.files = {}
        self.threads = []
        self.now = None         # the thread which holds the baton
        self.steps = 0
        self.next = 0           # next entry of switches
        self.left = self.switches[0][0] if self.switches else -1
        self.finished = _thread.allocate_lock()
        self.finished.acquire()
        self.over = None        # why the simulation has to end early
        self.path = []
        self.preempted = 0
        self.overlap = False

    def script(self, switches):
        """The preemptions from now on."""
        self.switches = [(max(1, int(gap)), float(frac)) for gap, frac in switches]
        self.next = 0
        self.left = self.switches[0][0] if self.switches else -1

    # -- yield points -----------------------------------------------------

    def _ours(self, filename):
        ours = self.files.get(filename)
        if ours is None:
            ours = self.files[filename] = os.path.realpath(filename).startswith(self.prefix)
        return ours

    def _call(self, frame, event, arg):
        if not self._ours(frame.f_code.co_filename):
            return None
        return self._local(frame, "line", arg)

    def _local(self, frame, event, arg):
        if event == "line" or event == "return":
            thread = self.now
            self.steps += 1
            thread.steps += 1
            if self.over is not None:
                raise Killed()
            if self.steps > STEP_LIMIT:
                self.over = Violation("no-progress", f"the threads did not finish within {STEP_LIMIT} steps; in {frame.f_code.co_name}", key="steps")
                raise Killed()
            if thread.steps == thread.kill_at:
                thread.killed = True
                self.ctx.fault("thread killed")
                self.path.append((thread.num, "killed", frame.f_code.co_name))
                raise thread.kill_error("injected")
            if self.left > 0 and (self.victims is None or thread.num in self.victims):
                self.left -= 1
                if self.left == 0:
                    self._preempt(frame)
        return self._local

    def _preempt(self, frame):
        frac = self.switches[self.next][1]
        self.next += 1
        self.left = self.switches[self.next][0] if self.next < len(self.switches) else -1
        others = [t for t in self.threads if not t.done and t is not self.now and self._ready(t)]
        if not others:
            return
        target = others[min(int(frac * len(others)), len(others) - 1)]
        self.preempted += 1
        self.ctx.fault("preemption")
        self.path.append((self.now.num, target.num, frame.f_code.co_name))
        self._switch(target)

    # -- handing the baton over -------------------------------------------

    def _ready(self, thread):
        if thread.blocked is None:
            return True
        tracer = sys.gettrace()
        sys.settrace(None)
        try:
            return bool(thread.blocked())
        finally:
            sys.settrace(tracer)

    def _switch(self, target):
        me = self.now
        self.now = target
        target.go.release()
        me.go.acquire()
        if self.over is not None:
            raise Killed()

    def _leave(self):
        """The running thread has ended: another one continues."""
        me = self.now
        me.done = True
        alive = [t for t in self.threads if not t.done]
        if not alive:
            self.finished.release()
            return
        ready = alive if self.over is not None else [t for t in alive if self._ready(t)]
        if not ready:
            waiting = [t for t in alive if t.gave_up is None]
            if waiting:
                waiting[0].gave_up = True
                ready = waiting
            else:
                self.over = Violation("deadlock", "threads wait for each other: " + ", ".join(t.name for t in alive), key="deadlock")
                ready = alive
        self.now = ready[0]
        self.path.append((me.num, ready[0].num, "end"))
        ready[0].go.release()

    def wait(self, predicate, timeout=False):
        """The running thread waits until predicate() holds; others run meanwhile."""
        me = self.now
        me.blocked = predicate
        me.gave_up = None if timeout else False
        try:
            while not self._ready(me):
                if me.gave_up:
                    return False
                others = [t for t in self.threads if not t.done and t is not me and self._ready(t)]
                if not others:
                    waiting = [t for t in self.threads if not t.done and t.gave_up is None]
                    if me in waiting:
                        return False
                    if waiting:
                        waiting[0].gave_up = True
                        others = waiting
                    else:
                        self.over = Violation("deadlock", f"{me.name} waits, and no thread can run", key="deadlock")
                        raise Killed()
                self.path.append((me.num, others[0].num, "wait"))
                self._switch(others[0])
            return True
        finally:
            me.blocked = None
            me.gave_up = False

    def pause(self, frac):
        """A yield point of the harness itself."""
        others = [t for t in self.threads if not t.done and t is not self.now and self._ready(t)]
        if others:
            self._switch(others[min(int(frac * len(others)), len(others) - 1)])

    # -- running ----------------------------------------------------------

    def spawn(self, name, fn):
        self.threads.append(_Thread(len(self.threads), name, fn))

    def _main(self, thread):
        thread.go.acquire()
        thread.ident = _thread.get_ident()
        try:
            if self.over is None:
                sys.settrace(self._call)
                try:
                    thread.result = thread.fn()
                finally:
                    sys.settrace(None)
        except Killed:
            pass
        except BaseException as exc:
            sys.settrace(None)
            thread.exc = exc
        self._leave()

    def run(self):
        """Run all threads to their end; raises what the first failing one raised."""
        global CURRENT
        for num, steps, error in self.kills:
            if self.threads:
                victim = self.threads[num % len(self.threads)]
                victim.kill_at, victim.kill_error = steps, error
        old = threading.stack_size(64 * 1024 * 1024)
        CURRENT = self
        try:
            for thread in self.threads:
                _thread.start_new_thread(self._main, (thread,))
            self.now = self.threads[min(int(self.first * len(self.threads)), len(self.threads) - 1)]
            self.now.go.release()
            self.finished.acquire()
        finally:
            CURRENT = None
            threading.stack_size(old)
        self.ctx.steps += self.steps
        self.ctx.state(self.path)
        self.ctx.ev("schedule", self.steps, self.path)
        if self.over is not None:
            raise self.over
        for thread in self.threads:
            if thread.exc is not None and not thread.killed:
                raise thread.exc
        return [t.result for t in self.threads]


def _simulated():
    """The scheduler, if the calling thread is the simulated one which runs."""
    sched = CURRENT
    if sched is not None and sched.now is not None and sched.now.ident == _thread.get_ident():
        return sched
    return None


class SimLock:
    """threading.Lock for the code under test."""

    def __init__(self):
        self._real = _thread.allocate_lock()

    def acquire(self, blocking=True, timeout=-1):
        if self._real.acquire(False):
            return True
        if not blocking:
            return False
        sched = _simulated()
        if sched is None:
            return self._real.acquire(True, timeout)
        if not sched.wait(lambda: not self._real.locked(), timeout is not None and timeout >= 0):
            return False
        return self._real.acquire(False)

    def release(self):
        self._real.release()

    def locked(self):
        return self._real.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *args):
        self.release()

    def _at_fork_reinit(self):
        self._real = _thread.allocate_lock()


class SimRLock:
    """threading.RLock for the code under test."""

    def __init__(self):
        self._lock = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._lock.acquire(blocking, timeout):
            self._owner, self._count = me, 1
            return True
        return False

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            self._lock.release()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *args):
        self.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        state = (self._count, self._owner)
        self._count, self._owner = 0, None
        self._lock.release()
        return state

    def _acquire_restore(self, state):
        self._lock.acquire()
        self._count, self._owner = state

    def _at_fork_reinit(self):
        self._lock._at_fork_reinit()
        self._owner, self._count = None, 0


def patch_locks():
    """Before the code under test is imported: it gets simulated locks."""
    threading.Lock = SimLock
    threading.RLock = SimRLock


def switches(rng, most=40):
    """Preemptions of a plan: some runs have few and far ones, some many and close ones, some bursts."""
    if rng.random() < 0.3:
        out = []
        for _ in range(rng.randint(1, 4)):
            out.append([int(10 ** (rng.random() * 4.2)), round(rng.random(), 3)])
            top = rng.choice([0.7, 1.3, 2.0, 2.6])
            out.extend([int(10 ** (rng.random() * top)), round(rng.random(), 3)] for _ in range(rng.randint(2, most // 3)))
        return out
    count = int(round(most ** rng.random())) if rng.random() < 0.7 else rng.randint(0, most)
    top = rng.choice([1.0, 1.5, 2.0, 2.7, 3.5, 4.0])
    return [[int(10 ** (rng.random() * top)), round(rng.random(), 3)] for _ in range(count)]


__all__ = ["Scheduler", "SimLock", "SimRLock", "patch_locks", "switches", "HarnessError"]
