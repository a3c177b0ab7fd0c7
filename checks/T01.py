"""T01: configurations parsed, searched, edited and saved in parallel threads do not influence each other."""
import json
import os

from checks.common import CCP
from checks.diskcommon import Scratch
from sim import jobs, sched, target
from sim.core import Violation
from sim.twin import Twin

ID = "T01"
RUNS = {"quick": 2600, "thorough": 120000}
RULE = "runs in which at least one thread was preempted inside the code under test; distinct = distinct event histories (schedule and results)"
STATE_MEASURE = "distinct interleavings: sequences of (from thread, to thread, function in which it was preempted)"
REAL = ["ciscoconfparse (parsing, searching, editing, typed attributes, HDiff, Diff, sync_diff, CiscoRange, IP and interface objects, saving and loading)", "hier_config", "loguru (no sinks)", "threads of the interpreter"]
STUB = ["the thread scheduler (a seeded scheduler with a yield point at every source line, call and return of ciscoconfparse)", "threading.Lock and RLock as seen by the code under test", "inspect.stack() does not read source files"]
ASSUMPTIONS = ["the code of third-party modules and of the standard library runs without preemption"]
HASHSEED_DEPENDENT = True      # steps taken depend on the order of sets
ERRORS = {"MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt}


def setup():
    CCP["mod"] = target.setup(before_import=sched.patch_locks)


def generate(rng, tier):
    threads = []
    small = rng.random() < 0.5
    same = rng.random() < 0.25
    for _ in range(rng.choice([2, 2, 2, 3])):
        if same and threads:
            # the same work in several threads
            threads.append(json.loads(json.dumps(threads[0])))
            continue
        work = []
        for _ in range(rng.randint(1, 3)):
            if rng.random() < 0.12:
                job = {"kind": "file", "world": jobs.make(rng, 10, ["parse"])["world"]}
            else:
                job = jobs.make(rng, 8 if small else 16)
            work.append(job)
        threads.append(work)
    kills = []
    if rng.random() < 0.2:
        kills.append([rng.randint(0, len(threads) - 1), int(10 ** (rng.random() * 4.2)), rng.choice(sorted(ERRORS))])
    return {"threads": threads, "switches": sched.switches(rng, 60), "first": round(rng.random(), 3), "kills": kills}


def shrink_paths(plan):
    return [["switches"], ["kills"], ["threads"]] + [["threads", num] for num in range(len(plan["threads"]))]


def simpler(plan):
    for num, work in enumerate(plan["threads"]):
        for pos, job in enumerate(work):
            for key in ("ops", "queries", "old", "new"):
                for cut in range(len(job.get(key, []))):
                    new = json.loads(json.dumps(plan))
                    del new["threads"][num][pos][key][cut]
                    yield new
            lines = job.get("world", {}).get("lines", [])
            for cut in range(len(lines)):
                new = json.loads(json.dumps(plan))
                del new["threads"][num][pos]["world"]["lines"][cut]
                yield new


def run_job(job, num):
    mod = CCP["mod"]
    if job["kind"] != "file":
        return jobs.run(mod, job)
    parse = jobs.open_world(mod, job["world"])
    name = f"thread{num}.conf"
    saved = parse.save_as(name)
    again = mod.CiscoConfParse(name, syntax=job["world"]["syntax"], factory=False, ignore_blank_lines=job["world"]["ignore_blank"])
    return [saved, parse.ioscfg, again.ioscfg, again.ioscfg == parse.ioscfg]


def execute(plan, ctx):
    with Scratch():
        run(plan, ctx)


def solo(request):
    """The results of one thread's work, run alone in a clean process."""
    os.makedirs("solo", exist_ok=True)
    os.chdir("solo")
    return [plain(run_job(job, request["num"])) for job in request["work"]]


def plain(value):
    return json.loads(json.dumps(value, default=repr))


def run(plan, ctx):
    with Twin(solo) as twin:
        wanted = [twin.ask({"num": num, "work": work}) for num, work in enumerate(plan["threads"])]
    scheduler = sched.Scheduler(ctx, plan["switches"], plan["first"], [(num, at, ERRORS[name]) for num, at, name in plan["kills"]])

    def body(num, work):
        def fn():
            return [plain(run_job(job, num)) for job in work]

        return fn

    for num, work in enumerate(plan["threads"]):
        scheduler.spawn(f"thread {num}", body(num, work))
    results = scheduler.run()
    if scheduler.preempted:
        ctx.nontrivial = True
    ctx.ev("results", results)
    for num, (thread, got, want) in enumerate(zip(scheduler.threads, results, wanted)):
        if thread.killed and got is None:
            continue
        for job, one, ref in zip(plan["threads"][num], got, want):
            ctx.probe("job:" + job["kind"])
            if thread.killed and one != ref:
                continue        # the injected error was swallowed in this job
            if one != ref:
                raise Violation("threads-interfere", f"thread {num}, job {json.dumps(job)[:1500]} gave\n {json.dumps(one)[:2500]}\nalone it gives\n {json.dumps(ref)[:2500]}", key=job["kind"])
