"""T02: concurrent searches of one configuration return what sequential ones do."""
import json

from checks.common import CCP
from checks.diskcommon import Scratch
from sim import gen, jobs, model, reads, sched, target, typed
from sim.core import Violation
from sim.twin import Twin

ID = "T02"
RUNS = {"quick": 4000, "thorough": 120000}
RULE = "runs in which at least one reader was preempted inside the code under test; distinct = distinct event histories (schedule and results)"
STATE_MEASURE = "distinct interleavings: sequences of (from thread, to thread, function in which it was preempted)"
REAL = ["ciscoconfparse (searches, attributes of typed and untyped lines, tables, listings, sync_diff, saving)", "hier_config", "loguru (no sinks)", "threads of the interpreter"]
STUB = ["the thread scheduler (a seeded scheduler with a yield point at every source line, call and return of ciscoconfparse)", "threading.Lock and RLock as seen by the code under test", "inspect.stack() does not read source files"]
ASSUMPTIONS = ["the code of third-party modules and of the standard library runs without preemption"]
HASHSEED_DEPENDENT = True      # steps taken depend on the order of sets
ERRORS = {"MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt}


def setup():
    CCP["mod"] = target.setup(before_import=sched.patch_locks)


def generate(rng, tier):
    plan = {"world": jobs.make(rng, rng.choice([6, 14, 24]), ["parse", "typed"])["world"]}
    if rng.random() < 0.12:
        plan["world"] = {"syntax": "junos", "factory": rng.random() < 0.4, "ignore_blank": rng.random() < 0.6, "lines": gen.junos_render(gen.junos(rng, rng.randint(1, 20)))}
    world = plan["world"]
    pool = [reads.make(rng, world["syntax"], world["factory"], lines=world["lines"]) for _ in range(rng.randint(2, 8))]
    plan["threads"] = []
    for num in range(rng.choice([2, 2, 3, 4])):
        work = []
        for _ in range(rng.randint(1, 6)):
            read = rng.choice(pool) if rng.random() < 0.5 else reads.make(rng, world["syntax"], world["factory"], lines=world["lines"])
            if read["r"] == "save":
                read = dict(read, name=f"save{num}-{len(work)}")
            work.append(read)
        plan["threads"].append(work)
    plan["kills"] = [[rng.randint(0, 3), int(10 ** (rng.random() * 3.7)), rng.choice(sorted(ERRORS))]] if rng.random() < 0.2 else []
    plan["switches"] = sched.switches(rng, 60)
    plan["first"] = round(rng.random(), 3)
    return plan


def shrink_paths(plan):
    return [["switches"], ["kills"], ["threads"]] + [["threads", num] for num in range(len(plan["threads"]))] + [["world", "lines"]]


def plain(value):
    return json.loads(json.dumps(value, default=repr))


def place_of(parse):
    return {id(obj): num for num, obj in enumerate(parse.ConfigObjs)}


def sequential(request):
    """All reads, one after another, each on its own parse of the same text."""
    out = []
    for work in request["threads"]:
        row = []
        for read in work:
            parse = jobs.open_world(CCP["mod"], request["world"])
            row.append(plain(reads.run(parse, read, place_of(parse))))
        out.append(row)
    parse = jobs.open_world(CCP["mod"], request["world"])
    return {"reads": out, "graph": model.real_graph(parse), "all": plain(typed.everything(parse))}


def execute(plan, ctx):
    with Scratch(), Twin(sequential) as twin:
        wanted = twin.ask({"world": plan["world"], "threads": plan["threads"]})
        parse = jobs.open_world(CCP["mod"], plan["world"])
        place = place_of(parse)
        objects = list(parse.ConfigObjs)
        scheduler = sched.Scheduler(ctx, plan["switches"], plan["first"], [(num, at, ERRORS[name]) for num, at, name in plan["kills"]])

        def body(work, results):
            def fn():
                for read in work:
                    results.append(plain(reads.run(parse, read, place)))

            return fn

        results = [[] for _ in plan["threads"]]
        for num, work in enumerate(plan["threads"]):
            scheduler.spawn(f"reader {num}", body(work, results[num]))
        scheduler.run()
        if scheduler.preempted:
            ctx.nontrivial = True
        ctx.ev("results", results)
        for num, thread in enumerate(scheduler.threads):
            for read, got, want in zip(plan["threads"][num], results[num], wanted["reads"][num]):
                ctx.probe("read:" + read["r"])
                if got != want:
                    if thread.killed:
                        continue        # the injected error was swallowed in this read
                    raise Violation("concurrent-read-differs", f"reader {num}: {json.dumps(read)} gave\n {json.dumps(got)[:2500]}\nalone it gives\n {json.dumps(want)[:2500]}\n in {plan['world']['lines']}",
                                    key=read.get("q", {}).get("m", read["r"]))
        if [id(o) for o in parse.ConfigObjs] != [id(o) for o in objects] or model.real_graph(parse) != wanted["graph"]:
            raise Violation("reads-changed-config", f"concurrent reads changed the configuration {plan['world']['lines']}\n to {model.real_graph(parse)}", key="graph")
        got = plain(typed.everything(parse))
        if got != wanted["all"]:
            raise Violation("reads-changed-config", "after concurrent reads an attribute has another value: " + difference(got, wanted["all"]), key="attributes")


def difference(got, want, path=""):
    """The first place where two JSON values differ."""
    if type(got) is type(want) and isinstance(got, dict):
        for key in sorted(set(got) | set(want)):
            if got.get(key, "(missing)") != want.get(key, "(missing)"):
                return difference(got.get(key, "(missing)"), want.get(key, "(missing)"), f"{path}.{key}")
    if type(got) is type(want) and isinstance(got, list) and len(got) == len(want):
        for num, (a, b) in enumerate(zip(got, want)):
            if a != b:
                return difference(a, b, f"{path}[{num}]")
    return f"at {path}: {json.dumps(got)[:500]} instead of {json.dumps(want)[:500]}"
