"""T03: a reader overlapping a commit sees the old or the new configuration whole."""
import json

from checks.common import CCP
from checks.diskcommon import Scratch
from sim import edits, jobs, reads, sched, search, target, typed
from sim.core import Violation
from sim.twin import Twin

ID = "T03"
RUNS = {"quick": 6000, "thorough": 120000}
RULE = "runs in which a read overlapped a commit; distinct = distinct event histories (schedule and results)"
STATE_MEASURE = "distinct interleavings: sequences of (from thread, to thread, function in which it was preempted)"
REAL = ["ciscoconfparse (commits, committing edits, searches, listings, attributes, saving)", "loguru (no sinks)", "threads of the interpreter"]
STUB = ["the thread scheduler (a seeded scheduler with a yield point at every source line, call and return of ciscoconfparse)", "threading.Lock and RLock as seen by the code under test", "inspect.stack() does not read source files"]
ASSUMPTIONS = ["the code of third-party modules and of the standard library runs without preemption", "edits themselves do not overlap reads (the clients take turns); commits do",
               "a read is one call of the API"]
HASHSEED_DEPENDENT = True      # steps taken depend on the order of sets
ERRORS = {"MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt}
COMMITS = ["commit", "commit", "commit", "atomic"]
LISTINGS = ["ioscfg1", "ioscfg2", "iter", "len1", "graph", "all_parents", "objs", "last", "names", "object_group_network", "access_list", "dna", "intf"]

# searches whose result depends on the families of all lines
BROAD = [{"m": m, "a": a, "b": b} for m in ("find_objects_w_child", "find_objects_wo_child", "find_parent_objects", "find_parent_objects_wo_child", "find_child_objects", "find_children_w_parents", "find_parents_w_child", "find_parents_wo_child",
                                            "find_objects_w_parents") for a, b in ((".", "."), (".", "\\d"), ("^\\S", "."))]


def setup():
    CCP["mod"] = target.setup(before_import=sched.patch_locks)


def make_read(rng, world, name):
    r = rng.random()
    if r < 0.16:
        return {"r": "search", "q": {"m": rng.choice(["find_objects", "find_children", "find_all_children"]), "a": rng.choice([".", "^\\S", "^\\s"])}}
    if r < 0.29:
        return {"r": "search", "q": rng.choice(BROAD)}
    if r < 0.36:
        return {"r": "list", "what": rng.choice(["iter", "graph", "all_parents"])}
    if r < 0.68:
        return {"r": "search", "q": search.make(rng, world["syntax"], world["lines"])}
    if r < 0.73:
        return {"r": "attributes", "line": rng.randint(0, 999)}
    if r < 0.77:
        return {"r": "attribute", "line": rng.randint(0, 999), "name": rng.randint(0, 999)}
    if r < 0.82:
        return {"r": "save", "name": name}
    return {"r": "list", "what": rng.choice(LISTINGS)}


def generate(rng, tier):
    world = jobs.make(rng, rng.choice([5, 9, 14]), ["parse", "typed", "typed"])["world"]
    world["lines"] = world["lines"][:22]
    rounds = []
    for _ in range(rng.randint(1, 3)):
        ops = []
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 5])):
            if rng.random() < 0.5:
                # edits which surely change something
                ops.append(rng.choice([{"op": "prepend_line", "new": typed.statement(rng, world["syntax"], child=False)}, {"op": "list_insert", "index": rng.randint(0, 999), "new": typed.statement(rng, world["syntax"])}]))
            elif rng.random() < 0.4:
                ops.append({"op": "insert_after", "spec": rng.choice(typed.SPECS), "new": typed.statement(rng, world["syntax"])})
            elif rng.random() < 0.5:
                regex, repl = rng.choice(typed.SUBS)
                ops.append({"op": "replace_lines", "regex": regex, "repl": repl})
            else:
                op = edits.pattern_op(rng, world["syntax"], world["factory"], world["ignore_blank"])
                if op["op"] not in ("commit", "reparse", "list_del", "list_pop", "append_line") and not op.get("atomic"):
                    ops.append(op)
        rounds.append({"edits": ops, "commit": rng.choice(COMMITS)})
    threads = []
    for num in range(rng.choice([1, 1, 2, 3])):
        threads.append([make_read(rng, world, f"save{num}-{pos}") for pos in range(rng.choice([1, 1, 2, 3, 5]))])
    loop = rng.random() < 0.6
    if loop:
        # the readers go on reading until the writer has finished, and the
        # writer loses the baton again and again
        top = rng.choice([1.0, 1.6, 2.2])
        moves = [[int(10 ** (rng.random() * 3.4)), 0.0]] + [[1 + int(10 ** (rng.random() * top)), round(rng.random(), 3)] for _ in range(rng.randint(10, 90))]
    else:
        moves = sched.switches(rng, 80)
    if rng.random() < 0.45:
        # every commit is met by readers in the middle of what they do, and
        # the baton changes hands a few times until the commit is over
        loop, moves = True, []
        for item in rounds:
            top = rng.choice([1.3, 2.2, 3.2])
            item["ambush"] = [[1, round(rng.random(), 3)]] + [[int(10 ** (rng.random() * rng.choice([top, 3.2]))), round(rng.random(), 3)] for _ in range(rng.choice([1, 1, 2, 3, 6, 12]))]
    return {"world": world, "rounds": rounds, "threads": threads, "loop": loop, "victims": [0] if loop and moves and rng.random() < 0.6 else None, "switches": moves, "first": round(rng.random(), 3),
            "kills": [[rng.randint(1, 3), int(10 ** (rng.random() * 3.5)), rng.choice(sorted(ERRORS))]] if rng.random() < 0.1 else []}


def shrink_paths(plan):
    return [["switches"], ["kills"], ["threads"]] + [["rounds", num, "ambush"] for num, item in enumerate(plan["rounds"]) if "ambush" in item] + [["threads", num] for num in range(len(plan["threads"]))] + [["rounds"]] + [["rounds", num, "edits"] for num in range(len(plan["rounds"]))] + [["world", "lines"]]


def plain(value):
    return json.loads(json.dumps(value, default=repr))


def one_read(parse, read):
    if read["r"] != "list":
        return plain(reads.run(parse, read, {}))
    what = read["what"]
    if what == "ioscfg1":
        return list(parse.ioscfg)
    if what == "ioscfg2":
        return list(parse.ConfigObjs.ioscfg)
    if what == "len1":
        return len(parse.ConfigObjs)
    if what == "last":
        try:
            return parse.ConfigObjs[-1].text
        except IndexError:
            return "IndexError"
    if what in ("names", "object_group_network", "access_list"):
        if parse.syntax != "asa":
            return None
        return plain(typed.canon(getattr(parse.ConfigObjs, what)))
    if what in ("dna", "intf"):
        if not parse.factory:
            return None
        return plain(typed.canon(parse.find_objects_dna("IOSIntfLine") if what == "dna" else parse.find_interface_objects("GigabitEthernet1/1")))
    return plain(reads.run(parse, read, {}))


def guarded(parse, read):
    """The outcome of a read, also if it raises what a search may raise."""
    try:
        return one_read(parse, read)
    except (ValueError, NotImplementedError, AttributeError, TypeError, KeyError, IndexError) as exc:
        return ["raises", type(exc).__name__]


def edit(sess, op):
    """One edit; returns False if the code under test refused it."""
    try:
        getattr(sess, "op_" + op["op"])(op)
    except Violation:
        pass        # what an edit gives is the business of E01


def sequential(request):
    """Every read at every state of the configuration, one after another."""
    world = request["world"]
    sess = edits.Session(jobs._Quiet(), CCP["mod"], world["lines"], world["syntax"], world["factory"], world["ignore_blank"])
    out = []

    def look():
        out.append([[guarded(sess.parse, read) for read in work] for work in request["threads"]])

    look()
    for item in request["rounds"]:
        for op in item["edits"]:
            edit(sess, op)
        look()
        getattr(sess.parse, item["commit"])()
        sess.committed()
        look()
    return out


def execute(plan, ctx):
    with Scratch(), Twin(sequential) as twin:
        states = twin.ask({"world": plan["world"], "rounds": plan["rounds"], "threads": plan["threads"]})
        world = plan["world"]
        sess = edits.Session(jobs._Quiet(), CCP["mod"], world["lines"], world["syntax"], world["factory"], world["ignore_blank"])
        scheduler = sched.Scheduler(ctx, plan["switches"], plan["first"], [(num, at, ERRORS[name]) for num, at, name in plan["kills"] if num <= len(plan["threads"])],
                                    victims=plan["victims"])
        now = {"state": 0, "committing": False, "reading": 0, "editing": False, "waiting": False, "over": False}
        results = []

        def writer():
            for item in plan["rounds"]:
                now["waiting"] = True
                scheduler.wait(lambda: now["reading"] == 0)
                now["waiting"] = False
                now["editing"] = True
                for op in item["edits"]:
                    edit(sess, op)
                now["editing"] = False
                now["state"] += 1
                now["committing"] = True
                if "ambush" in item:
                    scheduler.script(item["ambush"])
                getattr(sess.parse, item["commit"])()
                now["committing"] = False
                sess.committed()
                now["state"] += 1
            now["over"] = True

        def plan_of(work):
            turn = 0
            while work:
                yield from enumerate(work)
                turn += 1
                if not plan["loop"] or now["over"] or turn * len(work) > 60:
                    return

        def reader(num, work):
            def fn():
                for pos, read in plan_of(work):
                    scheduler.wait(lambda: not now["editing"])
                    now["reading"] += 1
                    begin = now["state"]
                    overlap = now["committing"]
                    try:
                        got = guarded(sess.parse, read)
                    finally:
                        now["reading"] -= 1
                    end = now["state"] + (1 if now["committing"] else 0)
                    results.append([num, pos, begin, end, got, overlap or end != begin])
                    if plan["loop"] and (plan["switches"] or now["waiting"]):
                        scheduler.pause(0.0)

            return fn

        scheduler.spawn("writer", writer)
        for num, work in enumerate(plan["threads"]):
            scheduler.spawn(f"reader {num}", reader(num, work))
        scheduler.run()
        ctx.ev("results", results)
        for num, pos, begin, end, got, overlap in results:
            read = plan["threads"][num][pos]
            name = read.get("q", {}).get("m", read.get("what", read["r"]))
            if overlap:
                ctx.nontrivial = True
                ctx.probe("overlap:" + name)
            good = [states[state][num][pos] for state in range(begin, end + 1)]
            if len(good) > 1 and good[0] != good[-1]:
                ctx.probe("old and new result differ")
            if got not in good and not scheduler.threads[num + 1].killed:
                raise Violation("torn-read", f"reader {num}: {json.dumps(read)} gave\n {json.dumps(got)[:2000]}\nbefore or after the commit it gives\n " + "\n or ".join(json.dumps(g)[:2000] for g in good), key=name)
