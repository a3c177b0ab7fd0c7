"""C01: values derived from lines never go stale after edits."""
import json

from checks.common import CCP, setup  # noqa: F401
from checks.diskcommon import Scratch
from sim import jobs, model, reads, search, typed
from sim.core import Violation
from sim.interrupt import ERRORS, Interrupter
from sim.twin import Twin

ID = "C01"
RUNS = {"quick": 3000, "thorough": 100000}
RULE = "runs in which values were read before an edit which changed the text and compared after the commit; distinct = distinct event histories"
STATE_MEASURE = "distinct (syntax, class of line, attribute or table, kind of the value) read while the configuration had pending edits or earlier edits"
REAL = ["ciscoconfparse (typed line classes of IOS, NX-OS, IOS XR and ASA, tables, searches, edits, commits)", "loguru (no sinks)"]
STUB = ["inspect.stack() does not read source files", "errors inside reads are raised by the simulator at the chosen source line"]
ASSUMPTIONS = ["an edit which the object factory refuses is rolled back or kept as E04 says; here only the values are compared with the text which results",
               "values are compared after a commit; between an edit and the commit only their reading is exercised"]
REFUSALS = (ValueError, NotImplementedError, AttributeError, TypeError, KeyError, IndexError)


def edit_op(rng, syntax):
    r = rng.random()
    if r < 0.18:
        regex, repl = rng.choice(typed.SUBS + typed.DIGITS)
        return {"op": "replace_lines", "regex": regex, "repl": repl}
    if r < 0.26:
        regex, repl = rng.choice(typed.SUBS)
        return {"op": rng.choice(["replace_children", "replace_all_children"]), "spec": rng.choice(typed.SPECS + ["^\\S"]), "regex": regex, "repl": repl}
    if r < 0.4:
        return {"op": rng.choice(["insert_before", "insert_after", "list_insert_before", "list_insert_after"]), "spec": rng.choice(typed.SPECS), "new": typed.statement(rng, syntax), "atomic": rng.random() < 0.2}
    if r < 0.48:
        return {"op": "delete_lines", "spec": rng.choice(typed.SPECS)}
    if r < 0.54:
        return {"op": rng.choice(["append_line", "prepend_line"]), "new": typed.statement(rng, syntax)}
    if r < 0.6:
        return {"op": "list_insert", "index": rng.randint(0, 999), "new": typed.statement(rng, syntax)}
    if r < 0.68:
        return {"op": rng.choice(["list_del", "list_pop"]), "index": rng.randint(0, 999)}
    if r < 0.74:
        return {"op": "insert_after_child", "spec": rng.choice(typed.SPECS), "child": rng.choice(typed.KIDS), "new": typed.statement(rng, syntax, child=True)}
    kind = rng.choice(["delete", "delete", "insert_before", "insert_after", "append_to_family", "append_to_family", "re_sub", "re_sub", "delete_children_matching"])
    op = {"op": "obj", "call": kind, "line": rng.randint(0, 999)}
    if kind in ("insert_before", "insert_after"):
        op["new"] = typed.statement(rng, syntax)
    elif kind == "append_to_family":
        op["new"] = typed.statement(rng, syntax, child=True)
        op["auto_indent"] = rng.random() < 0.3
    elif kind == "re_sub":
        op["regex"], op["repl"] = rng.choice(typed.SUBS + typed.DIGITS * 4)
    elif kind == "delete_children_matching":
        op["spec"] = rng.choice(typed.KIDS)
    return op


def generate(rng, tier):
    worlds = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        syntax = rng.choice(typed.SYNTAXES)
        worlds.append({"syntax": syntax, "factory": rng.random() < 0.85, "ignore_blank": True, "lines": typed.config(rng, syntax, rng.choice([2, 4, 8, 12]))})
    steps = [{"w": num, "all": False} for num in range(len(worlds)) if rng.random() < 0.6]
    for _ in range(rng.randint(3, 14 if tier == "quick" else 30)):
        num = rng.randrange(len(worlds))
        world = worlds[num]
        r = rng.random()
        if r < 0.42:
            steps.append({"w": num, "edit": edit_op(rng, world["syntax"])})
        elif r < 0.52:
            steps.append({"w": num, "edit": {"op": rng.choice(["commit", "commit", "atomic"])}})
        elif r < 0.58:
            steps.append({"w": num, "all": rng.random() < 0.5})
        elif r < 0.66:
            steps.append({"w": num, "read": {"r": "attributes", "line": rng.randint(0, 999)}, "strike": [round(rng.random(), 4), rng.choice(sorted(ERRORS))]})
        else:
            steps.append({"w": num, "read": reads.make(rng, world["syntax"], world["factory"], files=False, lines=world["lines"])})
    queries = [[search.make(rng, world["syntax"], world["lines"]) for _ in range(rng.randint(0, 3))] for world in worlds]
    return {"worlds": worlds, "steps": steps, "queries": queries}


def shrink_paths(plan):
    return [["steps"]] + [["worlds", num, "lines"] for num in range(len(plan["worlds"]))] + [["queries", num] for num in range(len(plan["worlds"]))]


def edit(parse, op):
    """One edit; what it says if it was refused."""
    name = op["op"]
    objs = parse.ConfigObjs
    try:
        if name in ("commit", "atomic"):
            getattr(parse, name)()
        elif name == "replace_lines":
            parse.replace_lines(op["regex"], op["repl"])
        elif name in ("replace_children", "replace_all_children"):
            getattr(parse, name)(op["spec"], op["regex"], op["repl"])
        elif name in ("insert_before", "insert_after"):
            getattr(parse, name)(op["spec"], op["new"], atomic=op["atomic"])
        elif name in ("list_insert_before", "list_insert_after"):
            getattr(objs, name[5:])(op["spec"], op["new"], atomic=op["atomic"])
        elif name == "delete_lines":
            parse.delete_lines(op["spec"])
        elif name in ("append_line", "prepend_line"):
            getattr(parse, name)(op["new"])
        elif name == "list_insert":
            objs.insert(op["index"] % (len(objs) + 1), op["new"])
        elif name == "insert_after_child":
            parse.insert_after_child(op["spec"], op["child"], op["new"])
        elif not len(objs):
            return "nothing there"
        elif name == "list_del":
            del objs[op["index"] % len(objs)]
        elif name == "list_pop":
            objs.pop(op["index"] % len(objs))
        else:
            obj = objs[op["line"] % len(objs)]
            call = op["call"]
            if call == "delete":
                obj.delete()
            elif call in ("insert_before", "insert_after"):
                getattr(obj, call)(op["new"])
            elif call == "append_to_family":
                obj.append_to_family(op["new"], auto_indent=op["auto_indent"])
            elif call == "re_sub":
                obj.re_sub(op["regex"], op["repl"])
            else:
                obj.delete_children_matching(op["spec"])
    except REFUSALS as exc:
        return type(exc).__name__
    return None


def guarded(fn, *args):
    try:
        return json.loads(json.dumps(fn(*args), default=typed.canon))
    except REFUSALS as exc:
        return ["raises", type(exc).__name__, typed._ADDRESS.sub("", str(exc))[:200]]


def values(parse, queries):
    places = {id(obj): pos for pos, obj in enumerate(parse.ConfigObjs)}
    return {"values": guarded(typed.everything, parse), "graph": guarded(model.real_graph, parse), "searches": [guarded(search.run, parse, q, places) for q in queries]}


def fresh(request):
    """In a clean process: the texts which the edits alone give, or the values of a fresh parse."""
    if "edits" in request:
        parse = jobs.open_world(CCP["mod"], request["world"])
        out = []
        for op in request["edits"]:
            said = edit(parse, op)
            out.append([said, list(parse.ioscfg)])
        return out
    try:
        parse = jobs.open_world(CCP["mod"], request["world"])
    except REFUSALS as exc:
        return ["refused", type(exc).__name__]
    return values(parse, request["queries"])


def difference(got, want):
    """Where two results differ first (texts)."""
    if isinstance(got, dict) and isinstance(want, dict):
        for key in sorted(set(got) | set(want)):
            if got.get(key) != want.get(key):
                inner = difference(got.get(key), want.get(key))
                return [key] + inner
    if isinstance(got, list) and isinstance(want, list) and len(got) == len(want):
        for num, (one, two) in enumerate(zip(got, want)):
            if one != two:
                return [num] + difference(one, two)
    return [f"{json.dumps(got)[:700]} instead of {json.dumps(want)[:700]}"]


def execute(plan, ctx):
    with Scratch(), Twin(fresh) as twin:
        parses = [jobs.open_world(CCP["mod"], world) for world in plan["worlds"]]
        expected = [iter(twin.ask({"world": world, "edits": [s["edit"] for s in plan["steps"] if s["w"] == num and "edit" in s]})) for num, world in enumerate(plan["worlds"])]
        state = [{"read": False, "changed": False} for _ in parses]
        texts = [list(p.ioscfg) for p in parses]

        def compare(num, what):
            """After a commit: the values of the configuration are those of its text."""
            parse, world = parses[num], plan["worlds"][num]
            try:
                parse.commit()
            except REFUSALS as exc:
                want = twin.ask({"world": dict(world, lines=texts[num]), "queries": []})
                ctx.ev("commit refused", type(exc).__name__)
                if isinstance(want, dict):
                    raise Violation("commit-refused", f"{what}: commit() raised {exc!r} although a fresh parse takes {texts[num]}")
                return False
            if list(parse.ioscfg) != texts[num]:
                raise Violation("commit-changed-text", f"{what}: commit() made\n {parse.ioscfg}\nof\n {texts[num]}")
            before = values(parse, plan["queries"][num])
            want = twin.ask({"world": dict(world, lines=texts[num]), "queries": plan["queries"][num]})
            if not isinstance(want, dict):
                raise Violation("parse-refused", f"{what}: a fresh parse of {texts[num]} raises {want}")
            if before != want:
                where = difference(before, want)
                key = ".".join(str(x) for x in where[:-1] if not isinstance(x, int))
                raise Violation("stale-value", f"{what}, {' / '.join(map(str, where))}\n(first: after the history; second: from a fresh parse)\n in {texts[num]}", key=key)
            again = values(parse, plan["queries"][num])
            if again != before:
                raise Violation("reading-changed-values", f"{what}, read twice: {' / '.join(map(str, difference(again, before)))}\n in {texts[num]}")
            if list(parse.ioscfg) != texts[num]:
                raise Violation("reading-changed-text", f"{what}: reading made\n {parse.ioscfg}\nof\n {texts[num]}")
            if state[num]["read"] and state[num]["changed"]:
                ctx.nontrivial = True
            ctx.probe("compared with a fresh parse")
            return True

        for pos, step in enumerate(plan["steps"]):
            num = step["w"]
            parse = parses[num]
            ctx.steps += 1
            if "edit" in step:
                said = edit(parse, step["edit"])
                said_alone, alone = next(expected[num])
                name = step["edit"].get("call", step["edit"]["op"])
                ctx.ev("edit", num, name, said)
                if said:
                    ctx.fault("refused-edit")
                now = list(parse.ioscfg)
                if [said, now] != [said_alone, alone]:
                    raise Violation("reading-changed-edits", f"step {pos}, {json.dumps(step['edit'])}: {said}\n {now}\nwithout the earlier reads: {said_alone}\n {alone}", key=name)
                if now != texts[num]:
                    texts[num] = now
                    state[num]["changed"] = state[num]["read"] or state[num]["changed"]
            elif "all" in step:
                if step["all"]:
                    compare(num, f"step {pos}")
                    # the commits of the comparison belong to the history from here on
                    plan_rest = [s["edit"] for s in plan["steps"][pos + 1:] if s["w"] == num and "edit" in s]
                    expected[num] = iter(twin.ask({"world": dict(plan["worlds"][num], lines=texts[num]), "edits": plan_rest}))
                else:
                    values(parse, [])
                    ctx.ev("values", num)
                state[num]["read"] = True
            elif "strike" in step:
                objs = parse.ConfigObjs
                if not len(objs):
                    continue
                obj = objs[step["read"]["line"] % len(objs)]
                at, error = step["strike"]
                with Interrupter(anything=True) as trace:
                    guarded(typed.attributes, obj)
                total = trace.count
                try:
                    with Interrupter(max(1, int(total * at)), ERRORS[error], anything=True) as trace:
                        guarded(typed.attributes, obj)
                except BaseException as exc:
                    if not isinstance(exc, ERRORS[error]):
                        raise
                if trace.where:
                    ctx.fault("error-inside-read:" + error)
                    ctx.probe("struck in " + trace.where.split(":")[0])
                ctx.ev("strike", num, trace.where)
                state[num]["read"] = True
            else:
                got = guarded(reads.run, parse, step["read"], {id(o): n for n, o in enumerate(parse.ConfigObjs)})
                ctx.ev("read", num, step["read"]["r"], got)
                ctx.state([parse.syntax, step["read"]["r"], step["read"].get("what"), type(got).__name__])
                if list(parse.ioscfg) != texts[num]:
                    raise Violation("reading-changed-text", f"step {pos}: {json.dumps(step['read'])} made\n {parse.ioscfg}\nof\n {texts[num]}", key=step["read"]["r"])
                state[num]["read"] = True
        for num in range(len(parses)):
            ctx.ev("final", num, compare(num, "at the end"), texts[num])


