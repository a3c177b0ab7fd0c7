"""E04: rejected and interrupted edits leave no half-done configuration."""
from checks.common import CCP, interleave, setup, world  # noqa: F401
from sim import edits, model
from sim.core import HarnessError, Violation, jdump
from sim.interrupt import ERRORS, Interrupter

ID = "E04"
HASHSEED_DEPENDENT = True     # the number of points in an edit depends on hash collisions
RUNS = {"quick": 5000, "thorough": 120000}
RULE = "runs in which an error struck inside an edit or commit, or an edit was rejected; distinct = distinct event histories"
STATE_MEASURE = "distinct (operation, place where the error struck, outcome) combinations"
REAL = ["ciscoconfparse (CiscoConfParse, ConfigList, line classes; with and without factory)", "loguru (no sinks)"]
STUB = ["inspect.stack() does not read source files", "asynchronous errors are raised by the simulator at the chosen source line or byte code"]
ASSUMPTIONS = [
    "an error strikes between two source lines or two byte codes of the code under test; library code in C is atomic",
    "one error per operation; the commit which follows is not interrupted",
]

BAD = ["insert_blank", "insert_number", "insert_none", "insert_nothing", "bad_regex", "bad_group", "bad_exclude", "append_bad", "prepend_bad", "list_bad", "list_blank", "family_bad", "bad_flag", "not_there", "bad_index"]


def _victim(rng, plan):
    r = rng.random()
    if r < 0.25:
        return {"op": "commit", "atomic": rng.random() < 0.3}
    if r < 0.65:
        return edits.pattern_op(rng, plan["syntax"], plan["factory"], plan["ignore_blank"])
    while True:
        op = edits.handle_op(rng, plan["syntax"], plan["factory"], "alice")
        if op["op"] != "hold":
            op["handle"] = "alice0"
            return op


def _where(rng):
    """Where to strike (fraction of all points): often where the edit starts or takes effect."""
    r = rng.random()
    if r < 0.6:
        return rng.random()
    return rng.random() * 0.1 if r < 0.7 else 0.999999 - rng.random() ** 3 * 0.3


def generate(rng, tier):
    plan = world(rng, size=(3, 24))
    big = tier != "quick"

    def make(client):
        r = rng.random()
        if r < 0.25:
            return {"op": "commit", "atomic": False}
        if r < 0.65:
            return edits.pattern_op(rng, plan["syntax"], plan["factory"], plan["ignore_blank"])
        return edits.handle_op(rng, plan["syntax"], plan["factory"], client)

    hold = {"op": "hold", "client": "alice", "handle": "alice0", "spec": rng.choice([".", "^interface", "^\\S"]), "index": rng.randint(0, 99)}
    plan["ops"] = [dict(hold)] + interleave(rng, ["alice", "bob"], rng.randint(0, 6 if not big else 12), make) + [dict(hold)]
    plan["after"] = [edits.pattern_op(rng, plan["syntax"], plan["factory"], plan["ignore_blank"]) for _ in range(rng.randint(0, 2))]
    if rng.random() < 0.25:
        plan["rejects"] = [{"bad": rng.choice(BAD), "n": rng.randint(0, 99), "spec": rng.choice([".", "^interface", "^\\S", "shutdown"])} for _ in range(rng.randint(1, 6))]
        return plan
    plan["victim"] = _victim(rng, plan)
    plan["victim"]["client"] = "alice"
    plan["strikes"] = [
        {"at": _where(rng), "error": rng.choice(sorted(ERRORS)), "opcodes": rng.random() < 0.4}
        for _ in range(rng.randint(1, 4 if not big else 8))
    ]
    return plan


def shrink_paths(plan):
    return [["strikes"], ["rejects"], ["after"], ["ops"], ["lines"]]


class Silent:
    """A context for the operations which only prepare a state."""

    def ev(self, *parts):
        pass

    fault = probe = state = ev
    steps = 0


def prepare(plan, ctx=None):
    sess = edits.Session(ctx or Silent(), CCP["mod"], plan["lines"], plan["syntax"], plan["factory"], plan["ignore_blank"])
    for op in plan["ops"]:
        sess.apply(op)
    return sess


def settle(sess, plan, what):
    """After the error: a commit works, and the configuration goes on working."""
    texts = sess.parse.ioscfg
    sess.parse.commit()
    sess.conf.parse(texts)
    sess.handles.clear()
    sess.generation += 1
    sess.dirty = False
    sess.check_texts("the commit after " + what)
    sess.check_graph("the commit after " + what)
    for op in plan["after"]:
        sess.apply(op)
    sess.op_commit({})


def execute(plan, ctx):
    if "rejects" in plan:
        return reject(plan, ctx)
    # once without an error: how many points there are, and what the edit does
    counts = {}
    for opcodes in sorted({s["opcodes"] for s in plan["strikes"]}):
        sess = prepare(plan)
        watch = model.Elementary(sess.conf)
        with Interrupter(opcodes=opcodes) as trace:
            sess.apply(plan["victim"])
        watch.done()
        counts[opcodes] = trace.count
    ctx.ev("history", plan["syntax"], plan["factory"], len(plan["lines"]), len(plan["ops"]))
    for strike in plan["strikes"]:
        total = counts[strike["opcodes"]]
        if not total:
            continue
        at = 1 + int(strike["at"] * total)
        sess = prepare(plan)
        before = sess.conf.texts
        what = plan["victim"]["op"]
        try:
            with Interrupter(at, ERRORS[strike["error"]], strike["opcodes"]) as trace:
                sess.apply(plan["victim"])
            raised = None
        except Violation as exc:
            if trace.where is None:
                raise
            raise Violation("success-without-effect", f"{what} returned normally although {strike['error']} struck in {trace.where} (point {at} of {total}), but: {exc.msg}", key=what)
        except BaseException as exc:
            if trace.where is None:
                raise
            raised = type(exc).__name__
        if trace.where is None:
            raise HarnessError(f"point {at} of {total} was not reached")
        ctx.fault(("opcode:" if strike["opcodes"] else "line:") + strike["error"])
        ctx.probe("struck:" + what)
        ctx.steps += 1
        after = sess.parse.ioscfg
        outcome = "before" if after == before else ("after" if after == watch.final else "between")
        ctx.ev("strike", what, at, total, trace.where, strike["error"], raised, outcome)
        ctx.state([what, trace.where, outcome])
        if raised is None:
            # swallowed: apply() compared the whole effect
            ctx.probe("completed-despite-error")
        elif not watch.allows(after):
            raise Violation(
                "half-done-edit",
                f"{plan['victim']} was struck by {strike['error']} in {trace.where} (point {at} of {total}) and left\n {after}\nbefore:\n {before}\ncomplete:\n {watch.final}",
                key=what,
            )
        elif outcome == "between":
            ctx.probe("partial-edit")
        settle(sess, plan, f"{what} was struck in {trace.where}")


def reject(plan, ctx):
    sess = prepare(plan)
    ctx.ev("history", plan["syntax"], plan["factory"], len(plan["lines"]), len(plan["ops"]))
    for item in plan["rejects"]:
        before, graph = sess.parse.ioscfg, jdump(model.real_graph(sess.parse))
        objs = list(sess.parse.ConfigObjs)
        try:
            bad_call(sess, item)
        except Exception as exc:
            raised = type(exc).__name__
        else:
            raised = None
        ctx.ev("reject", item, raised)
        ctx.state([item["bad"], raised])
        ctx.steps += 1
        if raised is None:
            # accepted after all: nothing is claimed
            ctx.probe("accepted:" + item["bad"])
            settle(sess, dict(plan, after=[]), item["bad"])
            continue
        ctx.fault("rejected:" + item["bad"])
        after = sess.parse.ioscfg
        if after != before or jdump(model.real_graph(sess.parse)) != graph or any(a is not b for a, b in zip(objs, sess.parse.ConfigObjs)):
            raise Violation("rejected-edit-changed-config", f"{item} raised {raised} and changed\n {before}\nto\n {after}", key=item["bad"])
    settle(sess, plan, "the rejected edits")


def bad_call(sess, item):
    """A call which the API refuses (when it has to do anything at all)."""
    parse, n, spec = sess.parse, item["n"], item["spec"]
    objs = parse.find_objects(spec)
    obj = objs[n % len(objs)] if objs else None
    bad = item["bad"]

    def pick(*calls):
        return calls[n % len(calls)]()

    if bad == "insert_blank":
        pick(lambda: parse.insert_before(spec, ""), lambda: parse.insert_after(spec, "") if sess.ignore_blank else parse.insert_before(spec, ""), lambda: parse.ConfigObjs.insert_before(spec, "" if sess.ignore_blank else None))
    elif bad == "insert_number":
        pick(lambda: parse.insert_before(spec, 5), lambda: parse.insert_after(spec, 5.5), lambda: parse.insert_before(5, "x"), lambda: parse.insert_after([], "x"), lambda: parse.ConfigObjs.insert_before(spec, 3), lambda: parse.ConfigObjs.insert_after(4, "x"))
    elif bad == "insert_none":
        pick(lambda: parse.insert_before(spec, None), lambda: parse.insert_after(None, "x"), lambda: parse.insert_after_child(spec, ".", None), lambda: parse.ConfigObjs.insert_after(spec, None), lambda: parse.ConfigObjs.insert_before(None, "x"))
    elif bad == "insert_nothing":
        pick(lambda: parse.insert_before("", "x"), lambda: parse.insert_after("", "x"), lambda: parse.insert_before(), lambda: parse.insert_after(), lambda: parse.ConfigObjs.insert_after(), lambda: parse.ConfigObjs.insert_before())
    elif bad == "bad_regex":
        pick(lambda: parse.delete_lines("(x"), lambda: parse.insert_before("(x", "y"), lambda: parse.insert_after("[x", "y"), lambda: parse.replace_lines("(x", "y"), lambda: parse.replace_children(spec, "(x", "y"), lambda: parse.replace_all_children("*x", "x", "y"),
             lambda: parse.insert_after_child(spec, "(x", "y"), lambda: parse.ConfigObjs.insert_before("(x", "y"), lambda: parse.ConfigObjs.insert_after("(x", "y"), lambda: obj and obj.re_sub("(x", "y"), lambda: obj and obj.delete_children_matching("(x"))
    elif bad == "bad_group":
        pick(lambda: parse.replace_lines(spec, "\\7"), lambda: parse.replace_children(spec, ".", "\\7"), lambda: parse.replace_all_children(spec, "\\S", "\\g<x>"), lambda: obj and obj.re_sub(".", "\\3"))
    elif bad == "bad_exclude":
        pick(lambda: parse.replace_lines(spec, "x", excludespec="(x"), lambda: parse.replace_children(spec, ".", "x", excludespec="(x"), lambda: parse.insert_after_child(spec, ".", "x", excludespec="(x"), lambda: parse.replace_all_children(spec, ".", "y", excludespec="(x"))
    elif bad == "append_bad":
        pick(lambda: parse.append_line(None), lambda: parse.append_line(5), lambda: parse.append_line([]))
    elif bad == "prepend_bad":
        pick(lambda: parse.prepend_line(None), lambda: parse.prepend_line(5), lambda: parse.prepend_line([]))
    elif bad == "list_bad":
        pick(lambda: parse.ConfigObjs.insert(0, None), lambda: parse.ConfigObjs.insert(0, 5), lambda: parse.ConfigObjs.insert("a", "x"), lambda: parse.ConfigObjs.insert(None, "x"))
    elif bad == "list_blank":
        pick(lambda: parse.ConfigObjs.insert_before(spec, "" if sess.ignore_blank else None), lambda: parse.ConfigObjs.insert_after(spec, "" if sess.ignore_blank else None))
    elif bad == "family_bad":
        obj and pick(lambda: obj.append_to_family(None), lambda: obj.append_to_family(5), lambda: obj.append_to_family("x", indent="a"), lambda: obj.insert_before(5), lambda: obj.insert_after(None), lambda: obj.insert_after([]), lambda: obj.append_to_family("x", indent=None))
    elif bad == "bad_flag":
        pick(lambda: parse.insert_before(spec, "x", exactmatch="a"), lambda: parse.insert_after(spec, "x", ignore_ws="a"), lambda: parse.insert_before(spec, "x", new_val_indent="a"), lambda: parse.insert_after(spec, "x", new_val_indent=None), lambda: parse.insert_before(spec, "x", ignore_ws=None))
    elif bad == "not_there":
        # a line which belongs to another configuration
        other = CCP["mod"].CiscoConfParse(["interface Other9", " not in here"], syntax=sess.syntax).ConfigObjs[n % 2]
        pick(lambda: parse.ConfigObjs.insert_before(other, "x"), lambda: parse.ConfigObjs.insert_after(other, "x"))
    elif bad == "bad_index":
        size = len(parse.ConfigObjs)
        pick(lambda: parse.ConfigObjs.__delitem__(size), lambda: parse.ConfigObjs.pop(size + 3), lambda: parse.ConfigObjs.__delitem__("x"), lambda: parse.ConfigObjs.pop("a"), lambda: parse.ConfigObjs.remove(5))
