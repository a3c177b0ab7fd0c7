"""E03: an edit through a line object affects exactly that line or family."""
from checks.common import interleave, session, setup, world  # noqa: F401
from sim import edits

ID = "E03"
RUNS = {"quick": 16000, "thorough": 400000}
RULE = "runs in which at least one edit changed the configuration; distinct = distinct event histories"
STATE_MEASURE = "distinct configurations (text and line numbers) reached between two operations"
REAL = ["ciscoconfparse (CiscoConfParse, ConfigList, line classes; with and without factory)", "loguru (no sinks)"]
STUB = ["inspect.stack() does not read source files"]
ASSUMPTIONS = [
    "append_to_family() and delete_children_matching() through an object which a commit replaced are not generated (the documentation asks to search again after a commit)",
]


def generate(rng, tier):
    plan = world(rng, size=(3, 28))
    count = rng.randint(2, 18 if tier == "quick" else 30)

    def make(client):
        r = rng.random()
        if r < 0.15:
            return {"op": "commit", "atomic": rng.random() < 0.3}
        if r < 0.25:
            return edits.pattern_op(rng, plan["syntax"], plan["factory"], plan["ignore_blank"])
        return edits.handle_op(rng, plan["syntax"], plan["factory"], client)

    clients = edits.CLIENTS[:rng.randint(1, 3)]
    first = [{"op": "hold", "client": c, "handle": c + str(n), "spec": ".", "index": rng.randint(0, 99)} for c in clients for n in (0, 1)]
    plan["ops"] = first + interleave(rng, clients, count, make) + [{"op": "commit"}]
    return plan


def shrink_paths(plan):
    return [["ops"], ["lines"]]


def execute(plan, ctx):
    sess = session(plan, ctx)
    for op in plan["ops"]:
        before = sess.conf.texts
        sess.apply(op)
        if sess.conf.texts != before:
            ctx.nontrivial = True
            ctx.probe("edit:" + op["op"])
        ctx.state(sess.conf.texts)
    sess.check_graph("the last commit")
