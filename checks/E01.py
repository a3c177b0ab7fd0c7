"""E01: histories of pattern edits by several clients equal the reference model."""
from checks.common import interleave, session, setup, world  # noqa: F401
from sim import edits

ID = "E01"
RUNS = {"quick": 16000, "thorough": 400000}
RULE = "runs in which at least one edit changed the configuration; distinct = distinct event histories"
STATE_MEASURE = "distinct configurations (text and line numbers) reached between two operations"
REAL = ["ciscoconfparse (CiscoConfParse, ConfigList, line classes; with and without factory)", "loguru (no sinks)"]
STUB = ["inspect.stack() does not read source files"]
ASSUMPTIONS = [
    "patterns which are no valid regular expressions and lines which the factory classes refuse are not generated",
    "a blank line or a wrong type given to an edit is covered by E04 (rejected edits)",
]


def generate(rng, tier):
    plan = world(rng)
    count = rng.randint(1, 14 if tier == "quick" else 24)

    def make(client):
        r = rng.random()
        if r < 0.2:
            return {"op": "commit", "atomic": rng.random() < 0.3}
        if r < 0.23:
            return {"op": "reparse"}
        return edits.pattern_op(rng, plan["syntax"], plan["factory"], plan["ignore_blank"])

    plan["ops"] = interleave(rng, edits.CLIENTS[:rng.randint(1, 3)], count, make) + [{"op": "commit"}]
    return plan


def shrink_paths(plan):
    return [["ops"], ["lines"]]


def execute(plan, ctx):
    sess = session(plan, ctx)
    for op in plan["ops"]:
        before = sess.conf.texts
        sess.apply(op)
        if sess.conf.texts != before:
            ctx.nontrivial = True
            ctx.probe("edit:" + op["op"])
        ctx.state(sess.conf.texts)
        if not sess.dirty:
            ctx.probe("committed-states-compared")
    sess.check_graph("the last commit")
