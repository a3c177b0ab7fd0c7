"""E05: every search returns exactly what a brute-force search of the text and family tree returns."""
import re

from checks.common import CCP, interleave, session, setup, world  # noqa: F401
from sim import edits, gen, model, search
from sim.core import Violation

ID = "E05"
RUNS = {"quick": 14000, "thorough": 400000}
RULE = "runs in which at least one search returned something; distinct = distinct event histories"
STATE_MEASURE = "distinct (configuration, search, result) combinations"
REAL = ["ciscoconfparse (all five syntaxes, with and without factory)", "loguru (no sinks)"]
STUB = ["inspect.stack() does not read source files"]
ASSUMPTIONS = [
    "search patterns are such that a line which contains the pattern literally also matches it as a regular expression",
    "find_lineage() without a match is not claimed; searches by interface name are checked in configurations whose interfaces have ordinary names",
    "the kind of a line is the class of its object (which class a line gets is compared by C01)",
]


DNA = ["IOSIntfLine", "IOSIntf", "CfgLine", "IOSCfgLine", "Route", "^IOSRoute", "Line$", "NXOSIntfLine", "ASA", "zzz", "IOSIntfLin[ez]", "I?OSAccessLine"]
NAMES = ["GigabitEthernet1/1", "GigabitEthernet1/2", "gi1/1", "Gi 1/3", "g1/1.1", "GIGABIT1/2.2", "Vlan1", "vl2", "v 3", "Serial1/1", "se1/2", "Se1/3", "gi1/11", "1/1", "gi", "GigabitEthernet1/1.3", "zzz1"]
PLAIN_NAME = re.compile(r"interface (GigabitEthernet|Vlan|Serial)(\d[\d/.]*)\s*$")


def kind_search(rng):
    if rng.random() < 0.5:
        return {"m": "find_objects_dna", "a": rng.choice(DNA), "exactmatch": rng.random() < 0.4}
    return {"m": "find_interface_objects", "a": rng.choice(NAMES)}


def kinds(sess, q, ctx):
    """Searches by the kind of a line, and by the name of an interface."""
    objs = list(sess.parse.ConfigObjs)
    if q["m"] == "find_objects_dna":
        got = sess.parse.find_objects_dna(q["a"], exactmatch=True) if q["exactmatch"] else sess.parse.find_objects_dna(q["a"])
        regex = "^%s$" % q["a"] if q["exactmatch"] else q["a"]
        want = [obj for obj in objs if re.search(regex, type(obj).__name__)]
    else:
        heads = [obj for obj in objs if re.search("^interface", obj.text)]
        names = [PLAIN_NAME.match(obj.text) for obj in heads]
        if not all(names) or sess.conf.syntax == "asa":
            return
        got = sess.parse.find_interface_objects(q["a"])
        mm = re.match(r"([a-z]+) ?(\d[\d/.]*)$", q["a"].lower())
        want = [obj for obj, name in zip(heads, names) if mm and name[1].lower().startswith(mm[1]) and name[2] == mm[2]][:1]
    got, want = ([[obj.linenum, obj.text] if any(obj is one for one in objs) else repr(obj) for obj in some] for some in (got, want))
    ctx.ev("kinds", q, got)
    if got != want:
        raise Violation("wrong-search-result", f"{q} returned\n {got}\nexpected\n {want}\n in {list(enumerate(sess.conf.texts))}", key=q["m"])
    ctx.probe("search:" + q["m"])


def generate(rng, tier):
    if rng.random() < 0.15:
        plan = {"syntax": "junos", "factory": rng.random() < 0.3, "ignore_blank": rng.random() < 0.6, "nodes": gen.junos(rng, rng.randint(1, 30)), "lines": []}
    else:
        plan = world(rng, size=(1, 36), indented_banners=0.5)
        if plan["syntax"] == "asa":
            for _ in range(rng.randint(0, 4)):
                plan["lines"].insert(rng.randint(0, len(plan["lines"])), rng.choice(["name 192.0.2.%d host%d", "object-group network OG_%d", "access-list OUT_%d extended deny ip any any"]).replace("%d", str(rng.randint(1, 3))))
    ops = []
    for _ in range(rng.randint(1, 3)):
        ops.extend({"op": "search", "q": search.make(rng, plan["syntax"], plan["lines"])} for _ in range(rng.randint(1, 10 if tier == "quick" else 20)))
        if plan["syntax"] != "junos":
            for _ in range(rng.randint(0, 4)):
                ops.append(edits.pattern_op(rng, plan["syntax"], plan["factory"], plan["ignore_blank"]))
        ops.append({"op": "commit"})
        if plan["factory"] and plan["syntax"] != "junos":
            ops.extend({"op": "kinds", "q": kind_search(rng)} for _ in range(rng.randint(0, 4)))
    ops.extend({"op": "search", "q": search.make(rng, plan["syntax"], plan["lines"])} for _ in range(rng.randint(0, 6)))
    plan["ops"] = ops
    return plan


def shrink_paths(plan):
    return [["ops"], ["lines"], ["nodes"]]


def execute(plan, ctx):
    if plan["syntax"] == "junos":
        from checks.E02 import fix_nodes

        nodes = fix_nodes([tuple(n) for n in plan["nodes"]])
        if not nodes:
            return
        sess = edits.Session(ctx, CCP["mod"], gen.junos_render(nodes), "junos", plan["factory"], plan["ignore_blank"], expected=gen.junos_expected(nodes))
    else:
        sess = session(plan, ctx)
    sess.check_graph("parse")
    dirty_ok = ("find_objects", "find_lines", "has_line_with", "ioscfg", "o.re_search", "o.re_match", "o.re_match_typed")
    for op in plan["ops"]:
        if op["op"] == "kinds":
            if not sess.dirty:
                kinds(sess, op["q"], ctx)
            continue
        if op["op"] != "search":
            sess.apply(op)
            continue
        q = op["q"]
        if sess.dirty and q["m"] not in dirty_ok:
            continue
        graph = model.real_graph(sess.parse)
        got = search.run(sess.parse, q)
        want = search.expected(sess.conf, q)
        ctx.ev("search", q, got)
        ctx.probe("search:" + q["m"])
        if got != want:
            raise Violation("wrong-search-result", f"{q} returned\n {got}\nexpected\n {want}\n in {list(enumerate(sess.conf.texts))}", key=q["m"])
        if model.real_graph(sess.parse) != graph:
            raise Violation("search-changed-config", f"{q} changed the configuration {sess.conf.texts}", key=q["m"])
        if got and got != ["raises", "IndexError"]:
            ctx.nontrivial = True
        ctx.state([sess.conf.texts, q, got])
        ctx.steps += 1
