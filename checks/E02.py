"""E02: families equal the indentation (or brace) tree after every parse, commit and reload."""
from checks.common import CCP, setup  # noqa: F401
from sim import gen, model, edits
from sim.core import Violation

ID = "E02"
RUNS = {"quick": 16000, "thorough": 400000}
RULE = "runs whose configuration has at least one line with a parent; distinct = distinct event histories"
STATE_MEASURE = "distinct family graphs (text, line number, parent, children of every line)"
REAL = ["ciscoconfparse (all five syntaxes, with and without factory)", "loguru (no sinks)"]
STUB = ["inspect.stack() does not read source files"]
ASSUMPTIONS = [
    "junos configurations are well formed brace trees; other syntaxes contain no braces at line ends",
    "ASA banners are not generated",
]


def generate(rng, tier):
    syntax = rng.choice(["ios", "ios", "nxos", "iosxr", "asa", "junos", "junos"])
    plan = {"syntax": syntax, "factory": rng.random() < 0.3, "ignore_blank": rng.random() < 0.6, "debug": 0}
    size = rng.randint(1, 40 if tier == "quick" else 90)
    if syntax == "junos":
        plan["nodes"] = gen.junos(rng, size)
        plan["style"] = rng.randint(0, 10 ** 6)
        plan["ops"] = [{"op": rng.choice(["commit", "reload"])} for _ in range(rng.randint(0, 2))]
        plan["comment"] = rng.choice(["#!", "#", "#!", "!#"])
        return plan
    plan["comment"] = rng.choice(["!", "!", "!", "!#", "#!"])
    plan["lines"] = gen.config(rng, syntax, size, indented_banners=rng.random() < 0.6)
    if rng.random() < 0.15:
        # deep staircase: long parent chains
        depth = rng.randint(3, 12)
        plan["lines"] += [" " * d + "level %d" % d for d in range(depth)] + [" " * d + "back %d" % d for d in range(depth - 1, -1, -rng.randint(1, 2))]
    ops = []
    for _ in range(rng.randint(0, 5)):
        r = rng.random()
        if r < 0.4:
            ops.append({"op": "commit"})
        elif r < 0.6:
            ops.append({"op": "reload"})
        elif r < 0.7:
            ops.append({"op": "as_tuple"})
        elif r < 0.8:
            ops.append({"op": "del", "index": rng.randint(0, 999)})
        else:
            ops.append({"op": "append_line", "new": edits.new_text(rng, syntax)})
    plan["ops"] = ops
    return plan


def shrink_paths(plan):
    return [["ops"], ["lines"], ["nodes"]]


def compare(parse, conf, what, ctx):
    real = model.real_graph(parse)
    diff = model.first_difference(real, model.model_graph(conf))
    if diff:
        raise Violation("wrong-family", f"after {what}: {diff}\n in {conf.texts}", key=what)
    for obj, want in zip(parse.ConfigObjs, real):
        # views of the same graph
        up = [o.text for o in obj.all_parents]
        if [o.text for o in obj.geneology] != up + [obj.text] or obj.geneology_text != up + [obj.text]:
            raise Violation("wrong-geneology", f"after {what}: geneology of {obj!r} is {obj.geneology_text}, parents are {up}", key="geneology")
        down = [o.text for o in obj.all_children]
        if obj.ioscfg != [obj.text] + down:
            raise Violation("wrong-ioscfg", f"after {what}: ioscfg of {obj!r} is {obj.ioscfg}", key="ioscfg")
        if [o.text for o in obj.lineage] != up + [obj.text] + down:
            raise Violation("wrong-lineage", f"after {what}: lineage of {obj!r} is {[o.text for o in obj.lineage]}", key="lineage")
        if obj.has_children != bool(want["children"]) or obj.is_parent != bool(want["children"]):
            raise Violation("wrong-family-flag", f"after {what}: has_children / is_parent of {obj!r}", key="has_children")
        if obj.is_child != (obj.parent is not obj):
            raise Violation("wrong-family-flag", f"after {what}: is_child of {obj!r} is {obj.is_child}", key="is_child")
        sibs = [c for c in obj.parent.children if c.indent == obj.indent]
        if [id(s) for s in obj.siblings] != [id(s) for s in sibs]:
            raise Violation("wrong-siblings", f"after {what}: siblings of {obj!r}", key="siblings")
        endpoint = obj.all_children[-1].linenum if want["all_children"] else obj.linenum
        if obj.family_endpoint != endpoint or obj.index != obj.linenum:
            raise Violation("wrong-family-endpoint", f"after {what}: family_endpoint of {obj!r} is {obj.family_endpoint}", key="family_endpoint")
        if obj.is_config_line != (bool(obj.text.strip()) and not obj.is_comment):
            raise Violation("wrong-family-flag", f"after {what}: is_config_line of {obj!r}", key="is_config_line")
    parents = [obj for obj in parse.ConfigObjs if obj.children]
    if [id(o) for o in parse.ConfigObjs.all_parents] != [id(o) for o in parents]:
        raise Violation("wrong-all-parents", f"after {what}: ConfigObjs.all_parents", key="all_parents")
    ctx.state(real)
    if any(r["all_parents"] for r in real):
        ctx.nontrivial = True


def execute(plan, ctx):
    syntax, comment = plan["syntax"], plan["comment"]
    if syntax == "junos":
        import random

        nodes = fix_nodes([tuple(n) for n in plan["nodes"]])
        if not nodes:
            return
        lines = gen.junos_render(nodes, random.Random(plan["style"]))
        texts = gen.junos_expected(nodes)
    else:
        lines = texts = plan["lines"]

    def parse_it(cfg):
        return CCP["mod"].CiscoConfParse(cfg, syntax=syntax, factory=plan["factory"], ignore_blank_lines=plan["ignore_blank"], comment=comment)

    def model_it(cfg):
        return model.Conf(cfg, syntax, comment, plan["factory"], plan["ignore_blank"])

    parse, conf = parse_it(list(lines)), model_it(texts)
    ctx.ev("parse", syntax, plan["factory"], plan["ignore_blank"], comment, conf.texts)
    compare(parse, conf, "parse", ctx)
    for op in plan["ops"]:
        name = op["op"]
        if name == "commit":
            parse.commit()
            conf.commit()
        elif name == "reload":
            texts = parse.ioscfg
            if syntax == "junos":
                # the text of a parsed junos configuration has no braces
                continue
            parse, conf = parse_it(texts), model_it(texts)
        elif name == "as_tuple":
            texts = parse.ioscfg
            parse, conf = parse_it(list(texts) if plan["factory"] else tuple(texts)), model_it(texts)
        elif name == "del":
            if not conf.lines:
                continue
            num = op["index"] % len(conf.lines)
            del parse.ConfigObjs[num]
            del conf.lines[num]
            conf.commit()
        else:
            parse.append_line(op["new"])
            conf.lines.append(conf.new_line(op["new"]))
            conf.commit()
        ctx.steps += 1
        ctx.ev(name, conf.texts)
        compare(parse, conf, name, ctx)


def fix_nodes(nodes):
    """A shrunken list of nodes may skip levels: bring it back to a tree."""
    out = []
    for depth, text, kind in nodes:
        limit = 0
        if out:
            limit = out[-1][0] + (1 if out[-1][2] == "block" else 0)
        out.append((min(depth, limit), text, kind))
    return out
