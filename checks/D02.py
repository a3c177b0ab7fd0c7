"""D02: a hierarchical diff accounts for every line of both configurations."""
from checks.common import CCP, interleave, session, setup as _setup, world
from checks.diskcommon import Scratch, Violation, read_faults
from sim import disk, edits, gen, model

ID = "D02"
RUNS = {"quick": 4500, "thorough": 150000}
RULE = "runs in which a diff of two different configurations was checked; distinct = distinct event histories"
STATE_MEASURE = "distinct (old, new) configuration pairs diffed"
REAL = ["ciscoconfparse (CiscoConfParse, ConfigList, HDiff)", "CPython io stack", "the scratch file system below the simulated device"]
STUB = ["raw device of the files: sim.disk.RawFile", "inspect.stack() does not read source files"]
ASSUMPTIONS = [
    "ios and nxos syntax (the ones which hierarchical diffs support)",
    "lines which differ only in white space after the indentation count as equal; repeated lines of one family count once",
    "the position of the lines within the diff is only checked for regularly indented configurations without repeated lines in a family, banners, macros and comments",
]


def setup():
    _setup()
    import ciscoconfparse.ciscoconfparse as inner

    CCP["HDiff"] = inner.HDiff


def generate(rng, tier):
    syntax = rng.choice(["ios", "ios", "nxos"])
    regular = rng.random() < 0.5
    plan = {"syntax": syntax, "factory": False, "ignore_blank": rng.random() < 0.8, "regular": regular}
    size = rng.randint(0, 22)
    if regular:
        plan["lines"] = gen.config(rng, syntax, size, blanks=False, comments=False, banners=False, macros=False, irregular=False, trailing=False)
    else:
        plan["lines"] = gen.config(rng, syntax, size, indented_banners=rng.random() < 0.5)
    ops = []
    for _ in range(rng.randint(1, 3)):
        if regular:
            ops.extend({"op": "regular", "kind": rng.choice(["del", "add", "change", "family"]), "index": rng.randint(0, 999), "new": gen.line_text(rng, syntax=syntax)} for _ in range(rng.randint(0, 4)))
        else:
            ops.extend(edits.pattern_op(rng, syntax, False, plan["ignore_blank"]) for _ in range(rng.randint(0, 4)))
        ops.append({"op": "diff", "files": rng.random() < 0.3, "swap": rng.random() < 0.3, "chunks": disk.chunks(rng), "faults": read_faults(rng, 400) if rng.random() < 0.3 else []})
    plan["ops"] = ops
    return plan


def shrink_paths(plan):
    return [["ops"], ["lines"]]


def norm(line):
    return " " * line.indent + " ".join(line.text.split())


def paths(texts, plan):
    """The lines with their ancestors (comments have none)."""
    conf = model.Conf(texts, plan["syntax"], "!", False, plan["ignore_blank"])
    out = []
    for line in conf.lines:
        up = [] if line.comment else [norm(a) for a in reversed(line.ancestors())]
        out.append(tuple(up + [norm(line)]))
    return out


def execute(plan, ctx):
    with Scratch() as root:
        run(plan, ctx, root)


def regular_edit(texts, op):
    """Edits which keep the indentation regular."""
    new = list(texts)
    kind = op["kind"]
    if not new or (kind == "add" and op["index"] % 3 == 0):
        return new + [op["new"]]
    num = op["index"] % len(new)
    pad = new[num][:len(new[num]) - len(new[num].lstrip())]
    end = num + 1
    while end < len(new) and len(new[end]) - len(new[end].lstrip()) > len(pad):
        end += 1
    if kind in ("del", "family"):
        return new[:num] + new[end:]
    if kind == "change":
        return new[:num] + [pad + op["new"]] + new[num + 1:]
    return new[:end] + [pad + op["new"]] + new[end:]


def _is_regular(texts):
    last = -1
    for text in texts:
        depth = len(text) - len(text.lstrip())
        if depth > last + 1 or text.strip()[:1] in ("", "!") or text.startswith(("banner", "macro")):
            return False
        last = depth
    return True


def run(plan, ctx, root):
    sess = session(plan, ctx)
    before = sess.conf.texts
    device = disk.Disk(root, ctx)
    for op in plan["ops"]:
        if op["op"] == "regular":
            texts = regular_edit(sess.conf.texts, op)
            sess.parse = sess.Parse(texts, syntax=plan["syntax"], ignore_blank_lines=plan["ignore_blank"])
            sess.conf = model.Conf(texts, plan["syntax"], "!", False, plan["ignore_blank"])
            continue
        if op["op"] != "diff":
            sess.apply(op)
            continue
        after = sess.parse.ioscfg
        old, new = (after, before) if op["swap"] else (before, after)
        check(old, new, op, plan, ctx, device)
        check(old, old, op, plan, ctx, device)


def check(old, new, op, plan, ctx, device):
    ctx.steps += 1
    kwargs = {"syntax": plan["syntax"], "ignore_blank_lines": plan["ignore_blank"]}
    sides = [list(old), list(new)]
    device.reset(op["faults"] if op["files"] else (), op["chunks"])
    if op["files"]:
        for name, lines in zip(("old.conf", "new.conf"), sides):
            with open(name, "w", encoding="utf-8") as fh:
                fh.writelines(ln + "\n" for ln in lines)
        args = ["old.conf", "new.conf"]
    else:
        args = [list(old), list(new)]
    with device:
        try:
            diff = CCP["HDiff"](*args, **kwargs)
        except OSError as exc:
            if not device.fired:
                raise
            ctx.ev("diff", type(exc).__name__)
            return
    dicts = diff.all_output_dicts
    ctx.ev("diff", [d["diff_word"] + d["text"] for d in dicts])
    if not op["files"] and args != sides:
        raise Violation("diff-changed-input", f"diffing {sides} changed them to {args}", key="input")
    was, now = paths(old, plan), paths(new, plan)
    got = {"remove": [], "add": [], "same": []}
    for item in dicts:
        path = tuple(list(item["parents"]) + [item["text"]])
        got[item["diff_word"] if item["diff_word"] in got else "same"].append(path)
    want = {"remove": set(was) - set(now), "add": set(now) - set(was), "same": set(was) & set(now)}
    for word in ("remove", "add", "same"):
        if set(got[word]) != want[word]:
            raise Violation("wrong-diff", f"{word}: missing {sorted(want[word] - set(got[word]))}, not expected {sorted(set(got[word]) - want[word])}\nold {old}\nnew {new}\n{[d['diff_word'] + d['text'] for d in dicts]}", key=word)
        if len(got[word]) != len(set(got[word])):
            raise Violation("line-diffed-twice", f"{word}: {got[word]}\nold {old}\nnew {new}", key=word + "-twice")
    marks = {"remove": "-", "add": "+"}
    unified = diff.unified_diffs(header=False)
    if unified != [marks.get(d["diff_word"], " ") + d["text"] for d in dicts]:
        raise Violation("unified-diff-differs", f"unified {unified}\ndictionaries {[d['diff_word'] + d['text'] for d in dicts]}", key="unified")
    header = diff.unified_diffs(header=True)
    if header[3:] != unified or not (header[0].startswith("---") and header[1].startswith("+++") and header[2].startswith("@@")):
        raise Violation("unified-diff-differs", f"with header {header}\nwithout {unified}", key="header")
    if want["remove"] or want["add"]:
        ctx.nontrivial = True
        ctx.state([old, new])
    elif any(d["diff_word"] in ("add", "remove") for d in dicts):
        raise Violation("self-diff-not-empty", f"{unified}", key="self")
    if not plan["regular"] or not (_is_regular(old) and _is_regular(new)) or len(set(was)) != len(was) or len(set(now)) != len(now):
        return
    for mark, side, name in (("-", was, "old"), ("+", now, "new")):
        lines = [u[1:] for u in unified if u[0] in (" ", mark)]
        # only the lines of that side: their indentation has to rebuild its families
        ctx.probe("families-checked")
        got_paths = set(paths(lines, plan))
        if got_paths != set(side):
            raise Violation("diff-not-in-families", f"the {name} side of {unified} has the families {sorted(got_paths ^ set(side))} wrong\nold {old}\nnew {new}", key="families")
