"""S01: a save which reports success has stored everything."""
import os

from checks.common import CCP, interleave, session, setup, world  # noqa: F401
from checks.diskcommon import ENCODINGS, Scratch, Violation, encodable, jdump, texts_and_families
from sim import disk, edits, gen, model

ID = "S01"
RUNS = {"quick": 8000, "thorough": 200000}
RULE = "runs in which a save was hit by a fault, or stored an edited configuration; distinct = distinct event histories"
STATE_MEASURE = "distinct (configuration text, faults, outcome, bytes on disk) combinations"
REAL = ["ciscoconfparse (four indented syntaxes, with and without factory)", "CPython io stack (TextIOWrapper, BufferedWriter) and codecs", "the scratch file system below the simulated device"]
STUB = ["raw device of the files: sim.disk.RawFile", "inspect.stack() does not read source files", "a process crash: every device operation after it is lost"]
ASSUMPTIONS = [
    "a crash loses what Python still buffered, not what the operating system accepted (no power loss)",
    "config lines contain no carriage returns or newlines",
]


def _faults(rng, size):
    r = rng.random()
    at = rng.randint(0, size) if rng.random() < 0.8 else rng.choice([0, max(0, size - 1), size])
    if r < 0.4:
        return [{"on": "write", "at": at, "errno": rng.choice(disk.WRITE_ERRORS)}]
    if r < 0.55:
        return [{"on": "open", "n": 1, "errno": rng.choice(disk.OPEN_ERRORS + ["EROFS", "ENOSPC"])}]
    if r < 0.7:
        return [{"on": "close", "n": 1, "errno": rng.choice(["EIO", "ENOSPC", "EDQUOT"])}]
    if r < 0.75:
        return [{"on": "rename", "n": 1, "errno": "EIO"}]
    return [{"on": "crash", "at": rng.choice([-1, at, at])}]


def generate(rng, tier):
    plan = world(rng, size=(0, 28) if rng.random() < 0.9 else (100, 400))
    plan["encoding"] = rng.choice(ENCODINGS)
    if rng.random() < 0.015:
        gen.enlarge(rng, plan["lines"])
    nbytes = sum(len(ln) + 1 for ln in plan["lines"]) * (2 if plan["encoding"] == "utf-16" else 1)
    ops = []
    for _ in range(rng.randint(1, 3)):
        for _ in range(rng.randint(0, 4)):
            ops.append(edits.pattern_op(rng, plan["syntax"], plan["factory"], plan["ignore_blank"]))
        if rng.random() < 0.6:
            ops.append({"op": "commit"})
        save = {"op": "save", "chunks": disk.chunks(rng), "buffer": rng.choice([0, 0, 16, 100, 1000]), "faults": _faults(rng, nbytes) if rng.random() < 0.7 else [],
                "file": rng.choice(["a.conf", "a.conf", "b.conf"]), "old": rng.choice([None, None, "old content\n", "x" * 40000])}
        ops.append(save)
        if save["faults"] and rng.random() < 0.8:
            ops.append(dict(save, faults=[], old=None))
    plan["ops"] = ops
    return plan


def shrink_paths(plan):
    return [["ops"], ["lines"]]


def execute(plan, ctx):
    with Scratch() as root:
        run(plan, ctx, root)


def run(plan, ctx, root):
    sess = session(plan, ctx)
    if plan["encoding"]:
        # the documented way: the encoding belongs to the parse
        sess.parse = sess.Parse(list(plan["lines"]), syntax=plan["syntax"], factory=plan["factory"], ignore_blank_lines=plan["ignore_blank"], encoding=plan["encoding"])
    encoding = plan["encoding"] or "utf-8"
    device = disk.Disk(root, ctx)
    for op in plan["ops"]:
        if op["op"] != "save":
            before = sess.conf.texts
            sess.apply(op)
            if sess.conf.texts != before:
                ctx.nontrivial = True
            continue
        if op["old"] is not None:
            with open(op["file"], "w", encoding=encoding) as fh:
                fh.write(op["old"])
        old = None
        if os.path.exists(op["file"]):
            with open(op["file"], "rb") as fh:
                old = fh.read()
        text = "".join(ln + "\n" for ln in sess.conf.texts)
        whole = text.encode(encoding, "replace") if text else b""
        fits = encodable(text, plan["encoding"])
        graph = jdump(model.real_graph(sess.parse))
        objs = list(sess.parse.ConfigObjs)
        device.reset(op["faults"], op["chunks"], op["buffer"])
        result = error = None
        with device:
            try:
                result = sess.parse.save_as(op["file"])
            except disk.SimCrash:
                error = "crash"
            except Exception as exc:
                error = type(exc).__name__
                leaked = device.leaked()
            else:
                leaked = device.leaked()
        ctx.steps += 1
        stored = None
        if os.path.exists(op["file"]):
            with open(op["file"], "rb") as fh:
                stored = fh.read()
        ctx.ev("save", device.fired, result if isinstance(result, (bool, type(None))) else repr(result), error, len(whole), None if stored is None else len(stored))
        ctx.state([sess.conf.texts, device.fired, error, None if stored is None else len(stored)])
        what = f"save {op}"
        if error == "crash":
            # restart: only the disk survives
            if not (stored == old or (stored is not None and whole.startswith(stored))):
                raise Violation("crash-left-other-content", f"{what} crashed and left {stored!r}\nold {old!r}\nnew {whole!r}", key="crash")
            ctx.probe("crash:" + ("complete" if stored == whole else "old" if stored == old else "prefix"))
            device.dead = False
            sess = restart(sess, plan, stored, encoding, op["file"], ctx)
            if sess is None:
                return
            continue
        if leaked:
            raise Violation("file-left-open", f"{what} left {leaked} open, error {error}", key="leak")
        if jdump(model.real_graph(sess.parse)) != graph or any(a is not b for a, b in zip(objs, sess.parse.ConfigObjs)):
            raise Violation("save-changed-config", f"{what} changed the configuration in memory", key="memory")
        if error is None and result is True:
            if not fits:
                raise Violation("incomplete-save-reported-complete", f"{what}: the text cannot be encoded in {encoding}, stored {stored!r}", key="encoding")
            if stored != whole:
                raise Violation("incomplete-save-reported-complete", f"{what} returned True, stored {stored!r}\n expected {whole!r}", key="incomplete")
            reload(sess, plan, op["file"], what)
        elif error is None:
            raise Violation("save-without-result", f"{what} returned {result!r} without raising", key="result")
        else:
            if not device.fired and fits:
                raise Violation("save-failed-without-fault", f"{what} raised {error}", key="spurious")
            if not (stored == old or (stored is not None and _prefix(stored, text, encoding))):
                raise Violation("failed-save-left-other-content", f"{what} raised {error} and left {stored!r}\nold {old!r}\nnew {whole!r}", key="content")


def _prefix(stored, text, encoding):
    """`stored` is a beginning of the text, whatever part of it can be encoded."""
    head = text
    while head and not encodable(head, encoding):
        head = head[:-1]
    return head.encode(encoding).startswith(stored) or (not head and stored in (b"", "".encode(encoding)))


def reload(sess, plan, name, what):
    kwargs = {"syntax": plan["syntax"], "factory": plan["factory"], "ignore_blank_lines": plan["ignore_blank"], "encoding": plan["encoding"] or "utf-8"}
    again = sess.Parse(name, **kwargs)
    # as a commit does, a reload drops the blank lines and the white space at
    # the end of lines which an edit left
    conf = model.Conf(sess.conf.texts, plan["syntax"], sess.comment, plan["factory"], plan["ignore_blank"])
    lines = conf.texts
    if again.ioscfg != lines:
        raise Violation("reload-differs", f"{what}: loading it again gives {again.ioscfg}\nsaved {lines}", key="reload")
    got = texts_and_families(again)
    want = [{k: v for k, v in row.items() if k != "linenum"} for row in model.model_graph(conf)]
    for num, (g, w) in enumerate(zip(got, want)):
        if any(g[k] != w[k] for k in w):
            raise Violation("reload-differs", f"{what}: line {num} is {g}, expected {w}", key="reload-family")


def restart(sess, plan, stored, encoding, name, ctx):
    """A new process loads what the crash left (or starts from the old text if there is nothing)."""
    if stored is None:
        return None
    try:
        lines = stored.decode(encoding).split("\n")
    except UnicodeDecodeError:
        ctx.probe("crash:torn-character")
        return None
    if plan["factory"]:
        return None     # a torn line may be one which the factory refuses
    if lines and lines[-1] == "":
        lines.pop()
    if plan["ignore_blank"]:
        lines = [ln for ln in lines if ln]
    new = edits.Session(ctx, CCP["mod"], lines, plan["syntax"], plan["factory"], plan["ignore_blank"])
    new.parse = new.Parse(name, syntax=plan["syntax"], factory=plan["factory"], ignore_blank_lines=plan["ignore_blank"], comment=new.comment, encoding=encoding)
    new.op_commit({})
    ctx.ev("restart", len(lines))
    return new
