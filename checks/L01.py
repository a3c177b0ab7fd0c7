"""L01: loading a file gives every line of it, or an error."""
import os
import pathlib

from checks.common import CCP, setup  # noqa: F401
from checks.diskcommon import ENCODINGS, NEWLINES, ODD, Scratch, Violation, encodable, file_lines, gen, jdump, read_faults, texts_and_families
from sim import disk, model

ID = "L01"
RUNS = {"quick": 10000, "thorough": 250000}
RULE = "runs in which the disk misbehaved, or whose file is unusual (line ends, encoding, bytes that do not decode); distinct = distinct event histories"
STATE_MEASURE = "distinct (file content, faults, outcome) combinations"
REAL = ["ciscoconfparse (all five syntaxes, with and without factory)", "CPython io stack (TextIOWrapper, BufferedReader) and codecs", "the scratch file system below the simulated device"]
STUB = ["raw device of the files: sim.disk.RawFile", "inspect.stack() does not read source files"]
ASSUMPTIONS = [
    "the file does not change while it is read",
    "a lone carriage return ends a line, as everywhere in Python text files",
]


def generate(rng, tier):
    syntax = rng.choice(["ios", "ios", "nxos", "iosxr", "asa", "junos"])
    plan = {"syntax": syntax, "factory": rng.random() < 0.3, "ignore_blank": rng.random() < 0.7, "encoding": rng.choice(ENCODINGS),
            "newline": rng.choice(NEWLINES), "final_newline": rng.random() < 0.75, "pathlib": rng.random() < 0.2, "loads": []}
    size = rng.randint(0, 30 if rng.random() < 0.9 else 400)
    if syntax == "junos":
        plan["nodes"] = gen.junos(rng, max(1, size))
        plan["lines"] = gen.junos_render(plan["nodes"])
    else:
        plan["lines"] = gen.config(rng, syntax, size, indented_banners=rng.random() < 0.5)
        if rng.random() < 0.15 and not plan["factory"]:
            plan["lines"].insert(rng.randint(0, len(plan["lines"])), rng.choice(ODD))
    if rng.random() < 0.015 and syntax != "junos":
        gen.enlarge(rng, plan["lines"])
    if not all(encodable(ln, plan["encoding"]) for ln in plan["lines"]):
        plan["lines"] = [ln for ln in plan["lines"] if encodable(ln, plan["encoding"])]
    if rng.random() < 0.1:
        plan["undecodable"] = rng.randint(0, 5000)
    nbytes = sum(len(ln) + 1 for ln in plan["lines"])
    for _ in range(rng.randint(1, 3)):
        r = rng.random()
        load = {"chunks": disk.chunks(rng), "buffer": rng.choice([0, 0, 16, 100, 1000]), "faults": read_faults(rng, nbytes) if r < 0.6 else []}
        if r > 0.9:
            load["special"] = rng.choice(["missing", "directory", "empty-name", "broken-link"])
        plan["loads"].append(load)
    plan["loads"].append({"chunks": disk.chunks(rng), "buffer": 0, "faults": []})
    return plan


def shrink_paths(plan):
    return [["loads"], ["lines"]]


def execute(plan, ctx):
    with Scratch() as root:
        run(plan, ctx, root)


def run(plan, ctx, root):
    Parse = CCP["mod"].CiscoConfParse
    kwargs = {"syntax": plan["syntax"], "factory": plan["factory"], "ignore_blank_lines": plan["ignore_blank"]}
    if plan["encoding"]:
        kwargs["encoding"] = plan["encoding"]
    text = plan["newline"].join(plan["lines"]) + (plan["newline"] if plan["final_newline"] and plan["lines"] else "")
    data = text.encode(plan["encoding"] or "utf-8")
    decodable = True
    if "undecodable" in plan and plan["encoding"] in (None, "utf-8", "ascii"):
        pos = plan["undecodable"] % (len(data) + 1)
        data = data[:pos] + b"\xff\xfe" + data[pos:]
        decodable = False
        ctx.fault("undecodable-bytes")
    with open("device.conf", "wb") as fh:
        fh.write(data)
    os.mkdir("directory.conf")
    os.symlink("nowhere.conf", "link.conf")
    lines = file_lines(text, plan["ignore_blank"] and not plan["factory"])
    want_parse = Parse(lines, **kwargs) if lines or plan["syntax"] != "junos" else None
    want = texts_and_families(want_parse) if want_parse is not None else None
    first = jdump(model.real_graph(want_parse)) if want_parse is not None else None
    if plan["newline"] != "\n" or plan["encoding"]:
        ctx.nontrivial = True
    ctx.ev("file", len(data), plan["newline"], plan["encoding"], decodable, len(lines))

    device = disk.Disk(root, ctx)
    for num, load in enumerate(plan["loads"]):
        name = {"missing": "nothing.conf", "directory": "directory.conf", "empty-name": "", "broken-link": "link.conf"}.get(load.get("special"), "device.conf")
        path = pathlib.Path(name) if plan["pathlib"] and name else name
        device.reset(load["faults"], load["chunks"], load["buffer"])
        parse = error = None
        with device:
            try:
                parse = Parse(path, **kwargs)
                leaked = device.leaked()
            except Exception as exc:
                error = type(exc).__name__
                leaked = device.leaked()
        ctx.steps += 1
        ctx.ev("load", num, load.get("special"), device.fired, error, None if parse is None else len(parse.ConfigObjs))
        what = f"load {num} ({load})"
        if leaked:
            raise Violation("file-left-open", f"{what} left {leaked} open, error {error}", key="leak")
        if load.get("special"):
            ctx.fault("path:" + load["special"])
            if parse is not None and not (load["special"] == "empty-name" and parse.ioscfg == []):
                raise Violation("configuration-from-nothing", f"{what} gave {parse.ioscfg}", key="special")
        elif parse is not None:
            if not decodable:
                raise Violation("undecodable-file-accepted", f"{what} gave {parse.ioscfg} for {data!r}", key="undecodable")
            if device.fired:
                # the device reported an error: a full result is still right
                ctx.probe("loaded-despite-fault")
            got = texts_and_families(parse)
            if got != want:
                raise Violation("wrong-lines-loaded", f"{what} gave\n {[r['text'] for r in got]}\nthe file has\n {[r['text'] for r in want or []]}\nfirst difference: {_diff(got, want)}", key="lines")
            parse.commit()
            nums = [obj.linenum for obj in parse.ConfigObjs]
            if nums != sorted(set(nums)):
                raise Violation("wrong-line-numbers", f"{what}: {nums}", key="linenum")
        elif not device.fired and decodable and not (plan["syntax"] == "junos" and not lines):
            raise Violation("load-failed-without-fault", f"{what} raised {error}", key="spurious")
        ctx.state([data.hex() if len(data) < 3000 else len(data), device.fired, error])
    if want_parse is not None and jdump(model.real_graph(want_parse)) != first:
        raise Violation("other-configuration-changed", "a load changed a configuration loaded earlier", key="other")


def _diff(got, want):
    for num, (g, w) in enumerate(zip(got, want)):
        if g != w:
            return num, g, w
    return len(got), len(want)
