"""D01: a diff of files is the diff of their contents, or an error."""
import os

from checks.common import CCP, setup as _setup
from checks.diskcommon import NEWLINES, Scratch, Violation, encodable, gen, read_faults
from sim import disk

ID = "D01"
RUNS = {"quick": 6000, "thorough": 150000}
RULE = "runs whose two configurations differ and where at least one is a file, or in which a read fault fired; distinct = distinct event histories"
STATE_MEASURE = "distinct (texts, ways to pass them, faults, outcome) combinations"
REAL = ["ciscoconfparse.Diff", "hier_config 2.x", "CPython io stack (TextIOWrapper, BufferedReader)", "the scratch file system below the simulated device"]
STUB = ["raw device of the files: sim.disk.RawFile", "inspect.stack() does not read source files"]
ASSUMPTIONS = [
    "the commands which hier_config derives from two texts are right (only that they are derived from the whole texts is claimed)",
    "files do not change while they are read, and their names are no valid configurations",
]
WAYS = ["text", "list", "tuple", "file", "file", "file"]


def setup():
    _setup()
    import ciscoconfparse.ciscoconfparse as inner

    CCP["Diff"] = inner.Diff


def _mutate(rng, lines):
    out = list(lines)
    for _ in range(rng.randint(0, 5)):
        r = rng.random()
        if out and r < 0.35:
            del out[rng.randint(0, len(out) - 1)]
        elif out and r < 0.6:
            num = rng.randint(0, len(out) - 1)
            out[num] = out[num][:len(out[num]) - len(out[num].lstrip())] + gen.line_text(rng)
        else:
            out.insert(rng.randint(0, len(out)), " " * rng.choice([0, 1, 1, 2]) + gen.line_text(rng))
    return out


def generate(rng, tier):
    size = rng.randint(0, 25) if rng.random() < 0.9 else rng.randint(100, 400)
    old = gen.config(rng, "ios", size, banners=False, macros=False)
    if rng.random() < 0.25:
        new = gen.config(rng, "ios", rng.randint(0, 25), banners=False, macros=False)
    else:
        new = _mutate(rng, old) if rng.random() < 0.9 else list(old)
    if rng.random() < 0.04:
        gen.enlarge(rng, rng.choice([old, new]))
        if rng.random() < 0.5:
            new = _mutate(rng, old)
    plan = {"old": old, "new": new, "diffs": [], "options": rng.choice([None, None, None, "a: 1\n", "- 1\n", "style: ios\nordering: []\n", ""])}
    plan["newline"] = [rng.choice(NEWLINES[:3]), rng.choice(NEWLINES[:3])]
    plan["end"] = [rng.random() < 0.8, rng.random() < 0.8]
    if rng.random() < 0.08:
        plan["undecodable"] = [rng.choice([None, rng.randint(0, 5000)]), rng.choice([None, rng.randint(0, 5000)])]
    nbytes = max(sum(len(ln) + 1 for ln in old), sum(len(ln) + 1 for ln in new))
    for _ in range(rng.randint(1, 4)):
        plan["diffs"].append({
            "ways": [rng.choice(WAYS), rng.choice(WAYS)], "chunks": disk.chunks(rng), "buffer": rng.choice([0, 0, 16, 100]),
            "faults": read_faults(rng, nbytes) if rng.random() < 0.5 else [], "swap": rng.random() < 0.2, "self": rng.random() < 0.1,
        })
    return plan


def shrink_paths(plan):
    return [["diffs"], ["old"], ["new"]]


def outcome(old, new):
    try:
        diff = CCP["Diff"](old_config=old, new_config=new)
        return [diff.diff(), diff.rollback()]
    except Exception as exc:
        return ["raises", type(exc).__name__, isinstance(exc, OSError)]


def execute(plan, ctx):
    with Scratch() as root:
        run(plan, ctx, root)


def run(plan, ctx, root):
    device = disk.Disk(root, ctx)
    sides = []
    for num, key in enumerate(("old", "new")):
        lines = [ln for ln in plan[key] if encodable(ln, None)]
        name = f"{key}.conf"
        data = (plan["newline"][num].join(lines) + (plan["newline"][num] if plan["end"][num] and lines else "")).encode()
        where = plan.get("undecodable", [None, None])[num]
        if where is not None:
            where %= len(data) + 1
            data = data[:where] + b"\xff" + data[where:]
        with open(name, "wb") as fh:
            fh.write(data)
        sides.append({"text": "\n".join(lines), "list": list(lines), "tuple": tuple(lines), "file": name, "data": data, "bad": where is not None})
    if plan["options"] is not None:
        with open("options_ios.yml", "w") as fh:
            fh.write(plan["options"])
    wanted = {}
    for item in plan["diffs"]:
        first, second = (1, 0) if item["swap"] else (0, 1)
        if item["self"]:
            second = first
        if (first, second) not in wanted:
            wanted[first, second] = outcome(sides[first]["text"], sides[second]["text"])
        want = wanted[first, second]
        device.reset(item["faults"], item["chunks"], item["buffer"])
        with device:
            got = outcome(sides[first][item["ways"][0]], sides[second][item["ways"][1]])
            leaked = device.leaked()
        ctx.steps += 1
        ctx.ev("diff", item["ways"], first, second, device.fired, got)
        ctx.state([sides[first]["text"], sides[second]["text"], item["ways"], device.fired])
        what = f"Diff of {item}"
        if "file" in item["ways"] and want != [[], []]:
            ctx.nontrivial = True
        bad = any(way == "file" and sides[num]["bad"] for way, num in zip(item["ways"], (first, second)))
        if bad:
            ctx.fault("undecodable-bytes")
            ctx.nontrivial = True
            if got[0] != "raises":
                raise Violation("undecodable-file-compared", f"{what} gave\n {got}\nalthough a file cannot be decoded", key="undecodable")
        elif got[0] == "raises" and device.fired:
            if not got[2]:
                ctx.probe("fault-reported-as:" + got[1])
        elif got != want:
            if got[0] == "raises" and want[0] == "raises":
                continue
            raise Violation("diff-of-files-differs", f"{what} gave\n {got}\nthe diff of the texts is\n {want}", key="diff")
        if leaked and got[0] != "raises":
            raise Violation("file-left-open", f"{what} left {leaked} open", key="leak")
        if item["self"] and got[0] != "raises" and got != [[], []]:
            raise Violation("self-diff-not-empty", f"{what} gave {got}", key="self")
        for side in sides:
            with open(side["file"], "rb") as fh:
                if fh.read() != side["data"]:
                    raise Violation("diff-changed-file", f"{what} changed {side['file']}", key="changed")
    if sorted(os.listdir(root)) != sorted(["old.conf", "new.conf"] + (["options_ios.yml"] if plan["options"] is not None else [])):
        raise Violation("diff-left-files", f"{os.listdir(root)}", key="files")
