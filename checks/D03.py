"""D03: pushing the commands which a diff gives brings a device to the wanted configuration."""
import re

from checks.common import CCP, setup as _setup
from sim import gen
from sim.core import Violation

ID = "D03"
RUNS = {"quick": 5000, "thorough": 150000}
RULE = "runs in which at least one command was pushed to the device; distinct = distinct event histories"
STATE_MEASURE = "distinct (configuration of the device, commands pushed) pairs"
REAL = ["ciscoconfparse (Diff, HDiff, sync_diff, req_cfgspec_excl_diff, req_cfgspec_all_diff, CiscoConfParse)", "hier_config (the back end of Diff)"]
STUB = ["the network device, its running and its startup configuration (a tree of commands)", "the terminal session on which commands are pushed", "a second operator", "inspect.stack() does not read source files"]
ASSUMPTIONS = [
    "every command of the configurations is positive, stands once in its section and goes away by `no` and its whole text; description and ip address of an interface replace the present one; commands which leave a section have no other effect",
    "no banners, macros, comments, extended access lists (which diffs number), `version` and other statements which diffs leave out on purpose",
    "sync_diff() and the req_cfgspec diffs are asked about top-level commands without children; the exclusive one also about the removal of commands inside sections",
]
# top-level commands a standard is enforced for: (pattern, make a line)
# (a device takes the first words of a command for the command when it is to be removed)
STANDARDS = [(r"^logging 192\.0\.2\.\d+$", "logging 192.0.2.{n}"), (r"^ntp server .+$", "ntp server 192.0.2.{n}"), (r"^ip name-server .*", "ip name-server 192.0.2.{n}"), (r"^snmp-server community \S+ RO", "snmp-server community pub{n} RO"),
             (r"^(?:logging|ntp server) \d+.*", "logging 192.0.2.{n}"), (r"^username\s+\S+.*$", "username user{n} password 0 p*ss.[w{n}]"), (r"^access-list 10\d .+", "access-list 10{n} permit ip any any")]
INNER = [(r"^\s+mtu \d+", r"mtu \d+"), (r"^\s+network .*", r"network .*"), (r"^\s+switchport.*", r"switchport .*"), (r"^\s+shutdown$", r"shutdown$"), (r"bandwidth percent", r"bandwidth.+"), (r"^\s+neighbor \S+ remote", r"neighbor \S+ .+")]
SHORT = [r"username \S+", r"snmp-server community\s+\S+", r"access-list \S+ permit", r"^\S+(?: \S+)? \S+"]
LEFT_OUT = re.compile(r"ip access-list|no |no$|exit|end|version|banner|macro|!|.*secondary$")


def setup():
    _setup()
    import ciscoconfparse.ciscoconfparse as inner

    CCP["Diff"] = inner.Diff


# -- the device -----------------------------------------------------------

def slot(path, text):
    """Commands with the same slot in a section replace each other."""
    if len(path) == 1 and path[0].startswith("interface"):
        for word in ("description", "ip address"):
            if text.startswith(word):
                return word
    return text


def walk(lines):
    """(path of the section, text) for every line, by indentation."""
    stack = []
    for line in lines:
        text = line.strip()
        if not text:
            continue
        depth = len(line) - len(line.lstrip())
        while stack and stack[-1][0] >= depth:
            stack.pop()
        yield [name for _, name in stack], text, stack, depth


class Device:
    def __init__(self, lines):
        self.running = {}
        self.enter(lines)
        self.write()

    def write(self):
        self.startup = list(self.show())

    def reboot(self):
        self.running = {}
        self.enter(self.startup)

    def enter(self, commands):
        for path, text, stack, depth in walk(commands):
            if text.startswith("exit"):
                continue
            at = self.running
            for name in path:
                at = at.setdefault(name, {})
            if text.startswith("no "):
                for name in [text[3:]] if text[3:] in at else [name for name in at if not path and name.startswith(text[3:] + " ")]:
                    del at[name]
                continue
            mine = slot(path, text)
            for other in [name for name in at if name != text and slot(path, name) == mine]:
                del at[other]
            at.setdefault(text, {})
            stack.append((depth, text))

    def show(self, at=None, depth=0):
        for text, below in (self.running if at is None else at).items():
            yield " " * depth + text
            yield from self.show(below, depth + 1)

    def lines(self):
        return list(self.show())

    def tree(self):
        return plain(self.running)

    def operator(self, edit):
        """Another operator adds or removes a command somewhere."""
        at = self.running
        path = []
        for step in edit["path"]:
            if not at:
                break
            name = list(at)[step % len(at)]
            path.append(name)
            at = at[name]
        if edit["new"] is None:
            if path:
                self.enter([" " * num + name for num, name in enumerate(path[:-1])] + [" " * (len(path) - 1) + "no " + path[-1]])
        else:
            self.enter([" " * num + name for num, name in enumerate(path)] + [" " * len(path) + edit["new"]])


def plain(tree):
    return {name: plain(below) for name, below in sorted(tree.items())}


# -- plans ----------------------------------------------------------------

def command(rng, inner=True):
    while True:
        text = gen.fill(rng, rng.choice(gen.CHILDREN if inner else gen.ROOTS + gen.LEAFS))
        if not LEFT_OUT.match(text):
            return text


def make_edit(rng):
    path = [rng.randint(0, 99) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
    return {"path": path, "new": command(rng, bool(path)) if rng.random() < 0.55 else None}


def config(rng, size):
    lines = gen.config(rng, "ios", size, blanks=False, comments=False, banners=False, macros=False, irregular=False, trailing=False)
    device = Device([line for line in lines if not LEFT_OUT.match(line.strip())])
    if rng.random() < 0.3:
        # sections with the same contents
        sections = [name for name, below in device.running.items() if any(below.values())] or list(device.running)
        if sections:
            name = rng.choice(sections)
            for num in range(rng.randint(1, 2)):
                other = re.sub(r"\d+", lambda mm: mm[0] + str(num), name, count=1)
                if slot([], name) == name and other != name:
                    device.enter([other] + list(device.show(device.running[name], 1)))
    if rng.random() < 0.3:
        device.enter([gen.fill(rng, rng.choice(STANDARDS)[1], 23) for _ in range(rng.randint(1, 5))])
    return device.lines()


def generate(rng, tier):
    size = rng.choice([0, 3, 8, 14, 25])
    lines = config(rng, rng.randint(0, size))
    if rng.random() < 0.6:
        device = Device(lines)
        for _ in range(rng.choice([0, 1, 1, 2, 3, 6])):
            device.operator(make_edit(rng))
        wanted = device.lines()
        if rng.random() < 0.2:
            wanted = reordered(rng, device.running)
    else:
        wanted = config(rng, rng.randint(0, size))
    plan = {"lines": lines, "wanted": wanted, "ops": []}
    for _ in range(rng.randint(0, 5)):
        r = rng.random()
        if r < 0.45:
            op = {"op": "push", "form": rng.choice(["list", "tuple", "text", "parse", "blank lines"]), "rollback": rng.random() < 0.3}
            faults(rng, op)
        elif r < 0.55:
            op = {"op": "operator", "edit": make_edit(rng)}
        elif r < 0.65:
            op = {"op": rng.choice(["reboot", "write", "write"])}
        elif r < 0.9:
            regex, make = rng.choice(STANDARDS)
            op = {"op": rng.choice(["sync", "excl", "all"]), "regex": regex, "undo": rng.choice([regex] + [short for short in SHORT if re.match(short, make)]), "lines": list(dict.fromkeys(gen.fill(rng, make, rng.choice([4, 23])) for _ in range(rng.randint(0, 4))))}
            if op["op"] == "sync":
                op["remove"] = rng.random() < 0.8
            faults(rng, op)
        elif r < 0.95:
            device = Device(plan["wanted"])
            for _ in range(rng.randint(1, 5)):
                device.operator(make_edit(rng))
            op = {"op": "merge", "lines": device.lines()}
            faults(rng, op)
        else:
            regex, undo = rng.choice(INNER)
            op = {"op": "inner", "regex": regex, "undo": undo}
            faults(rng, op)
        plan["ops"].append(op)
    plan["last"] = rng.choice(["list", "text", "parse"])
    return plan


def reordered(rng, tree, depth=0):
    names = list(tree)
    rng.shuffle(names)
    out = []
    for name in names:
        out.append(" " * depth + name)
        out.extend(reordered(rng, tree[name], depth + 1))
    return out


def faults(rng, op):
    if rng.random() < 0.4:
        op["fault"] = rng.choice(["cut", "cut", "twice", "operator", "reboot"])
        op["at"] = round(rng.random(), 3)
        op["edit"] = make_edit(rng)


def shrink_paths(plan):
    return [["ops"], ["lines"], ["wanted"]]


# -- runs -----------------------------------------------------------------

def given(lines, form):
    if form == "text":
        return "\n".join(lines)
    if form == "tuple":
        return tuple(lines)
    if form == "parse":
        return CCP["mod"].CiscoConfParse(list(lines), syntax="ios").ioscfg if lines else []
    if form == "blank lines":
        return "\n\n".join(lines) + "\n!\n"
    return list(lines)


def push(device, commands, op, ctx):
    """Types the commands into the device; True if nothing went wrong meanwhile."""
    fault = op.get("fault")
    ctx.state((device.lines(), commands))
    if commands:
        ctx.nontrivial = True
    where = int(op.get("at", 0) * (len(commands) + 1))
    if fault == "cut":
        ctx.fault("push cut off")
        device.enter(commands[:where])
        return where >= len(commands)
    if fault == "twice":
        ctx.fault("push repeated")
        device.enter(commands)
        device.enter(commands)
        return True
    if fault == "operator":
        ctx.fault("operator changes the device before the push")
        device.operator(op["edit"])
        device.enter(commands)
        return False
    if fault == "reboot":
        ctx.fault("device reboots during the push")
        device.enter(commands[:where])
        device.reboot()
        return False
    device.enter(commands)
    return True


def expect(device, tree, what, commands, ctx):
    ctx.probe(what)
    if device.tree() != tree:
        ctx_lines = "\n ".join(device.lines())
        raise Violation("not-converged", f"after pushing the commands of {what}\n {commands}\nthe device holds\n {ctx_lines}\ninstead of\n {tree}", key=what)


def execute(plan, ctx):
    device = Device(plan["lines"])
    goal = Device(plan["wanted"])
    wanted, want_tree = goal.lines(), goal.tree()
    wanted = plan["wanted"] if Device(plan["wanted"]).tree() == want_tree and len(plan["wanted"]) == len(wanted) else wanted
    for op in plan["ops"]:
        ctx.steps += 1
        kind = op["op"]
        if kind == "operator":
            ctx.fault("operator changes the device")
            device.operator(op["edit"])
        elif kind == "reboot":
            ctx.fault("device reboots")
            device.reboot()
        elif kind == "write":
            device.write()
        elif kind == "push":
            old = device.lines()
            before = device.tree()
            diff = CCP["Diff"](old_config=given(old, op["form"]), new_config=given(wanted, op["form"]))
            commands = diff.diff()
            clean = push(device, commands, op, ctx)
            if clean:
                expect(device, want_tree, "a diff", commands, ctx)
                if op["rollback"]:
                    commands = diff.rollback()
                    push(device, commands, {}, ctx)
                    expect(device, before, "a rollback", commands, ctx)
        else:
            standard(device, op, ctx)
        ctx.ev(kind, device.lines())
    commands = CCP["Diff"](old_config=given(device.lines(), plan["last"]), new_config=given(wanted, plan["last"])).diff()
    push(device, commands, {}, ctx)
    expect(device, want_tree, "the last diff", commands, ctx)
    commands = CCP["Diff"](old_config=given(device.lines(), plan["last"]), new_config=given(wanted, plan["last"])).diff()
    if commands:
        raise Violation("needless-commands", f"the device holds the wanted configuration, but the diff gives\n {commands}", key="needless")
    ctx.ev("end", device.lines())


def standard(device, op, ctx):
    """Enforces a standard for some commands and leaves all others alone."""
    kind = op["op"]
    lines = device.lines()
    if kind == "merge":
        commands = CCP["mod"].CiscoConfParse(list(lines), syntax="ios").sync_diff(list(op["lines"]), "", "", remove_lines=False)
        aim = Device(lines)
        aim.enter(op["lines"])
        tree = aim.tree()
        if push(device, commands, op, ctx):
            expect(device, tree, kind, commands, ctx)
        return
    if any(re.search(op["regex"], name) and below for name, below in device.running.items()):
        return
    if kind == "inner" and any(re.search(op["regex"], " " + text) and (not path or below(device.running, path)[text]) for path, text, stack, depth in spots(device.running)):
        return      # a command which matches is a section, or at the top
    parse = CCP["mod"].CiscoConfParse(list(lines), syntax="ios")
    aim = Device(lines)
    if kind == "inner":
        commands = parse.req_cfgspec_excl_diff(op["regex"], op["undo"], [])
        for path, text, stack, depth in list(spots(aim.running)):
            if re.search(op["regex"], " " * len(path) + text):
                del below(aim.running, path)[text]
    else:
        if kind == "sync":
            commands = parse.sync_diff(list(op["lines"]), op["regex"], op["undo"], remove_lines=op["remove"])
        elif kind == "excl":
            commands = parse.req_cfgspec_excl_diff(op["regex"], op["undo"], list(op["lines"]))
        else:
            commands = parse.req_cfgspec_all_diff(list(op["lines"]))
        if kind == "excl" or (kind == "sync" and op["remove"]):
            gone = [name for name in aim.running if re.search(op["regex"], name) and name not in op["lines"]]
            undo = ["no " + re.search(op["undo"], name)[0] for name in gone]
            if [text for text in commands if text.startswith("no ")] != undo:
                raise Violation("wrong-removals", f"{op} gives\n {commands}\ninstead of the removals\n {undo}", key=kind)
            if any(sum(other.startswith(text[3:] + " ") or other == text[3:] for other in aim.running) > 1 for text in undo):
                return
            for name in list(aim.running):
                if re.search(op["regex"], name) and name not in op["lines"]:
                    del aim.running[name]
        for text in op["lines"]:
            if kind != "sync" or re.search(op["regex"], text):
                aim.running.setdefault(text, {})
    tree = aim.tree()
    if push(device, commands, op, ctx):
        expect(device, tree, kind, commands, ctx)


def below(tree, path):
    for name in path:
        tree = tree[name]
    return tree


def spots(tree, path=()):
    """(path, text, None, None) of every command, deepest last."""
    for name in list(tree):
        yield list(path), name, None, None
        yield from spots(tree[name], path + (name,))
