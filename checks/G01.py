"""G01: failing or switched logging never changes results."""
import json
import os

from checks.common import CCP
from checks.diskcommon import Scratch
from sim import edits, gen, jobs, logs, model, target, typed
from sim.core import Violation
from sim.twin import Twin

ID = "G01"
RUNS = {"quick": 2500, "thorough": 80000}
CPU_LIMIT_S = 120       # (messages without end; a failing attribute writes up to some hundred messages)
RULE = "runs in which messages reached a sink or a debug level was set; distinct = distinct event histories"
STATE_MEASURE = "distinct (kind of work, debug level, read_only, logging changes before it, did it raise) tuples"
REAL = ["ciscoconfparse (all work of H01 plus files, saving and ccp_logger_control / configure_loguru)", "loguru: messages, tracebacks with diagnosis, catching of sink errors, levels, enabling and disabling"]
STUB = ["log sinks are streams and functions which fail on schedule", "the queue of enqueue=True and its thread (emptied by the simulator, also long after the work)", "standard output and error"]
ASSUMPTIONS = ["sinks are added as ciscoconfparse adds them or with loguru's default catch=True; a sink added with catch=False asks for its errors to be raised",
               "a log destination which blocks for ever is not simulated"]
KINDS = ["parse", "search", "edit", "edit", "typed", "typed", "hdiff", "diff", "sync_diff", "range", "collapse", "ip", "interface", "objects", "file", "file", "refused"]
MALFORMED = [" ip address 300.1.1.{n} 255.255.255.0", " ip address 10.1.1.{n} 255.255.300.0", " ip address 10.1.1.{n}", " ip address inside{n} 255.255.255.0", " ipv4 address 300.1.1.{n}/24", " ipv4 address 10.1.1.1 255.0.0.256", " ipv6 address 2001:zz::{n}/64",
             "ip route 10.0.0.0 255.0.0.256 1.1.1.{n}", "ip route 10.{n}.0.0/44 1.1.1.1", "route outside 10.0.0.0 255.0.0.256 1.1.1.{n} 1", " network-object host h-{n}", " port-object eq zz{n}", " switchport trunk allowed vlan 1-9999,a{n}", " standby x ip 1.1.1.{n}", " standby {n} timers x y", " standby {n} track x",
             " mtu x{n}", "ipv6 route zz::/{n} 2001::1", " channel-group x mode active", " storm-control broadcast level x", "interface Bogus", "interface GigabitEthernet{n}/1/1/1/1/1", "interface Po", " exec-timeout x {n}", "name 300.1.1.{n} host{n}", "access-list OUT_{n} extended permit", "logging x{n}", " peer-keepalive destination x{n}"]


def setup():
    CCP["mod"] = target.setup()


def make_job(rng):
    kind = rng.choice(KINDS)
    if kind in ("file", "refused"):
        syntax = rng.choice(["ios", "ios", "nxos", "iosxr", "asa"])
        factory = rng.random() < 0.4
        lines = typed.config(rng, syntax, rng.randint(1, 6)) if rng.random() < 0.5 else gen.config(rng, syntax, rng.randint(1, 8))
        job = {"kind": kind, "world": {"syntax": syntax, "factory": factory, "ignore_blank": True, "lines": lines},
               "ops": [edits.pattern_op(rng, syntax, factory, True) for _ in range(rng.randint(0, 3))]}
        if kind == "refused":
            job["bad"] = [rng.choice(["syntax", "type", "no_file", "insert", "regex", "uncommitted", "children", "dna", "attribute"]) for _ in range(rng.randint(1, 4))]
    else:
        job = jobs.make(rng, rng.choice([4, 8]), [kind], queries=3)
        if job.get("xr"):
            job["names"] = job["names"][:2]
    if job["kind"] in ("typed", "file", "parse") and rng.random() < 0.4:
        # statements which parse, with values which cannot be; each failing
        # attribute can write dozens of long messages, so that a part is read
        job["some"] = [rng.choice([8, 16, 32]), rng.randrange(32)]
        for _ in range(rng.randint(1, 4)):
            job["world"]["lines"].insert(rng.randint(0, len(job["world"]["lines"])), gen.fill(rng, rng.choice(MALFORMED)))
    if rng.random() < 0.45:
        job["debug"] = rng.choice([1, 1, 2, 3, 4, 5])
    if "world" in job and rng.random() < 0.25:
        job["world"]["read_only"] = True
    return job


def generate(rng, tier):
    steps = []
    for num in range(rng.randint(1, 4)):
        steps += [{"log": logs.make_control(rng)} for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        steps.append({"job": make_job(rng)})
    return {"steps": steps, "drain_every": rng.choice([0, 0, 1, 3, 10]), "queue_faults": [rng.randint(1, 20) for _ in range(rng.choice([0, 0, 2]))], "stderr": rng.choice(["good", "good", "none", "broken"])}


def shrink_paths(plan):
    paths = [["steps"], ["queue_faults"]]
    for num, step in enumerate(plan["steps"]):
        job = step.get("job", {})
        for key in ("ops", "queries", "old", "new", "nets", "vals", "names", "bad"):
            if job.get(key):
                paths.append(["steps", num, "job", key])
        if job.get("world"):
            paths.append(["steps", num, "job", "world", "lines"])
        if step.get("log", {}).get("sink"):
            paths += [["steps", num, "log", "sink", "faults"], ["steps", num, "log", "sink", "switches"]]
    return paths


def bad_call(mod, parse, what):
    if what == "syntax":
        return mod.CiscoConfParse(["a"], syntax="bogus")
    if what == "type":
        return mod.CiscoConfParse([1, 2])
    if what == "no_file":
        return mod.CiscoConfParse("no-such-file.cfg")
    if what == "insert":
        return parse.insert_after("", "")
    if what == "regex":
        return [o.text for o in parse.find_objects("(")]
    if what == "uncommitted":
        parse.ConfigObjs.insert(0, "hostname x")
        return [o.text for o in parse.find_objects(".")][:3]
    if what == "children":
        return parse.find_object_branches("abc")
    if what == "dna":
        return [o.text for o in parse.find_objects_dna("(")]
    obj = list(parse.ConfigObjs)[0]
    return obj.no_such_attribute


def work(mod, job):
    """The result of one job (JSON)."""
    if job["kind"] not in ("file", "refused"):
        return json.loads(json.dumps(jobs.run(mod, job, session=False), default=typed.canon))
    world = job["world"]
    try:
        with open("in.cfg", "w", encoding="utf-8") as fh:
            fh.write("\n".join(world["lines"]))
        sess = edits.Session(jobs._Quiet(), mod, world["lines"], world["syntax"], world["factory"], True, source="in.cfg" if job["kind"] == "file" else None, debug=job.get("debug", 0), read_only=world.get("read_only", False))
        out = [sess.real_texts()]
        for op in job["ops"]:
            try:
                getattr(sess, "op_" + op["op"])(op)
                out.append("done")
            except (Violation, ValueError, AttributeError, TypeError, IndexError, KeyError, NotImplementedError) as exc:
                out.append(type(exc).__name__)
        for what in job.get("bad", []):
            try:
                out.append(typed.canon(bad_call(mod, sess.parse, what)))
            except Exception as exc:
                out.append([type(exc).__name__, typed._ADDRESS.sub("", str(exc))[:200]])
        out.append(model.real_graph(sess.parse))
        sess.parse.save_as("out.cfg")
        with open("out.cfg", "rb") as fh:
            out.append(fh.read().decode("utf-8", "replace"))
        os.unlink("out.cfg")
        return json.loads(json.dumps(out, default=typed.canon))
    except (ValueError, AttributeError, TypeError, IndexError, KeyError, NotImplementedError) as exc:
        return ["raises", type(exc).__name__, typed._ADDRESS.sub("", str(exc))[:300]]


def silent(request):
    """In a clean process, without logging and debugging."""
    job = json.loads(json.dumps(request))
    job.pop("debug", None)
    job.get("world", {}).pop("read_only", None)
    return work(CCP["mod"], job)


def execute(plan, ctx):
    with Scratch(), Twin(silent) as twin:
        wants = [twin.ask(step["job"]) if "job" in step else None for step in plan["steps"]]
        results = []
        with logs.World(ctx, CCP["mod"], plan) as world:
            before = []
            for step, want in zip(plan["steps"], wants):
                ctx.steps += 1
                if "log" in step:
                    world.control(step["log"])
                    before.append(step["log"]["c"])
                    continue
                job = step["job"]
                at = world.messages
                got = work(CCP["mod"], job)
                if world.messages > at or job.get("debug"):
                    ctx.nontrivial = True
                if world.messages > at:
                    ctx.probe("messages during " + job["kind"])
                if job.get("world", {}).get("read_only"):
                    ctx.fault("read_only")
                if job.get("debug"):
                    ctx.fault("debug-level:%d" % job["debug"])
                ctx.state([job["kind"], job.get("debug", 0), job.get("world", {}).get("read_only"), before, got[:1] == ["raises"] if isinstance(got, list) else None])
                results.append(got)
                ctx.ev("job", job["kind"], got)
                if got != want:
                    raise Violation("result-differs", f"after {before}: {json.dumps(job)[:1500]} gave\n {json.dumps(got)[:2500]}\nand without logging\n {json.dumps(want)[:2500]}", key=job["kind"])
            world.drain()
