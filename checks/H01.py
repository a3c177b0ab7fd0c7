"""H01: restarting the program does not change any result or its order."""
import json

from checks.common import CCP
from sim import helper, jobs, target
from sim.core import HarnessError, Violation

ID = "H01"
RUNS = {"quick": 3000, "thorough": 120000}
RULE = "one run = the same work in 2-3 processes with different hash seeds, memory layouts and earlier histories; trace = hash of the results"
STATE_MEASURE = "distinct (kind of work, hash seeds, lengths of the histories) tuples"
REAL = ["ciscoconfparse (parsing, searching, editing, typed attributes, HDiff, Diff, sync_diff, CiscoRange, collapse_addresses, IP, interface, port and password objects)",
        "hier_config", "the interpreter's string hashing and memory allocator, in processes of their own"]
STUB = ["the hash seed of each process is chosen by the plan (PYTHONHASHSEED)", "address space randomisation is switched off; addresses vary with the histories and with litter allocated on purpose"]
ASSUMPTIONS = ["values whose type is a set are compared without order"]
HASHSEEDS = [0, 1, 2, 7, 4242, 99991, 123456789]


def setup():
    CCP["mod"] = target.setup()
    CCP["helpers"] = helper.Helpers(HASHSEEDS)


def generate(rng, tier):
    work = []
    for _ in range(rng.randint(1, 4)):
        job = jobs.make(rng, rng.choice([6, 14, 24]), kinds=jobs.KINDS + ["typed", "typed", "search", "hdiff"], queries=9)
        work.append(job)
    procs = []
    for num in range(rng.choice([2, 3, 3])):
        history = []
        if num and rng.random() < 0.7:
            history = [jobs.make(rng, 12) for _ in range(rng.randint(1, 4))]
            if rng.random() < 0.3:
                # something similar was done before
                history.append(json.loads(json.dumps(rng.choice(work))))
                if history[-1].get("world", {}).get("lines"):
                    history[-1]["world"]["lines"] = history[-1]["world"]["lines"][:-1]
        procs.append({"helper": rng.randrange(len(HASHSEEDS)), "history": history, "noise": rng.randint(1, 10 ** 6) if num else 0})
    return {"work": work, "procs": procs}


def execute(plan, ctx):
    answers = []
    for proc in plan["procs"]:
        reply = CCP["helpers"].ask(proc["helper"], {"work": plan["work"], "history": proc["history"], "noise": proc["noise"]})
        if "error" in reply:
            if reply.get("repo"):
                raise Violation("unexpected-exception", reply["error"])
            raise HarnessError(reply["error"])
        answers.append(reply["results"])
        ctx.fault("hash-seed:%d" % HASHSEEDS[proc["helper"]])
        if proc["history"]:
            ctx.fault("earlier-history", len(proc["history"]))
        if proc["noise"]:
            ctx.fault("moved-addresses")
        ctx.steps += len(plan["work"])
    base = answers[0][0]
    for num, (first, again) in enumerate(answers):
        for job, one, two, want in zip(plan["work"], first, again, base):
            ctx.probe("work:" + job["kind"])
            if one != two:
                raise Violation("repetition-differs", f"process {num}: {json.dumps(job)[:1500]} gave\n {json.dumps(one)[:2500]}\nand, repeated,\n {json.dumps(two)[:2500]}", key=job["kind"])
            if one != want:
                raise Violation("processes-differ", f"{json.dumps(job)[:1500]} gave\n {json.dumps(want)[:2500]}\nand in process {num} {plan['procs'][num]}\n {json.dumps(one)[:2500]}", key=job["kind"])
    if len(plan["procs"]) > 1:
        ctx.nontrivial = True
    ctx.state([[j["kind"] for j in plan["work"]], [p["helper"] for p in plan["procs"]], [len(p["history"]) for p in plan["procs"]]])
    ctx.ev("results", base)


def shrink_paths(plan):
    paths = [["work"], ["procs"]] + [["procs", n, "history"] for n in range(len(plan["procs"]))]
    for num, job in enumerate(plan["work"]):
        for key in ("ops", "queries", "old", "new", "nets", "vals", "names"):
            if job.get(key):
                paths.append(["work", num, key])
        if job.get("world"):
            paths.append(["work", num, "world", "lines"])
    return paths


def simpler(plan):
    for num, proc in enumerate(plan["procs"]):
        if proc["noise"]:
            new = json.loads(json.dumps(plan))
            new["procs"][num]["noise"] = 0
            yield new
