"""N02: DNS lookups end in bounded time, report failures and true durations, and recover."""
from checks import N01, netcommon
from checks.netcommon import setup  # noqa: F401
from sim.core import Violation

ID = "N02"
RUNS = {"quick": 10000, "thorough": 400000}
RULE = ("one run = one history of 1-6 lookups with faults, followed by one lookup per server without any; trace = hash of the questions, of what "
        "happened to every datagram and connection, of the results and of the virtual times")
STATE_MEASURE = N01.STATE_MEASURE
REAL = N01.REAL
STUB = N01.STUB
ASSUMPTIONS = ["time passes only while the code under test waits (computing takes no simulated time)",
               "dnspython's own deadlines follow the wall clock: a backward step during a lookup may extend it by the size of the step, and a step "
               "during a lookup may make it fail"]
SLACK = 2.3     # dnspython sleeps up to 2 s between two attempts


def generate(rng, tier):
    plan = netcommon.generate(rng, tier, calm=0.15)
    # lookups after the faults
    for server in plan["servers"]:
        names = [(n, t) for n, d in sorted(server["data"].items()) for t in sorted(d) if t in netcommon.TYPES]
        if not names:
            continue
        name, rdtype = rng.choice(names)
        if rdtype == "PTR":
            fn = "dns_lookup"
        else:
            fn = rng.choice(["dns_query", "dns_lookup"])
        plan["lookups"].append({"fn": fn, "name": name, "type": rdtype, "server": server["ip"], "timeout": rng.choice([1, 2.5]), "pause": 60.0})
    return plan


def execute(plan, ctx):
    world = netcommon.World(plan, ctx)
    for item, outcome in world.run():
        timeout = float(item["timeout"])
        if outcome["stuck"]:
            raise Violation("endless", f"{item}: {outcome['stuck']}")
        limit = timeout + SLACK + outcome["back"] + outcome["resolve"]
        if outcome["elapsed"] > limit:
            raise Violation("too-long", f"{item} took {outcome['elapsed']:.3f} s of simulated time, more than {limit:.3f} s")
        true = outcome["elapsed"]
        for duration in outcome["durations"]:
            if not true - outcome["resolve"] - 1e-6 <= duration <= true + 1e-6:
                raise Violation("wrong-duration", f"{item} took {true:.6f} s, of which {outcome['resolve']:.6f} s to resolve the server, but reports {duration:.6f} s")
            if item.get("jumps") and duration > 0.1:
                ctx.probe("duration-over-clock-step")
        N01.judge(world, item, outcome, ctx)
        if not outcome["ok"]:
            named(world, item, outcome, ctx)
            if outcome["elapsed"] > timeout * 0.95:
                ctx.probe("failed-at-timeout")


def named(world, item, outcome, ctx):
    """The error says what went wrong."""
    error = outcome["error"]
    text = (type(error).__name__ + " " + str(error)).lower() if isinstance(error, BaseException) else str(error).lower()
    if item["type"].upper() == "AXFR":
        if not isinstance(error, Exception):
            raise Violation("unnamed-error", f"{item}: {error!r}")
        return
    if not outcome["hurt"] and not outcome["stale"]:
        if not any(word in text for word in ("nxdomain", "does not exist", "noanswer", "does not contain an answer")):
            raise Violation("unnamed-error", f"{item}: the name or record does not exist, but the error is {text!r}")
        return
    lost = [e for e in item.get("udp", ()) if e.get("drop") or e.get("reply") == "lost"]
    if len(item.get("udp", ())) == 1 and not item.get("tcp") and lost and not item.get("emfile") and "resolve" not in item and not item.get("jumps") and outcome["hurt"] == 1 and not outcome["stale"]:
        if not any(word in text for word in ("timeout", "timed out", "lifetime", "expired")):
            raise Violation("unnamed-error", f"{item}: the reply was lost, but the error is {text!r}")
        ctx.probe("named-timeout")


shrink_paths = N01.shrink_paths
simpler = N01.simpler
