"""N01: a DNS lookup returns exactly the answers of the server that was asked."""
import collections

from checks import netcommon
from checks.netcommon import setup  # noqa: F401
from sim.core import Violation

ID = "N01"
RUNS = {"quick": 12000, "thorough": 400000}
RULE = ("one run = one history of 1-6 lookups against 2-3 simulated name servers which know different things about the same names; trace = "
        "hash of the questions, of what happened to every datagram and connection, and of the results")
STATE_MEASURE = "distinct (function, record type, outcome, kinds of faults met so far) tuples"
REAL = ["ciscoconfparse.ccp_util: dns_query, dns_lookup, dns6_lookup, reverse_dns_lookup, check_valid_ipaddress", "dnspython"]
STUB = ["sockets, selector, clocks, message ids, /etc/resolv.conf and the operating system's name service (sim/net.py)",
        "the name servers (sim/net.py)"]
ASSUMPTIONS = ["a reply which an attacker forged with the right id, port, source and question cannot be told from the server's and is not injected",
               "names are looked up without a search list"]


def generate(rng, tier):
    return netcommon.generate(rng, tier, calm=0.25)


def execute(plan, ctx):
    world = netcommon.World(plan, ctx)
    for item, outcome in world.run():
        judge(world, item, outcome, ctx)


def judge(world, item, outcome, ctx):
    allowed = world.candidates(item, outcome)
    rdtype = item["type"].upper()
    strangers = outcome["sent_to"] - set(world.asked(item))
    if strangers:
        raise Violation("wrong-server", f"{item} asked {sorted(strangers)}, not only {world.asked(item)}")
    if outcome["ok"]:
        got = collections.Counter(outcome["values"])
        fits = [c for c in allowed if c is not None and (c == got or (item["fn"] == "reverse_dns_lookup" and len(got) == 1 and not got - c))]
        if not fits:
            raise Violation("wrong-answer", f"{item}\nreturned {sorted(map(str, got.elements()))}\nthe server has {[c and sorted(map(str, c.elements())) for c in allowed]}")
        ctx.probe("answered:" + rdtype)
        if len(got) > 20:
            ctx.probe("answered-large")
        if outcome["hurt"]:
            ctx.probe("answered-in-spite-of-faults")
        if outcome["stale"]:
            ctx.probe("answered-with-stale-replies-around")
        return
    error = outcome["error"]
    if error is None or not (str(error) or isinstance(error, BaseException)):
        raise Violation("silent-failure", f"{item}: neither an answer nor an error")
    if not outcome["hurt"] and not outcome["stale"] and allowed and None not in allowed:
        raise Violation("failed-without-a-fault", f"{item} failed with {error!r} although nothing went wrong; the server has "
                        f"{[sorted(map(str, c.elements())) for c in allowed]}")
    ctx.probe("failed" if outcome["hurt"] or outcome["stale"] else "no-such-record")


def shrink_paths(plan):
    paths = [["lookups"]]
    for num, item in enumerate(plan["lookups"]):
        for key in ("udp", "tcp", "jumps"):
            if item.get(key):
                paths.append(["lookups", num, key])
    return paths


def simpler(plan):
    import json

    for num, item in enumerate(plan["lookups"]):
        for key in ("update", "pause", "step", "resolve", "jumps", "udp", "tcp", "emfile"):
            if key in item:
                new = json.loads(json.dumps(plan))
                del new["lookups"][num][key]
                yield new
    for num, server in enumerate(plan["servers"]):
        for name in list(server["data"]):
            new = json.loads(json.dumps(plan))
            del new["servers"][num]["data"][name]
            yield new
