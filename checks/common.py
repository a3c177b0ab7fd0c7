"""Shared parts of the edit-history checks."""
from sim import edits, gen, target
from sim.core import HarnessError, tb_in_repo

CCP = {}


def setup():
    CCP["mod"] = target.setup()


def world(rng, size=(1, 28), factory=0.25, ignore_blank=0.75, indented_banners=0.5, wide=0.04):
    syntax = rng.choice(["ios", "ios", "ios", "nxos", "iosxr", "asa"])
    return {
        "syntax": syntax,
        "factory": rng.random() < factory,
        "ignore_blank": rng.random() < ignore_blank,
        "lines": gen.config(rng, syntax, rng.randint(*size), indented_banners=rng.random() < indented_banners, wide=wide),
    }


def session(plan, ctx):
    sess = edits.Session(ctx, CCP["mod"], plan["lines"], plan["syntax"], plan["factory"], plan["ignore_blank"])
    ctx.ev("parse", plan["syntax"], plan["factory"], plan["ignore_blank"], len(plan["lines"]))
    return sess


def interleave(rng, clients, count, make):
    """A schedule: `count` operations, each of a client picked by the scheduler."""
    ops = []
    for _ in range(count):
        client = rng.choice(clients)
        op = make(client)
        op["client"] = client
        ops.append(op)
    return ops


def simpler_lines(plan):
    """Smaller texts for the shrinker."""
    for num, line in enumerate(plan["lines"]):
        if line.strip() and not line.strip().startswith("x"):
            new = dict(plan)
            new["lines"] = list(plan["lines"])
            new["lines"][num] = " " * (len(line) - len(line.lstrip())) + "x%d" % num
            yield new


__all__ = ["CCP", "setup", "world", "session", "interleave", "HarnessError", "tb_in_repo"]
