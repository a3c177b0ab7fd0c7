"""
Jobs: pieces of work for the code under test, as JSON, with JSON results.

They need nothing but what the plan holds, so the same job can run in another
thread, another process, or with another logging set-up, and its result can be
compared.
"""
from sim import edits, gen, model, search, typed

KINDS = ["parse", "search", "edit", "typed", "hdiff", "diff", "sync_diff", "range", "collapse", "ip", "interface", "objects"]
SPECS_ALL = ["find_parents_w_child", "req_cfgspec"]


def _world(rng, size, typed_share=0.4):
    if rng.random() < typed_share:
        syntax = rng.choice(typed.SYNTAXES)
        return {"syntax": syntax, "factory": rng.random() < 0.8, "ignore_blank": True, "lines": typed.config(rng, syntax, rng.randint(1, size))}
    syntax = rng.choice(["ios", "ios", "nxos", "iosxr", "asa"])
    return {"syntax": syntax, "factory": rng.random() < 0.25, "ignore_blank": rng.random() < 0.75, "lines": gen.config(rng, syntax, rng.randint(1, size), indented_banners=rng.random() < 0.5)}


def _edited(rng, lines):
    out = list(lines)
    for _ in range(rng.randint(0, 5)):
        r = rng.random()
        if out and r < 0.4:
            del out[rng.randint(0, len(out) - 1)]
        else:
            out.insert(rng.randint(0, len(out)), " " * rng.choice([0, 1, 1, 2]) + gen.line_text(rng))
    return out


def make(rng, size=18, kinds=None, queries=5):
    kind = rng.choice(kinds or KINDS)
    job = {"kind": kind}
    if kind in ("parse", "search", "edit", "typed"):
        job["world"] = _world(rng, size, 1.0 if kind == "typed" else 0.3)
        syntax = job["world"]["syntax"]
        if kind == "search":
            job["queries"] = [search.make(rng, syntax, job["world"]["lines"]) for _ in range(rng.randint(1, queries))]
        elif kind == "edit":
            job["ops"] = [edits.pattern_op(rng, syntax, job["world"]["factory"], job["world"]["ignore_blank"]) for _ in range(rng.randint(1, queries))] + [{"op": "commit"}]
            job["world"]["lines"] = job["world"]["lines"][:size]
    elif kind in ("hdiff", "sync_diff", "diff"):
        syntax = rng.choice(["ios", "ios", "nxos"]) if kind != "diff" else "ios"
        job["syntax"] = syntax
        lines = gen.config(rng, syntax, rng.randint(0, size), banners=kind != "diff", macros=kind != "diff") if rng.random() < 0.5 else typed.config(rng, syntax, rng.randint(1, size))
        job["old"], job["new"] = lines, _edited(rng, lines)
        if kind == "sync_diff":
            job["linespec"] = rng.choice(["", "", ".", "interface|address", "shutdown"])
            job["remove"] = rng.random() < 0.8
    elif kind == "range":
        form = rng.choice(["int", "eth", "sub", "short", "str", "slot"])
        nums = ",".join(rng.choice(["%d" % a, "%d-%d" % (a, a + rng.randint(0, 6))]) for a in (rng.randint(1, 60) for _ in range(rng.randint(1, 5))))
        job["text"] = {"int": nums, "eth": "Ethernet1/" + nums, "sub": "GigabitEthernet1/2." + nums, "short": "Gi1/0/" + nums, "str": nums, "slot": "Serial1/1:" + nums}[form]
        job["type"] = {"int": "int", "str": "str"}.get(form, rng.choice(["none", "str"]))
        job["edits"] = [[rng.choice(["append", "remove"]), rng.randint(1, 70)] for _ in range(rng.randint(0, 3))] if form == "int" else []
    elif kind == "collapse":
        job["nets"] = ["10.%d.%d.0/%d" % (rng.randint(0, 3), rng.choice([0, 64, 128, 192, 1, 2, 3]), rng.choice([16, 18, 23, 24, 24])) for _ in range(rng.randint(1, 8))] if rng.random() < 0.7 else \
                      ["2001:db8:%d::/%d" % (rng.randint(0, 7), rng.choice([44, 46, 47, 48])) for _ in range(rng.randint(1, 6))]
    elif kind == "ip":
        job["vals"] = [rng.choice(["10.%d.2.%d/%d" % (rng.randint(0, 9), rng.randint(0, 255), rng.randint(0, 32)), "192.0.2.%d 255.255.255.0" % rng.randint(0, 255), "2001:db8::%x/%d" % (rng.randint(0, 65535), rng.randint(0, 128)), "bogus", "10.1.1"]) for _ in range(rng.randint(1, 8))]
    elif kind == "interface":
        n = lambda: str(rng.randint(0, 12))  # noqa: E731
        job["names"] = [rng.choice(["Ethernet%s/%s" % (n(), n()), "Gi%s/%s/%s" % (n(), n(), n()), "Serial%s/%s:%s" % (n(), n(), n()), "Eth%s/%s.%s" % (n(), n(), n()), "Vlan" + n(), "Loopback " + n(), "ATM%s/%s.%s multipoint" % (n(), n(), n()), "Po"]) for _ in range(rng.randint(1, 8))]
        job["xr"] = rng.random() < 0.2
    elif kind == "objects":
        job["ports"] = [rng.choice(["eq %d" % rng.randint(1, 99), "range %d %d" % (rng.randint(1, 50), rng.randint(50, 99)), "eq www", "eq nonsense", "lt %d" % rng.randint(2, 60), "domain"]) for _ in range(rng.randint(1, 5))]
        job["proto"] = rng.choice(["tcp", "udp", "tcp"])
        job["secret"] = rng.choice(["04480E051A33490E", "1511021F0725", "0822455D0A16", "zz"])
        job["words"] = [rng.choice(["no no shutdown", "no shutdown", "no  no ip address"]) for _ in range(2)]
    return job


class _Quiet:
    """Stands for the recorder of a run in sessions which are not recorded."""

    steps = 0

    def ev(self, *args):
        pass

    def state(self, *args):
        pass

    def fault(self, *args):
        pass

    def probe(self, *args):
        pass


def open_world(mod, world, debug=0):
    return mod.CiscoConfParse(list(world["lines"]), debug=debug, syntax=world["syntax"], factory=world["factory"], ignore_blank_lines=world["ignore_blank"], comment=gen.COMMENTS[world["syntax"]], **({"read_only": True} if world.get("read_only") else {}))


def classes(parse):
    return [type(obj).__name__ for obj in parse.ConfigObjs]


def run(mod, job, session=True):
    """
    The result of a job (JSON).  With session=True, searches and edits are also
    compared with the model (Violation if they differ).
    """
    try:
        return _run(mod, job, session)
    except (ValueError, AttributeError, TypeError, IndexError, KeyError, NotImplementedError) as exc:
        return ["raises", type(exc).__name__, typed._ADDRESS.sub("", str(exc))[:300]]


def _run(mod, job, session):
    kind = job["kind"]
    debug = job.get("debug", 0)
    util = __import__("ciscoconfparse.ccp_util", fromlist=["x"])
    inner = __import__("ciscoconfparse.ciscoconfparse", fromlist=["x"])
    if kind == "parse":
        parse = open_world(mod, job["world"], debug)
        return [model.real_graph(parse), classes(parse)]
    if kind == "typed":
        return typed.everything(open_world(mod, job["world"], debug), job.get("some"))
    if kind == "search":
        world = job["world"]
        sess = edits.Session(_Quiet(), mod, world["lines"], world["syntax"], world["factory"], world["ignore_blank"], debug=debug, read_only=world.get("read_only", False))
        out = [sess.real_texts()]
        for q in job["queries"]:
            got = search.run(sess.parse, q)
            if session:
                want = search.expected(sess.conf, q)
                if got != want:
                    raise model_violation(q, got, want, sess.conf.texts)
            out.append(got)
        return out
    if kind == "edit":
        world = job["world"]
        sess = edits.Session(_Quiet(), mod, world["lines"], world["syntax"], world["factory"], world["ignore_blank"], debug=debug, read_only=world.get("read_only", False))
        for op in job["ops"]:
            sess.apply(op)
        return [model.real_graph(sess.parse), classes(sess.parse)]
    if kind == "hdiff":
        diff = inner.HDiff(list(job["old"]), list(job["new"]), syntax=job["syntax"], debug=debug)
        return [diff.unified_diffs(header=False), [typed.canon(row) for row in diff.all_output_dicts]]
    if kind == "diff":
        diff = inner.Diff(old_config="\n".join(job["old"]), new_config=list(job["new"]))
        return [diff.diff(), diff.rollback()]
    if kind == "sync_diff":
        parse = mod.CiscoConfParse(list(job["old"]), syntax=job["syntax"], debug=debug)
        return [parse.sync_diff(list(job["new"]), job["linespec"], r"^\s*\S+.*" if job["remove"] else "", remove_lines=job["remove"], debug=debug), parse.ioscfg]
    if kind == "range":
        rtype = {"int": int, "str": str, "none": None}[job["type"]]
        rng = util.CiscoRange(job["text"], result_type=rtype, debug=bool(debug))
        for what, num in job["edits"]:
            try:
                getattr(rng, what)(num)
            except Exception as exc:
                typed.canon(exc)
        out = [str(rng), len(rng), [str(x) for x in rng]]
        out.append([str(x) for x in rng.as_list(result_type=str)])
        out.append(_try(lambda: sorted(str(x) for x in rng.as_set(result_type=str))))
        out.append(_try(lambda: rng.as_compressed_str()))
        return out
    if kind == "collapse":
        return [str(x) for x in util.collapse_addresses([util.ip_factory(v) for v in job["nets"]])]
    if kind == "ip":
        objs = [x for x in (_try(lambda v=v: util.ip_factory(v, debug=debug)) for v in job["vals"])]
        good = [x for x in objs if not isinstance(x, list)]
        same = sorted((x for x in good if x.version == 4)) + sorted((x for x in good if x.version == 6))
        return [[typed.canon(x) for x in objs], [str(x) for x in same], [[str(x.network), x.as_decimal, x.as_hex_tuple, x.as_binary_tuple] for x in good]]
    if kind == "interface":
        cls = util.CiscoIOSXRInterface if job["xr"] else util.CiscoIOSInterface
        objs = [_try(lambda v=v: cls(v, debug=bool(debug))) for v in job["names"]]
        good = [x for x in objs if not isinstance(x, list)]
        return [[typed.canon(x) if isinstance(x, list) else [str(x), x.as_dict(), x.sort_list, x.number] for x in objs], _try(lambda: [str(x) for x in sorted(good, key=lambda x: str(x.sort_list))])]
    if kind == "objects":
        ports = [_try(lambda v=v: util.L4Object(protocol=job["proto"], port_spec=v, syntax="asa").port_list) for v in job["ports"]]
        secret = _try(lambda: inner.CiscoPassword(job["secret"]).decrypt())
        words = [_try(lambda v=v: util.fix_repeated_words(v, word="no")) for v in job["words"]]
        return [ports, secret, words]
    raise AssertionError(kind)


def _try(fn):
    try:
        return fn()
    except Exception as exc:
        return ["raises", type(exc).__name__]


def model_violation(q, got, want, texts):
    from sim.core import Violation

    return Violation("wrong-search-result", f"{q} returned\n {got}\nexpected\n {want}\n in {list(enumerate(texts))}", key=q["m"])
