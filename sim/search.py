"""
Searches as JSON: how to run one against a parse, and what the model expects.

`run(parse, q)` returns a JSON-able result in which line objects are replaced
by their position in the configuration; `expected(conf, q)` computes the same
from the model by brute force.
"""
import re

from sim import gen

MISS = "!! not a line of this configuration: "


def _pos_map(parse):
    return {id(obj): num for num, obj in enumerate(parse.ConfigObjs)}


def _positions(pos, objs):
    return [None if obj is None else pos.get(id(obj), MISS + repr(obj)) for obj in objs]


TYPES = {"str": str, "int": int, "len": len}


def _typed(value, type_name):
    return TYPES[type_name](value)


def run(parse, q, pos=None):
    """Execute the search; exceptions become ["raises", type]."""
    pos = _pos_map(parse) if pos is None else pos
    try:
        return _run(parse, q, pos)
    except (ValueError, IndexError) as exc:
        return ["raises", "IndexError" if isinstance(exc, IndexError) else "ValueError"]


def _run(parse, q, pos):
    m = q["m"]
    kw = dict(q.get("kw", {}))
    if m in ("find_objects", "find_objects_dna"):
        return _positions(pos, getattr(parse, m)(q["a"], **kw))
    if m in ("find_lines", "find_children", "find_all_children", "find_blocks"):
        return list(getattr(parse, m)(q["a"], **kw))
    if m in ("find_objects_w_child", "find_parent_objects", "find_objects_wo_child", "find_parent_objects_wo_child", "find_objects_w_all_children",
             "find_objects_w_missing_children", "find_objects_w_parents", "find_child_objects"):
        if q.get("as_list"):
            return _positions(pos, getattr(parse, m)([q["a"], q["b"]], **kw))
        return _positions(pos, getattr(parse, m)(q["a"], q["b"], **kw))
    if m in ("find_parents_w_child", "find_parents_wo_child", "find_children_w_parents"):
        return list(getattr(parse, m)(q["a"], q["b"], **kw))
    if m == "find_lineage":
        return list(parse.find_lineage(q["a"], **kw))
    if m == "has_line_with":
        return [bool(parse.has_line_with(q["a"])), bool(parse.ConfigObjs.has_line_with(q["a"]))]
    if m == "re_search_children":
        return _positions(pos, parse.re_search_children(q["a"], **kw))
    if m == "re_match_iter_typed":
        return parse.re_match_iter_typed(q["a"], default=q["default"], untyped_default=q["untyped"], result_type=TYPES[q["type"]])
    if m == "branches":
        flags = re.IGNORECASE if q.get("icase") else 0
        rows = parse.find_object_branches(tuple(q["a"]), regex_flags=flags, regex_groups=q.get("groups", False))
        if q.get("groups"):
            return [[list(cell) for cell in row] for row in rows]
        return [_positions(pos, row) for row in rows]
    if m == "config_hierarchy":
        parents, others = parse.ConfigObjs.config_hierarchy()
        return [_positions(pos, parents), _positions(pos, others)]
    if m == "iter_with_comments":
        return _positions(pos, parse.ConfigObjs.iter_with_comments(q["a"]))
    if m == "iter_no_comments":
        return _positions(pos, parse.ConfigObjs.iter_no_comments(q["a"]))
    if m == "all_parents":
        return _positions(pos, parse.ConfigObjs.all_parents)
    if m == "ioscfg":
        return [list(parse.ioscfg), [obj.text for obj in parse.objs], len(parse.ConfigObjs)]
    if m == "names":
        return dict(parse.ConfigObjs.names)
    if m == "object_group_network":
        return {k: _positions(pos, [v])[0] for k, v in parse.ConfigObjs.object_group_network.items()}
    if m == "access_list":
        return {k: _positions(pos, v) for k, v in parse.ConfigObjs.access_list.items()}
    # searches which start at a line
    objs = list(parse.ConfigObjs)
    if not objs:
        return None
    obj = objs[q["line"] % len(objs)]
    if m == "o.has_child_with":
        return obj.has_child_with(q["a"], all_children=q["all"])
    if m == "o.re_search_children":
        return _positions(pos, obj.re_search_children(q["a"], **kw))
    if m == "o.re_search":
        return obj.re_search(q["a"], default=q["default"])
    if m == "o.re_match":
        return obj.re_match(q["a"], group=1, default=q["default"])
    if m == "o.re_match_typed":
        return obj.re_match_typed(q["a"], default=q["default"], untyped_default=q["untyped"], result_type=TYPES[q["type"]])
    if m == "o.re_match_iter_typed":
        return obj.re_match_iter_typed(q["a"], default=q["default"], untyped_default=q["untyped"], result_type=TYPES[q["type"]], **kw)
    if m == "o.groupdict":
        types = {k: TYPES[v] if v else None for k, v in q["types"].items()}
        return obj.re_match_iter_typed(q["a"], groupdict=types, default=q["default"], **kw)
    if m == "o.family":
        return [_positions(pos, [obj.parent])[0], _positions(pos, obj.children), _positions(pos, obj.all_children), _positions(pos, obj.all_parents),
                _positions(pos, obj.siblings), obj.geneology_text, list(obj.ioscfg), bool(obj.is_parent), bool(obj.is_child)]
    raise AssertionError(m)


def expected(conf, q):
    try:
        return _expected(conf, q)
    except (ValueError, IndexError) as exc:
        return ["raises", "IndexError" if isinstance(exc, IndexError) else "ValueError"]


def _expected(conf, q):
    m = q["m"]
    kw = dict(q.get("kw", {}))
    where = {ln.uid: num for num, ln in enumerate(conf.lines)}

    def positions(lines):
        return [None if ln is None else where[ln.uid] for ln in lines]

    def texts(lines):
        return [ln.text for ln in lines]

    if m == "find_objects":
        return positions(conf.match(q["a"], **kw))
    if m == "find_lines":
        return texts(conf.match(q["a"], **kw))
    if m == "find_children":
        out = []
        for ln in conf.match(q["a"], **kw):
            out.append(ln)
            out.extend(ln.kids)
        return texts(conf.order(out))
    if m == "find_all_children":
        out = []
        for ln in conf.match(q["a"], **kw):
            out.append(ln)
            out.extend(ln.descendants())
        return texts(conf.order(out))
    if m == "find_blocks":
        return texts(conf.blocks(q["a"], **kw))
    kw2 = {"escape" if k == "escape_chars" else k: v for k, v in kw.items()}
    if m in ("find_objects_w_child", "find_parent_objects"):
        return positions(conf.parents_with_child(q["a"], q["b"], **kw2))
    if m in ("find_objects_wo_child", "find_parent_objects_wo_child"):
        return positions(conf.parents_without_child(q["a"], q["b"], **kw2))
    if m == "find_parents_w_child":
        return texts(conf.parents_with_child(q["a"], q["b"], **kw2))
    if m == "find_parents_wo_child":
        return texts(conf.parents_without_child(q["a"], q["b"], **kw2))
    if m == "find_objects_w_all_children":
        return positions(conf.parents_with_all(q["a"], q["b"], **kw2))
    if m == "find_objects_w_missing_children":
        return positions(conf.parents_with_missing(q["a"], q["b"], **kw2))
    if m in ("find_objects_w_parents", "find_child_objects"):
        return positions(conf.children_of(q["a"], q["b"], **kw2))
    if m == "find_children_w_parents":
        if kw.get("ignore_ws"):
            return texts(conf.children_below(conf._ws(q["a"]), conf._ws(q["b"])))
        return texts(conf.children_below(q["a"], q["b"]))
    if m == "find_lineage":
        found = conf.match(q["a"], **kw)
        if len(found) > 1:
            raise ValueError
        return texts(conf.order(found[0].ancestors() + [found[0]] + found[0].descendants()))
    if m == "has_line_with":
        return [bool(conf.match(q["a"]))] * 2
    if m == "re_search_children":
        return positions([ln for ln in conf.match(q["a"]) if kw.get("recurse") or ln.parent is ln])
    if m == "re_match_iter_typed":
        for ln in conf.lines:
            mm = re.search(q["a"], ln.text)
            if ln.parent is ln and mm:
                return _typed(mm.group(1), q["type"])
        return q["default"] if q["untyped"] else _typed(q["default"], q["type"])
    if m == "branches":
        flags = re.IGNORECASE if q.get("icase") else 0
        rows = conf.branches(q["a"], flags)
        if not q.get("groups"):
            return [positions(row) for row in rows]
        out = []
        for row in rows:
            cells = []
            for spec, ln in zip(q["a"], row):
                if ln is None:
                    cells.append([None])
                else:
                    mm = re.search(spec, ln.text, flags)
                    cells.append(list(mm.groups()) if mm.groups() else [ln.text])
            out.append(cells)
        return out
    if m == "config_hierarchy":
        roots = [ln for ln in conf.lines if re.search(r"^\S", ln.text) and not ln.comment]
        return [positions([ln for ln in roots if ln.kids]), positions([ln for ln in roots if not ln.kids])]
    if m == "iter_with_comments":
        return [num for num in range(len(conf.lines)) if num >= q["a"]]
    if m == "iter_no_comments":
        return [num for num, ln in enumerate(conf.lines) if num >= q["a"] and not ln.comment]
    if m == "all_parents":
        return positions([ln for ln in conf.lines if ln.kids])
    if m == "ioscfg":
        return [conf.texts, conf.texts, len(conf.lines)]
    if m == "names":
        out = {}
        for ln in conf.lines:
            mm = re.search(r"^\s*name\s+(\d+\.\d+\.\d+\.\d+)\s+(\S+)", ln.text)
            if mm:
                out[mm.group(2)] = mm.group(1)
        return out
    if m == "object_group_network":
        out = {}
        for ln in conf.lines:
            mm = re.search(r"^\s*object-group\s+network\s+(\S+)", ln.text)
            if mm:
                out[mm.group(1)] = where[ln.uid]
        return out
    if m == "access_list":
        out = {}
        for ln in conf.lines:
            mm = re.search(r"^\s*access-list\s+(\S+)", ln.text)
            if mm:
                out.setdefault(mm.group(1), []).append(where[ln.uid])
        return out
    if not conf.lines:
        return None
    line = conf.lines[q["line"] % len(conf.lines)]
    if m == "o.has_child_with":
        return bool(conf.kids_matching(line, q["a"], recurse=q["all"]))
    if m == "o.re_search_children":
        return positions(conf.kids_matching(line, q["a"], **kw))
    if m == "o.re_search":
        return line.text if re.search(q["a"], line.text) else q["default"]
    if m == "o.re_match":
        mm = re.search(q["a"], line.text)
        return mm.group(1) if mm else q["default"]
    if m == "o.re_match_typed":
        mm = re.search(q["a"], line.text)
        if mm and mm.group(1) is not None:
            return _typed(mm.group(1), q["type"])
        return q["default"] if q["untyped"] else _typed(q["default"], q["type"])
    if m in ("o.re_match_iter_typed", "o.groupdict"):
        pool = [line] + (list(line.kids) if kw.get("recurse", True) is False else conf.order(line.descendants()))
        for ln in pool:
            mm = re.search(q["a"], ln.text)
            if mm:
                if m == "o.groupdict":
                    return {k: (q["default"] if mm.groupdict().get(k, q["default"]) == q["default"] else (TYPES[t] if t else str)(mm.groupdict()[k])) for k, t in q["types"].items()}
                return _typed(mm.group(1), q["type"])
        if m == "o.groupdict":
            return {k: q["default"] for k in q["types"]}
        return q["default"] if q["untyped"] else _typed(q["default"], q["type"])
    if m == "o.family":
        sibs = [k for k in line.parent.kids if k.indent == line.indent]
        return [where[line.parent.uid], positions(line.kids), positions(conf.order(line.descendants())), positions(conf.order(line.ancestors())), positions(sibs),
                texts(conf.order(line.ancestors())) + [line.text], [line.text] + texts(conf.order(line.descendants())), bool(line.kids), line.parent is not line]
    raise AssertionError(m)


METHODS = [
    "find_objects", "find_objects", "find_lines", "find_children", "find_all_children", "find_blocks", "find_objects_w_child", "find_parent_objects", "find_objects_wo_child",
    "find_parent_objects_wo_child", "find_objects_w_all_children", "find_objects_w_missing_children", "find_objects_w_parents", "find_child_objects", "find_child_objects", "find_parents_w_child",
    "find_parents_wo_child", "find_children_w_parents", "find_lineage", "has_line_with", "re_search_children", "re_match_iter_typed", "branches", "branches", "config_hierarchy", "iter_with_comments",
    "iter_no_comments", "all_parents", "ioscfg", "o.has_child_with", "o.re_search_children", "o.re_search", "o.re_match", "o.re_match_typed", "o.re_match_iter_typed", "o.groupdict", "o.family", "o.family",
]
# patterns for lines which have children, and for children
PARENTS = ["^interface", "^interface GigabitEthernet1/[12]", "^policy-map", "^router", "^\\S", "class", "^\\s+class CM_\\d", ".", "^ip access-list", "^archive", "^system", "bgp", "unit", "^banner", "zzz"]
KIDS = ["shutdown", "ip address", "class", "description", "bandwidth percent", "neighbor", "^\\s+\\S", "log", "address", "queue-limit", "192\\.0\\.2\\.[12]", "zzz", "!", "permit|deny", "mtu", "family"]


def pair(rng, lines=None):
    """A pattern for a parent and one for a child; with `lines`, mostly of a real family."""
    if not lines or rng.random() < 0.35:
        return rng.choice(PARENTS), rng.choice(KIDS)
    start = rng.randrange(len(lines))
    for num in list(range(start, len(lines))) + list(range(start)):
        text = lines[num]
        indent = len(text) - len(text.lstrip())
        if not indent or not text.strip():
            continue
        ups = []
        for prev in reversed(lines[:num]):
            deep = len(prev) - len(prev.lstrip())
            if prev.strip() and deep < indent:
                ups.append(prev)
                indent = deep
                if rng.random() < 0.6:
                    break
        if ups:
            return _part(rng, ups[-1]), _part(rng, text)
    return rng.choice(PARENTS), rng.choice(KIDS)


def _part(rng, text):
    r = rng.random()
    words = text.split()
    if r < 0.2:
        return rng.choice([".", "\\S", r"^\s+\S" if text[0] == " " else r"^\S"])
    if r < 0.7:
        return re.escape(words[0])
    if r < 0.85:
        return "^\\s*" + re.escape(" ".join(words[:2]))
    return re.escape(rng.choice(words))


def make(rng, syntax, lines=None):
    """A random search."""
    methods = METHODS + (["names", "object_group_network", "access_list"] * 2 if syntax == "asa" else [])
    m = rng.choice(methods)
    q = {"m": m}
    if m in ("find_objects", "find_lines", "find_children", "find_all_children", "find_blocks", "find_lineage"):
        r = rng.random()
        if r < 0.2:
            q["a"], q["kw"] = rng.choice(gen.EXACT_SPECS), {"exactmatch": True}
        elif r < 0.35 and m != "find_lineage":
            q["a"], q["kw"] = gen.ws_spec(rng), {"ignore_ws": True}
            if rng.random() < 0.3:
                q["kw"]["exactmatch"] = True
        else:
            q["a"] = gen.spec(rng, lines)
        if m == "find_lineage" and rng.random() < 0.6:
            q["a"] = rng.choice(["^hostname rtr1", "^archive$", "neighbor 192.0.2.1", "^end$", "hidekeys", "class CM_2", "bandwidth percent 3", "zzz"])
            q.pop("kw", None)
    elif m in ("find_objects_w_child", "find_parent_objects", "find_objects_wo_child", "find_parent_objects_wo_child", "find_child_objects", "find_objects_w_parents"):
        q["a"], q["b"] = pair(rng, lines)
        kw = {}
        if m != "find_objects_w_parents" and rng.random() < 0.4:
            kw["recurse"] = rng.random() < 0.8
        r = rng.random()
        if r < 0.12 and m in ("find_parent_objects", "find_child_objects", "find_parent_objects_wo_child"):
            kw["escape_chars"] = True
            q["a"], q["b"] = rng.choice(["interface", "interface GigabitEthernet1/1", "class", "alias (x", "CM_", "router bgp"]), rng.choice(gen.LITERALS)
        elif r < 0.25:
            kw["ignore_ws"] = True
            q["a"], q["b"] = gen.ws_spec(rng, rng.choice(["interface", "interface GigabitEthernet1/1", "class", "policy-map PM_1", "router bgp"])), gen.ws_spec(rng)
        if kw:
            q["kw"] = kw
        if m in ("find_parent_objects", "find_child_objects") and rng.random() < 0.25:
            q["as_list"] = True
    elif m in ("find_parents_w_child", "find_parents_wo_child", "find_children_w_parents"):
        q["a"], q["b"] = pair(rng, lines)
        if rng.random() < 0.15:
            q["a"], q["b"], q["kw"] = "interface", gen.ws_spec(rng), {"ignore_ws": True}
    elif m in ("find_objects_w_all_children", "find_objects_w_missing_children"):
        parent, kid = pair(rng, lines)
        q["a"], q["b"] = parent, [kid] + [rng.choice([kid, rng.choice(KIDS), pair(rng, lines)[1]]) for _ in range(rng.randint(0, 2))]
        if m == "find_objects_w_all_children" and rng.random() < 0.4:
            q["kw"] = {"recurse": rng.random() < 0.7}
        if rng.random() < 0.25:
            q.setdefault("kw", {})["ignore_ws"] = True
            q["a"], q["b"] = gen.ws_spec(rng, rng.choice(["interface", "interface GigabitEthernet1/1", "class", "policy-map PM_1", "."])), [gen.ws_spec(rng) for _ in q["b"]]
    elif m in ("has_line_with", "re_search_children"):
        q["a"] = gen.spec(rng, lines)
        if m == "re_search_children" and rng.random() < 0.5:
            q["kw"] = {"recurse": True}
    elif m in ("re_match_iter_typed", "o.re_match_typed", "o.re_match_iter_typed", "o.re_match"):
        q["a"] = rng.choice(gen.GROUP_SPECS)
        if m != "o.re_match":
            q["type"] = rng.choice(["str", "str", "len", "int"]) if re.search(r"\(\\d", q["a"]) else rng.choice(["str", "len"])
            q["untyped"] = rng.random() < 0.4
        q["default"] = "_none_" if q.get("type") != "int" else rng.choice([-1, 0])
        if m == "o.re_match_iter_typed" and rng.random() < 0.5:
            q["kw"] = {"recurse": rng.random() < 0.4}
    elif m == "o.groupdict":
        q["a"] = rng.choice([r"ip address (?P<addr>\S+)", r"bandwidth percent (?P<pct>\d+)", r"^\s*(?P<word>\S+)\s+(?P<rest>.+)$", r"(?P<word>zzz)(?P<num>\d)?", r"vlan (?P<num>\d+)", r"(?P<word>class) (?:CM_(?P<num>[12]))?"])
        names = re.findall(r"\?P<(\w+)>", q["a"])
        q["types"] = {n: rng.choice(["int", None]) if n in ("pct", "num") else rng.choice(["str", "len", None]) for n in names}
        q["default"] = rng.choice([None, "dflt"])
        if "(?:" in q["a"] or "zzz" in q["a"]:
            q["default"] = None
        if rng.random() < 0.5:
            q["kw"] = {"recurse": rng.random() < 0.4}
    elif m == "branches":
        chain = [rng.choice(["^interface (\\S+)", "^policy-map", "^router", "^\\S+", "^(ip) access-list", "(?:^system|^interfaces)", "zzz"])]
        for _ in range(rng.randint(0, 2)):
            chain.append(rng.choice(["^\\s+(\\S+)", "class (\\S+)", "shutdown", "bandwidth percent (\\d+)", "address (\\S+)", "zzz", "\\S"]))
        q["a"] = chain
        if rng.random() < 0.3:
            q["icase"] = True
            q["a"] = [c.replace("class", "CLASS").replace("interface", "INTERFACE").replace("address", "Address") for c in chain]
        if rng.random() < 0.4:
            q["groups"] = True
    elif m in ("iter_with_comments", "iter_no_comments"):
        q["a"] = rng.choice([0, 0, 1, 3, 10, 99])
    elif m == "o.has_child_with":
        q["a"], q["all"] = pair(rng, lines)[1], rng.random() < 0.5
    elif m == "o.re_search_children":
        q["a"] = pair(rng, lines)[1]
        if rng.random() < 0.5:
            q["kw"] = {"recurse": rng.random() < 0.6}
    elif m == "o.re_search":
        q["a"], q["default"] = gen.spec(rng, lines), rng.choice(["", "_none_"])
    if m.startswith("o."):
        q["line"] = rng.randint(0, 999)
    return q
