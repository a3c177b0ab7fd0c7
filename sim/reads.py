"""Looks at a configuration, as JSON: searches, attributes, tables, listings."""
import os

from sim import gen, model, search, typed

LISTINGS = ["ioscfg", "texts", "iter", "len", "reversed", "repr", "graph", "index", "slice", "all_parents", "objs", "compare", "hash"]


def make(rng, syntax, factory, files=True, lines=None):
    r = rng.random()
    if r < 0.5:
        return {"r": "search", "q": search.make(rng, syntax, lines)}
    if r < 0.62:
        return {"r": "attributes", "line": rng.randint(0, 999)}
    if r < 0.72:
        return {"r": "attribute", "line": rng.randint(0, 999), "name": rng.randint(0, 999)}
    if r < 0.78 and factory:
        return {"r": "tables"}
    if r < 0.82:
        return {"r": "sync_diff", "new": [gen.line_text(rng) for _ in range(rng.randint(0, 3))]}
    if r < 0.86 and files:
        return {"r": "save", "name": "save%d" % rng.randint(0, 99999)}
    return {"r": "list", "what": rng.choice(LISTINGS), "n": rng.randint(0, 999)}


def run(parse, read, place=None):
    """
    The result of one read (JSON).  Line objects are shown by `place`, a
    dictionary id(object) -> position, or by number and text.
    """
    kind = read["r"]
    if kind == "search":
        return search.run(parse, read["q"], place)
    if kind == "attributes":
        objs = list(parse.ConfigObjs)
        return typed.attributes(objs[read["line"] % len(objs)]) if objs else None
    if kind == "attribute":
        objs = list(parse.ConfigObjs)
        if not objs:
            return None
        obj = objs[read["line"] % len(objs)]
        names = typed.names_of(obj)
        name = names[read["name"] % len(names)]
        return [name, typed.read(obj, name)]
    if kind == "tables":
        return typed.tables(parse)
    if kind == "sync_diff":
        return parse.sync_diff(read["new"] + [ln.text for ln in parse.ConfigObjs if ln.text.strip()][::2], "", r"^\s*\S+.*", syntax="ios")
    if kind == "save":
        parse.save_as(read["name"])
        with open(read["name"], "rb") as fh:
            data = fh.read().decode("utf-8", "replace")
        os.unlink(read["name"])
        return data
    what = read["what"]
    objs = parse.ConfigObjs
    if what == "ioscfg":
        return [list(parse.ioscfg), list(objs.ioscfg)]
    if what == "texts":
        return list(parse.as_text) if hasattr(parse, "as_text") else [o.text for o in objs]
    if what == "iter":
        return [[o.linenum, o.text, o.indent, bool(o.is_comment)] for o in objs]
    if what == "len":
        return [len(objs), bool(objs), bool(parse.ConfigObjs)]
    if what == "reversed":
        return [o.text for o in reversed(list(objs))]
    if what == "repr":
        return [repr(parse)[:80], str(parse)[:80], [str(o) for o in objs]]
    if what == "graph":
        return model.real_graph(parse)
    if what == "index":
        return [objs[read["n"] % len(objs)].text, objs[-1].text] if len(objs) else None
    if what == "slice":
        return [o.text for o in list(objs)[read["n"] % 5:]]
    if what == "all_parents":
        return [o.text for o in objs.all_parents]
    if what == "objs":
        return [o.text for o in parse.objs]
    if what == "compare":
        lines = list(objs)
        if not lines:
            return None
        one = lines[read["n"] % len(lines)]
        return [[one == o, one < o if o is not one else None] for o in lines]
    if what == "hash":
        lines = list(objs)
        return [len(set(lines)), [o.text for o in sorted(set(lines))]]
    raise AssertionError(what)
