"""
Reference model of a parsed configuration: text, families, searches, edits.

Written from the documentation, with different algorithms than the code under
test: a line's parent is looked up by scanning upwards for every line, children
are derived from parents, searches are brute force over the lines.
"""
import re


class ML:
    """A line of the model."""

    __slots__ = ("text", "indent", "comment", "parent", "kids", "keep", "linenum", "uid", "gone")
    _next = 0

    def __init__(self, text, comment_chars, rstrip=True):
        ML._next += 1
        self.uid = ML._next
        self.parent = self
        self.kids = []
        self.keep = False
        self.linenum = -1
        self.gone = False       # removed by delete()
        self.set_text(text.rstrip() if rstrip else text, comment_chars)

    def set_text(self, text, comment_chars):
        self.text = text
        bare = text.lstrip()
        self.indent = len(text) - len(bare)
        self.comment = bool(bare) and bare[0] in comment_chars

    @property
    def blank(self):
        return self.text.strip() == ""

    @property
    def is_config(self):
        return not self.blank and not self.comment

    def descendants(self):
        out = []
        for kid in self.kids:
            out.append(kid)
            out.extend(kid.descendants())
        return out

    def ancestors(self):
        """From the nearest parent to the root."""
        out = []
        cur = self
        while cur.parent is not cur:
            cur = cur.parent
            out.append(cur)
        return out


BANNER = re.compile(r"^(?:set\s+)*banner\s+(?:login|motd|incoming|exec|telnet|lcd)|aaa authentication fail-message")
BANNER_DELIM = re.compile(r"^(?:set\s+)*banner\s\w+\s+(\S)")


class Conf:
    """A configuration."""

    def __init__(self, texts, syntax="ios", comment="!", factory=False, ignore_blank=True):
        self.syntax = syntax
        self.comment = comment
        self.factory = factory
        self.ignore_blank = ignore_blank
        if ignore_blank and not factory and syntax != "junos":
            texts = [t for t in texts if len(t) != 0]
        self.lines = []
        self.watch = None       # when an Elementary: what the elementary edits do
        self.parse(texts)

    # -- parsing ----------------------------------------------------------

    def parse(self, texts):
        lines = [ML(t, self.comment) for t in texts]
        for num, line in enumerate(lines):
            line.linenum = num
            if line.indent == 0 or line.blank:
                continue
            parent = None
            for prev in reversed(lines[:num]):
                if prev.is_config and prev.indent < line.indent:
                    parent = prev
                    break
            if parent is None:
                continue
            if line.comment and lines[num - 1].indent > line.indent:
                continue
            line.parent = parent
        if self.syntax != "junos":
            self._banners(lines)
            if self.syntax == "ios":
                self._macros(lines, texts)
        for line in lines:
            if line.parent is not line:
                line.parent.kids.append(line)
        if self.ignore_blank:
            lines = [ln for ln in lines if not ln.blank or ln.keep]
        self.lines = lines

    def _banners(self, lines):
        for num, head in enumerate(lines):
            if not BANNER.search(head.text):
                continue
            head.keep = True
            mm = BANNER_DELIM.search(head.text)
            if mm is None:
                continue
            delim = mm.group(1)
            if head.text.count(delim) >= 2:
                continue
            for body in lines[num + 1:]:
                body.parent = head
                if delim in body.text:
                    break
                body.keep = True

    def _macros(self, lines, texts):
        for num, head in enumerate(lines):
            if not texts[num].startswith("macro name "):
                continue
            head.keep = True
            for body in lines[num + 1:]:
                body.parent = head
                body.keep = True
                if body.text == "@":
                    break

    def commit(self):
        if self.watch is not None:
            self.watch.before_commit(self)
        self.parse([ln.text for ln in self.lines])

    def renumber(self):
        for num, line in enumerate(self.lines):
            line.linenum = num

    @property
    def texts(self):
        return [ln.text for ln in self.lines]

    def order(self, lines):
        """Lines in config order, each once."""
        return sorted(set(lines), key=lambda ln: ln.linenum)

    def pos(self, line):
        for num, cand in enumerate(self.lines):
            if cand is line:
                return num
        return None

    # -- searching --------------------------------------------------------

    @staticmethod
    def _ws(spec):
        return re.sub(r"\s+", lambda mm: r"\s+", spec)

    def match(self, spec, exactmatch=False, ignore_ws=False, flags=0):
        if ignore_ws:
            spec = self._ws(spec)
        if exactmatch:
            spec = "^%s$" % spec
        rgx = re.compile(spec, flags)
        return [ln for ln in self.lines if rgx.search(ln.text)]

    def kids_matching(self, line, spec, recurse=False):
        pool = self.order(line.descendants()) if recurse else line.kids
        return [kid for kid in pool if re.search(spec, kid.text)]

    def parents_with_child(self, parentspec, childspec, ignore_ws=False, recurse=False, escape=False):
        if escape:
            parentspec, childspec = re.escape(parentspec), re.escape(childspec)
        elif ignore_ws:
            parentspec, childspec = self._ws(parentspec), self._ws(childspec)
        return [ln for ln in self.match(parentspec) if self.kids_matching(ln, childspec, recurse)]

    def parents_without_child(self, parentspec, childspec, ignore_ws=False, recurse=False, escape=False):
        yes = self.parents_with_child(parentspec, childspec, ignore_ws, recurse, escape)
        if escape:
            parentspec = re.escape(parentspec)
        elif ignore_ws:
            parentspec = self._ws(parentspec)
        return [ln for ln in self.match(parentspec) if ln not in yes]

    def parents_with_all(self, parentspec, childspecs, recurse=False, ignore_ws=False):
        if ignore_ws:
            parentspec, childspecs = self._ws(parentspec), [self._ws(s) for s in childspecs]
        return [ln for ln in self.match(parentspec) if all(self.kids_matching(ln, s, recurse) for s in childspecs)]

    def parents_with_missing(self, parentspec, childspecs, ignore_ws=False):
        yes = self.parents_with_all(parentspec, childspecs, ignore_ws=ignore_ws)
        if ignore_ws:
            parentspec = self._ws(parentspec)
        return [ln for ln in self.match(parentspec) if ln not in yes]

    def children_of(self, parentspec, childspec, recurse=False, escape=False, ignore_ws=False):
        """Children (descendants) of matching parents which match childspec."""
        if escape:
            parentspec, childspec = re.escape(parentspec), re.escape(childspec)
        elif ignore_ws:
            parentspec, childspec = self._ws(parentspec), self._ws(childspec)
        out = []
        for parent in self.match(parentspec):
            out.extend(self.kids_matching(parent, childspec, recurse))
        return self.order(out)

    def children_below(self, parentspec, childspec):
        """Lines matching childspec with an ancestor which matches parentspec."""
        return [ln for ln in self.match(childspec) if any(re.search(parentspec, up.text) for up in ln.ancestors())]

    def blocks(self, spec, exactmatch=False, ignore_ws=False):
        out = []
        for line in self.match(spec, exactmatch, ignore_ws):
            group = [line] + list(line.parent.kids)
            for member in group:
                out.append(member)
                out.extend(member.ancestors())
        return self.order(out)

    def branches(self, specs, flags=0):
        rows = [[ln] for ln in self.match(specs[0], flags=flags)] or [[None]]
        for spec in specs[1:]:
            new = []
            for row in rows:
                if row[-1] is None:
                    new.append(row + [None])
                    continue
                kids = [kid for kid in row[-1].kids if re.search(spec, kid.text, flags)]
                new.extend(row + [kid] for kid in (kids or [None]))
            rows = new
        return rows

    # -- editing ----------------------------------------------------------

    def new_line(self, text):
        return ML(text, self.comment)

    def insert_at(self, pos, text):
        line = self.new_line(text)
        self.lines.insert(pos, line)
        self.renumber()
        return line

    def delete(self, line, recurse=True):
        """The line and its whole family leave the configuration."""
        if self.watch is not None:
            self.watch.roots.append(line.uid)
            if not recurse:
                self.watch.alone.add(line.uid)
        gone = {line.uid}
        if recurse:
            gone.update(d.uid for d in line.descendants())
        for cand in self.lines:
            cand.gone = cand.gone or cand.uid in gone
        self.lines = [ln for ln in self.lines if ln.uid not in gone]
        if line.parent is not line:
            line.parent.kids = [k for k in line.parent.kids if k is not line]
        self.renumber()

    def sub(self, line, regex, repl, ignore=None):
        """Returns the new text, or None when the line was deleted."""
        if ignore and re.search(ignore, line.text):
            return line.text
        new = re.sub(regex, repl, line.text)
        if new.strip() == "":
            self.delete(line)
            return None
        line.set_text(new, self.comment)
        if self.watch is not None:
            self.watch.texts.setdefault(line.uid, []).append(new)
        return new


class Elementary:
    """
    The elementary edits of one operation, for judging an interrupted one.

    Created before the operation; afterwards `allows(texts)` tells whether
    `texts` is what some of its insertions, family deletions and substitutions
    leave (or the state after its commit).
    """

    LIMIT = 20000

    def __init__(self, conf):
        self.conf = conf
        self.first = [(ln.uid, ln.text) for ln in conf.lines]
        self.family = {ln.uid: {d.uid for d in ln.descendants()} | {ln.uid} for ln in conf.lines}
        self.roots = []         # lines deleted with their family
        self.alone = set()      # lines deleted without it
        self.texts = {}         # uid -> texts which substitutions gave to a line
        self.last = None
        conf.watch = self

    def before_commit(self, conf):
        if self.last is None:
            self.last = [(ln.uid, ln.text) for ln in conf.lines]

    def done(self):
        if self.last is None:
            self.before_commit(self.conf)
        self.final = self.conf.texts
        self.conf.watch = None
        first, last = dict(self.first), dict(self.last)
        order = []              # (uid, allowed texts, deletable by these roots or None, optional)
        it = iter(self.last)
        nxt = next(it, None)

        def inserted():
            nonlocal nxt
            while nxt is not None and nxt[0] not in first:
                order.append((nxt[0], {nxt[1]}, (), True))
                nxt = next(it, None)

        for uid, text in self.first:
            inserted()
            options = {text} | set(self.texts.get(uid, ()))
            if uid in last:
                options.add(last[uid])
                order.append((uid, options, (), False))
                nxt = next(it, None)
            else:
                roots = tuple(r for r in dict.fromkeys(self.roots) if uid == r or (r not in self.alone and uid in self.family.get(r, ())))
                order.append((uid, options, roots or ("line", uid), False))
        inserted()
        self.order = order

    def allows(self, texts):
        if texts in ([t for _, t in self.first], self.final, [t for _, t in self.last]):
            return True
        budget = [self.LIMIT]
        order, size = self.order, len(texts)

        def walk(num, pos, chosen):
            budget[0] -= 1
            if budget[0] < 0:
                return True         # too many combinations: not judged
            if num == len(order):
                return pos == size
            _, options, roots, optional = order[num]
            hit = pos < size and texts[pos] in options
            if optional:
                return (hit and walk(num + 1, pos + 1, chosen)) or walk(num + 1, pos, chosen)
            if hit and not any(chosen.get(r) for r in roots) and walk(num + 1, pos + 1, {**chosen, **{r: False for r in roots}}):
                return True
            if any(chosen.get(r) for r in roots):
                return walk(num + 1, pos, chosen)
            return any(walk(num + 1, pos, {**chosen, r: True}) for r in roots if r not in chosen)

        return walk(0, 0, {})


# ---------------------------------------------------------------------------
# comparing the real thing with the model
# ---------------------------------------------------------------------------

def real_graph(parse):
    """[(text, linenum, parent position, children positions, ...)] of a parse."""
    objs = list(parse.ConfigObjs)
    pos = {id(obj): num for num, obj in enumerate(objs)}
    out = []
    for obj in objs:
        out.append({
            "text": obj.text,
            "linenum": obj.linenum,
            "indent": obj.indent,
            "comment": bool(obj.is_comment),
            "parent": pos.get(id(obj.parent), "outside:" + repr(obj.parent.text)),
            "children": [pos.get(id(c), "outside:" + repr(c.text)) for c in obj.children],
            "all_children": [pos.get(id(c), "outside:" + repr(c.text)) for c in obj.all_children],
            "all_parents": [pos.get(id(c), "outside:" + repr(c.text)) for c in obj.all_parents],
        })
    return out


def model_graph(conf):
    pos = {ln.uid: num for num, ln in enumerate(conf.lines)}

    def where(line):
        return pos.get(line.uid, "outside:" + repr(line.text))

    out = []
    for ln in conf.lines:
        out.append({
            "text": ln.text,
            "linenum": ln.linenum,
            "indent": ln.indent,
            "comment": ln.comment,
            "parent": where(ln.parent),
            "children": [where(k) for k in ln.kids],
            "all_children": [where(k) for k in conf.order(ln.descendants())],
            "all_parents": [where(k) for k in conf.order(ln.ancestors())],
        })
    return out


def first_difference(real, model):
    if len(real) != len(model):
        rt, mt = [r["text"] for r in real], [m["text"] for m in model]
        return f"{len(real)} lines instead of {len(model)}:\n got      {rt}\n expected {mt}"
    for num, (r, m) in enumerate(zip(real, model)):
        for key in m:
            if r[key] != m[key]:
                return f"line {num} ({m['text']!r}): {key} is {r[key]!r}, expected {m[key]!r}"
    return None
