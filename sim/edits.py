"""
Edit histories: operations as JSON, applied to the real parse and the model.

A Session owns one CiscoConfParse and one model.Conf and the handles (line
objects) which its simulated clients hold.  `apply(op)` performs one operation
on both and raises Violation when they disagree.
"""
import re

from sim import gen, model
from sim.core import Violation


def factory_line(text, comment, syntax):
    from ciscoconfparse.ciscoconfparse import config_line_factory

    return config_line_factory(all_lines=[], line=text, comment_delimiter=comment, syntax=syntax)


class Session:
    def __init__(self, ctx, ciscoconfparse, lines, syntax="ios", factory=False, ignore_blank=True, source=None, expected=None, debug=0, read_only=False):
        self.ctx = ctx
        self.syntax = syntax
        self.factory = factory
        self.ignore_blank = ignore_blank
        self.comment = gen.COMMENTS[syntax]
        self.Parse = ciscoconfparse.CiscoConfParse
        self.parse = self.Parse(list(lines) if source is None else source, syntax=syntax, factory=factory, ignore_blank_lines=ignore_blank, comment=self.comment, debug=debug, read_only=read_only)
        self.conf = model.Conf(list(expected if expected is not None else lines), syntax, self.comment, factory, ignore_blank)
        self.handles = {}       # name -> (real object, model line, generation)
        self.generation = 0     # how often the configuration was reparsed
        self.dirty = False      # edited since the last reparse

    # -- comparing --------------------------------------------------------

    def real_texts(self):
        return [obj.text for obj in self.parse.ConfigObjs]

    def check_texts(self, what):
        real, want = self.parse.ioscfg, self.conf.texts
        if real != want:
            raise Violation("wrong-text", f"after {what} the configuration is\n {real}\nexpected\n {want}", key=what)
        nums = [obj.linenum for obj in self.parse.ConfigObjs]
        if nums != [ln.linenum for ln in self.conf.lines]:
            raise Violation("wrong-line-numbers", f"after {what} the line numbers are {nums}, expected {[ln.linenum for ln in self.conf.lines]}\n {want}", key=what)

    def check_graph(self, what):
        diff = model.first_difference(model.real_graph(self.parse), model.model_graph(self.conf))
        if diff:
            raise Violation("wrong-family", f"after {what}: {diff}\n in {self.conf.texts}", key=what)

    def check_attrs(self, what):
        """indent / comment flag of every line follow its text, also between commits."""
        for obj, line in zip(self.parse.ConfigObjs, self.conf.lines):
            if (obj.indent, bool(obj.is_comment)) != (line.indent, line.comment):
                raise Violation("wrong-line-attributes", f"after {what} the line {line.text!r} has indent={obj.indent} is_comment={obj.is_comment}", key=what)

    def pairs(self):
        """{id(real object): model line} and back, for the current configuration."""
        objs = list(self.parse.ConfigObjs)
        fwd = {id(obj): line for obj, line in zip(objs, self.conf.lines)}
        back = {line.uid: obj for obj, line in zip(objs, self.conf.lines)}
        return fwd, back

    def real_of(self, line):
        num = self.conf.pos(line)
        return None if num is None else self.parse.ConfigObjs[num]

    def same_lines(self, what, got, want):
        """`got` are the real objects of the model lines `want`, in that order."""
        objs = list(self.parse.ConfigObjs)
        pos = {id(obj): num for num, obj in enumerate(objs)}
        mpos = {ln.uid: num for num, ln in enumerate(self.conf.lines)}
        gpos = [pos.get(id(obj), f"not in the configuration: {obj!r}") for obj in got]
        wpos = [mpos[ln.uid] for ln in want]
        if gpos != wpos:
            raise Violation("wrong-search-result", f"{what} returned lines {gpos}, expected {wpos}\n in {self.conf.texts}", key=what.split("(")[0])

    def same_texts(self, what, got, want):
        if list(got) != list(want):
            raise Violation("wrong-return", f"{what} returned {list(got)!r}, expected {list(want)!r}\n in {self.conf.texts}", key=what.split("(")[0])

    # -- applying ---------------------------------------------------------

    def committed(self):
        self.conf.commit()
        self.generation += 1
        self.dirty = False

    def apply(self, op):
        name = op["op"]
        getattr(self, "op_" + name)(op)
        self.ctx.steps += 1
        self.ctx.ev(name, {k: v for k, v in op.items() if k != "op"}, len(self.conf.lines))
        self.check_texts(name)
        self.check_attrs(name)

    # whole-configuration operations

    def op_commit(self, op):
        if op.get("atomic"):
            self.parse.atomic()
        else:
            self.parse.commit()
        self.committed()
        self.check_texts("commit")
        self.check_graph("commit")

    def op_reparse(self, op):
        """A fresh parse of the text gives the same configuration."""
        self.op_commit({})
        texts = self.parse.ioscfg
        self.parse = self.Parse(texts, syntax=self.syntax, factory=self.factory, ignore_blank_lines=self.ignore_blank, comment=self.comment)
        self.conf = model.Conf(texts, self.syntax, self.comment, self.factory, self.ignore_blank)
        self.handles.clear()
        self.check_graph("reparse")

    # pattern edits

    def op_delete_lines(self, op):
        kw = {k: op[k] for k in ("exactmatch", "ignore_ws") if k in op}
        targets = self.conf.match(op["spec"], **kw)
        self.parse.delete_lines(op["spec"], **kw)
        for line in reversed(targets):
            if self.conf.pos(line) is not None:
                self.conf.delete(line)
                self.dirty = True

    def _op_insert(self, op, after):
        kw = {k: op[k] for k in ("exactmatch", "ignore_ws") if k in op}
        targets = self.conf.match(op["spec"], **kw)
        text = op["new"]
        call = self.parse.insert_after if after else self.parse.insert_before
        extra = dict(kw)
        if "new_val_indent" in op:
            extra["new_val_indent"] = op["new_val_indent"]
            if op["new_val_indent"] >= 0:
                text = " " * op["new_val_indent"] + text.lstrip()
        if "atomic" in op:
            extra["atomic"] = op["atomic"]
        if op.get("deprecated"):
            # the old names of the parameters
            got = call(exist_val="zzz", new_val="zzz", linespec=op["spec"], insertstr=op["new"], **extra)
        else:
            got = call(op["spec"], op["new"], **extra)
        for line in targets:
            pos = self.conf.pos(line)
            self.conf.insert_at(pos + 1 if after else pos, text)
            self.dirty = True
        self.same_texts(op["op"], got, [ln.text for ln in targets])
        if op.get("atomic"):
            self.committed()

    def op_insert_before(self, op):
        self._op_insert(op, False)

    def op_insert_after(self, op):
        self._op_insert(op, True)

    def op_insert_after_child(self, op):
        extra = {k: op[k] for k in ("exactmatch", "excludespec", "atomic") if k in op}
        exclude = op.get("excludespec")
        parents = self.conf.match(op["spec"], op.get("exactmatch", False))
        self.parse.insert_after_child(op["spec"], op["child"], op["new"], **extra)
        for parent in parents:
            if exclude and re.search(exclude, parent.text):
                continue
            for kid in list(parent.kids):
                if exclude and re.search(exclude, kid.text):
                    continue
                if re.search(op["child"], kid.text):
                    self.conf.insert_at(self.conf.pos(kid) + 1, op["new"])
                    self.dirty = True
        if op.get("atomic"):
            self.committed()

    def _sub(self, line, op, ignore=None):
        if self.conf.pos(line) is None:
            # deleted by an earlier substitution of the same call
            if ignore and re.search(ignore, line.text):
                return line.text
            new = re.sub(op["regex"], op["repl"], line.text)
            if new.strip() == "":
                return None
            line.set_text(new, self.comment)
            return new
        self.dirty = True
        return self.conf.sub(line, op["regex"], op["repl"], ignore)

    def op_replace_lines(self, op):
        extra = {k: op[k] for k in ("exactmatch", "excludespec", "atomic") if k in op}
        exclude = op.get("excludespec")
        targets = self.conf.match(op["regex"], op.get("exactmatch", False))
        got = self.parse.replace_lines(op["regex"], op["repl"], **extra)
        want = []
        for line in targets:
            if exclude and re.search(exclude, line.text):
                continue
            want.append(self._sub(line, op))
        self.same_texts("replace_lines", got, want)
        if op.get("atomic") and self.factory:
            self.committed()

    def _replace_kids(self, op, call, recurse):
        extra = {k: op[k] for k in ("exactmatch", "excludespec", "atomic") if k in op}
        exclude = op.get("excludespec")
        parents = self.conf.match(op["spec"], op.get("exactmatch", False))
        got = call(op["spec"], op["regex"], op["repl"], **extra)
        want = []
        for parent in parents:
            if exclude and re.search(exclude, parent.text):
                continue
            kids = self.conf.order(parent.descendants()) if recurse else list(parent.kids)
            for kid in kids:
                if exclude and re.search(exclude, kid.text):
                    continue
                if re.search(op["regex"], kid.text):
                    want.append(self._sub(kid, op))
        self.same_texts(op["op"], got, want)
        if op.get("atomic") and self.factory:
            self.committed()

    def op_replace_children(self, op):
        self._replace_kids(op, self.parse.replace_children, False)

    def op_replace_all_children(self, op):
        self._replace_kids(op, self.parse.replace_all_children, True)

    def op_append_line(self, op):
        got = self.parse.append_line(op["new"])
        self.conf.lines.append(self.conf.new_line(op["new"]))
        self.committed()
        if got is not self.parse.ConfigObjs[-1] or got.text != op["new"].rstrip():
            raise Violation("wrong-return", f"append_line({op['new']!r}) returned {got!r}", key="append_line")

    def op_prepend_line(self, op):
        got = self.parse.prepend_line(op["new"])
        self.conf.insert_at(0, op["new"])
        self.dirty = True
        if got is not self.parse.ConfigObjs[0] or got.text != op["new"].rstrip():
            raise Violation("wrong-return", f"prepend_line({op['new']!r}) returned {got!r}", key="prepend_line")

    # ConfigObjs edits

    def op_list_insert_before(self, op):
        """ConfigObjs.insert_before(regex, text)."""
        targets = self.conf.match(op["spec"])
        self.parse.ConfigObjs.insert_before(op["spec"], op["new"], atomic=bool(op.get("atomic")))
        for line in targets:
            self.conf.insert_at(self.conf.pos(line), op["new"])
        self.conf.renumber()
        self.dirty = True
        if op.get("atomic"):
            self.committed()

    def op_list_insert_after(self, op):
        targets = self.conf.match(op["spec"])
        self.parse.ConfigObjs.insert_after(op["spec"], op["new"], atomic=bool(op.get("atomic")))
        for line in targets:
            self.conf.insert_at(self.conf.pos(line) + 1, op["new"])
        self.conf.renumber()
        self.dirty = True
        if op.get("atomic"):
            self.committed()

    def _index(self, op, extra=0):
        size = len(self.conf.lines) + extra
        return None if size <= 0 else op["index"] % size

    def op_list_insert(self, op):
        pos = self._index(op, 1)
        self.parse.ConfigObjs.insert(pos, op["new"])
        self.conf.insert_at(pos, op["new"])
        self.dirty = True

    def op_list_del(self, op):
        pos = self._index(op)
        if pos is None:
            return
        del self.parse.ConfigObjs[pos]
        del self.conf.lines[pos]
        self.committed()
        self.check_graph("del ConfigObjs[i]")

    def op_list_pop(self, op):
        pos = self._index(op)
        if pos is None:
            return
        got = self.parse.ConfigObjs.pop(pos)
        gone = self.conf.lines.pop(pos)
        if got.text != gone.text:
            raise Violation("wrong-return", f"ConfigObjs.pop({pos}) returned {got!r}, expected {gone.text!r}", key="pop")
        self.op_commit({})

    # edits through line objects

    def op_hold(self, op):
        """A client looks a line up and keeps the object."""
        found = self.conf.match(op["spec"])
        real = self.parse.find_objects(op["spec"])
        self.same_lines(f"find_objects({op['spec']!r})", real, found)
        if found:
            num = op["index"] % len(found)
            self.handles[op["handle"]] = (real[num], found[num], self.generation)

    def _handle(self, op):
        """(object, model line, fresh?) of the handle; (None, None, None) if it has none."""
        real, line, generation = self.handles.get(op["handle"], (None, None, None))
        if real is None:
            return None, None, None
        return real, line, generation == self.generation and self.conf.pos(line) is not None

    def op_obj_delete(self, op):
        real, line, fresh = self._handle(op)
        if real is None:
            return
        recurse = op.get("recurse", True)
        kwargs = {} if recurse else {"recurse": False}
        if fresh:
            real.delete(**kwargs)
            self.conf.delete(line, recurse)
            self.dirty = True
            return
        # the handle of a line which was deleted, or which a commit replaced:
        # it may only ever stand for the line with its number and its text
        self.ctx.fault("stale-handle")
        before = self.conf.texts
        number = real.linenum
        real.delete(**kwargs)
        after = self.parse.ioscfg
        if after == before:
            return
        if not line.gone and 0 <= number < len(self.conf.lines):
            target = self.conf.lines[number]
            if (target.linenum, target.text) == (number, line.text):
                self.conf.delete(target, recurse)
                self.dirty = True

    def op_obj_insert(self, op):
        real, line, fresh = self._handle(op)
        if real is None:
            return
        new = op["new"]
        if not fresh:
            self._stale_insert(real, line, op)
            return
        arg = new
        if op.get("as_object"):
            arg = type(real)(line=new, all_lines=[]) if not self.factory else factory_line(new, self.comment, self.syntax)
        where = op["where"]
        if where == "before":
            real.insert_before(arg)
            self.conf.insert_at(self.conf.pos(line), new)
        else:
            real.insert_after(arg)
            self.conf.insert_at(self.conf.pos(line) + 1, new)
        self.dirty = True

    def _stale_insert(self, real, line, op):
        """Inserts next to the line which the handle stands for, or not at all."""
        self.ctx.fault("stale-handle")
        before = self.conf.texts
        number = real.linenum
        call = real.insert_before if op["where"] == "before" else real.insert_after
        try:
            call(op["new"])
        except Exception as exc:
            self.ctx.ev("refused", type(exc).__name__)
            return
        if self.parse.ioscfg == before:
            return
        same = [num for num, cand in enumerate(self.conf.lines) if cand.text == line.text]
        at = [num for num in same if self.conf.lines[num].linenum == number] or (same if len(same) == 1 else [])
        if line.gone or not at:
            return      # check_texts() reports the line which should not be there
        self.conf.insert_at(at[0] + (op["where"] != "before"), op["new"])
        self.dirty = True

    def op_obj_append_to_family(self, op):
        real, line, fresh = self._handle(op)
        if real is None or not fresh:
            return
        kwargs = {k: op[k] for k in ("indent", "auto_indent", "auto_indent_width") if k in op}
        text = op["new"]
        if op.get("auto_indent"):
            text = " " * (line.indent + op.get("auto_indent_width", 1)) + text.lstrip()
        elif op.get("indent", -1) > 0:
            text = " " * (line.indent + op["indent"]) + text.lstrip()
        family = [kid for kid in self.conf.order(line.descendants())]
        last = family[-1] if family else line
        real.append_to_family(op["new"], **kwargs)
        self.conf.insert_at(self.conf.pos(last) + 1, text)
        self.dirty = True

    def op_obj_sub(self, op):
        real, line, fresh = self._handle(op)
        if real is None:
            return
        ignore = op.get("ignore")
        call = real.replace if op.get("alias") else real.re_sub
        if fresh:
            want = self._sub(line, op, ignore)
            got = call(op["regex"], op["repl"], ignore)
            self.same_texts("re_sub", [got], [want])
        else:
            # rewriting an object which left the configuration changes nothing in it
            if re.sub(op["regex"], op["repl"], line.text).strip() == "":
                return
            self.ctx.fault("stale-handle")
            call(op["regex"], op["repl"], ignore)
            if not (ignore and re.search(ignore, line.text)):
                line.set_text(re.sub(op["regex"], op["repl"], line.text), self.comment)

    def op_obj_delete_children(self, op):
        real, line, fresh = self._handle(op)
        if real is None or not fresh:
            return
        real.delete_children_matching(op["spec"])
        for kid in list(line.kids):
            if re.search(op["spec"], kid.text):
                self.conf.delete(kid)
                self.dirty = True



# ---------------------------------------------------------------------------
# generating histories
# ---------------------------------------------------------------------------

REPLACEMENTS = [
    ("shutdown", "no shutdown"), ("192\\.0\\.2\\.(\\d)", "198.51.100.\\1"), ("^(\\s*)description.*$", "\\1description changed"), ("GigabitEthernet1/1", "TenGigE1/1"), ("^\\s*no shutdown$", ""),
    ("vlan (\\d+)", "vlan 1\\1"), ("^(\\s+)(\\S)", "\\1 \\2"), ("description", "! description"), ("ACL_1", "ACL_2"), ("$", " x"), ("^.*queue-limit.*$", ""), ("\\s+$", ""), ("CM_\\d", "CM_9"), ("^ ", ""),
    ("bandwidth percent", "bandwidth remaining percent"), ("exit-address-family", "  "), ("neighbor (\\S+)", "neighbor 10.0.0.1  "), ("shutdown", "shutdown"), ("^interface Vlan1$", ""),
    ("[Ee]", "<e>"), ("\\d", "7"), ("\\b(\\w)(\\w)", "\\2\\1"), ("1", ""), ("(?P<last>[.:/])(?P<next>\\d)", "\\g<last>4\\g<next>"), (r"(?<=\S) (?=\S)", "  "), ("255", "0"), ("(i)(n)?", "\\1_\\g<0>"),
]
# what may be rewritten when lines have classes which refuse malformed text
SAFE_REPLACEMENTS = [r for r in REPLACEMENTS if r[0] in ("shutdown", "^(\\s*)description.*$", "^\\s*no shutdown$", "^.*queue-limit.*$", "description", "ACL_1", "exit-address-family", "CM_\\d", "bandwidth percent", "^(\\s+)(\\S)", "255")]
EXCLUDES = ["192.0.2.1", "Vlan", "GigabitEthernet1/2", "^\\s\\s", "no ", "zzz"]
CLIENTS = ("alice", "bob", "carol")


def new_text(rng, syntax, blank=0.0):
    if blank and rng.random() < blank:
        return rng.choice(["", "  "])
    indent = rng.choice([0, 0, 1, 1, 1, 2, 2, 3])
    text = " " * indent + gen.line_text(rng, syntax=syntax)
    return text + (" " if rng.random() < 0.04 else "")


def pattern_op(rng, syntax, factory, ignore_blank):
    """One edit by pattern."""
    blank = 0.0 if ignore_blank else 0.1
    name = rng.choice(["delete_lines", "delete_lines", "insert_before", "insert_after", "insert_before", "insert_after", "insert_after_child", "insert_after_child", "insert_after_child",
                       "replace_lines", "replace_lines", "replace_children", "replace_children", "replace_children", "replace_all_children", "replace_all_children", "replace_all_children",
                       "append_line", "prepend_line", "list_insert_before", "list_insert_after", "list_insert", "list_del" if rng.random() < 0.5 else "list_pop"])
    op = {"op": name}
    if name == "delete_lines":
        op["spec"] = rng.choice(["shutdown", "^interface GigabitEthernet1/1", "description", "ip address", "^ !", "router", "class CM_1", "hidekeys", "^archive", "zzz", "^policy-map", "log"])
        _variant(rng, op)
    elif name in ("insert_before", "insert_after"):
        op["spec"] = _edit_spec(rng)
        op["new"] = new_text(rng, syntax, blank if name == "insert_after" else 0.0)
        _variant(rng, op)
        if rng.random() < 0.25:
            op["new_val_indent"] = rng.choice([-1, 0, 0, 1, 2, 5])
        if rng.random() < 0.3:
            op["atomic"] = rng.random() < 0.6
        if rng.random() < 0.08 and op["new"].strip():
            op["deprecated"] = True
    elif name == "insert_after_child":
        op["spec"] = _edit_spec(rng)
        op["child"] = rng.choice(["shutdown", "ip address", "class", "description", "^\\s", r"^\s+\S", "bandwidth", "neighbor", "log", "switchport", "mtu", "zzz"])
        op["new"] = new_text(rng, syntax)
        if rng.random() < 0.3:
            op["excludespec"] = rng.choice(EXCLUDES)
        if rng.random() < 0.3:
            op["atomic"] = rng.random() < 0.6
    elif name.startswith("replace"):
        op["regex"], op["repl"] = rng.choice(SAFE_REPLACEMENTS if factory else REPLACEMENTS)
        if name != "replace_lines":
            op["spec"] = rng.choice(["^interface", "^\\S", "GigabitEthernet", "^router", "^policy-map", "class", "^ip access-list", ".", "zzz", "^\\s+\\S"])
            if rng.random() < 0.5:
                op["regex"], op["repl"] = rng.choice([("^(\\s+)(\\S)", "\\1 \\2"), ("shutdown", "no shutdown"), ("description", "descr"), ("ip address", "ip addr"), ("^.*class.*$", ""), ("^\\s+\\S.*$", ""), ("(\\d)$", "7\\1")][:5 if factory else 7])
        elif rng.random() < 0.15:
            op["exactmatch"] = True
        if rng.random() < 0.3:
            op["excludespec"] = rng.choice(EXCLUDES)
        if rng.random() < 0.2:
            op["atomic"] = rng.random() < 0.6
    elif name in ("append_line", "prepend_line"):
        op["new"] = new_text(rng, syntax, blank if name == "append_line" else 0.0)
    elif name in ("list_insert_before", "list_insert_after"):
        op["spec"] = _edit_spec(rng)
        op["new"] = new_text(rng, syntax)
        op["atomic"] = rng.random() < 0.3
    elif name == "list_insert":
        op["index"] = rng.randint(0, 999)
        op["new"] = new_text(rng, syntax)
    else:
        op["index"] = rng.randint(0, 999)
    return op


def _edit_spec(rng):
    return rng.choice(["^interface", "interface GigabitEthernet1/1", "shutdown", "ip address", "^router", "^policy-map", r"^\s+class", "^hostname", "description", "^!", "GigabitEthernet1/[12]", "^archive", "zzz", r"^\s\S", "vlan", "^\\S"])


def _variant(rng, op):
    r = rng.random()
    if r < 0.15:
        op["exactmatch"] = True
        op["spec"] = rng.choice(gen.EXACT_SPECS)
    elif r < 0.25:
        op["ignore_ws"] = True
        op["spec"] = gen.ws_spec(rng)


def handle_op(rng, syntax, factory, client):
    """One edit through a line object which `client` holds."""
    name = rng.choice(["hold", "hold", "obj_delete", "obj_insert", "obj_insert", "obj_append_to_family", "obj_append_to_family", "obj_sub", "obj_sub", "obj_delete_children"])
    handle = client + str(rng.randint(0, 1))
    op = {"op": name, "handle": handle}
    if name == "hold":
        op["spec"] = rng.choice(["^interface", r"^\s+\S", "shutdown", "description", "^router", "class", "^!", ".", "^\\S", "ip address"])
        op["index"] = rng.randint(0, 99)
    elif name == "obj_delete":
        if rng.random() < 0.2:
            op["recurse"] = False
    elif name == "obj_insert":
        op["where"] = rng.choice(["before", "after"])
        op["new"] = new_text(rng, syntax)
        op["as_object"] = rng.random() < 0.2
    elif name == "obj_append_to_family":
        op["new"] = new_text(rng, syntax)
        r = rng.random()
        if r < 0.4:
            op["auto_indent"] = True
            op["auto_indent_width"] = rng.choice([1, 1, 2, 4])
        elif r < 0.7:
            op["indent"] = rng.choice([1, 2, 3])
    elif name == "obj_sub":
        op["regex"], op["repl"] = rng.choice(SAFE_REPLACEMENTS if factory else REPLACEMENTS)
        op["alias"] = rng.random() < 0.3
        if rng.random() < 0.2:
            op["ignore"] = rng.choice(EXCLUDES)
    else:
        op["spec"] = rng.choice(["shutdown", "description", "ip address", r"^\s+no", ".", "zzz", "class"])
    return op
