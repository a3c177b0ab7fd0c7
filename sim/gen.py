"""Generators of configurations, line texts and search patterns (all seeded)."""
import re

COMMENTS = {"ios": "!", "nxos": "!", "iosxr": "!", "asa": "!", "junos": "#!"}
SYNTAXES = ("ios", "nxos", "iosxr", "asa")

# families: a root line and lines which live below it
ROOTS = [
    "interface GigabitEthernet1/{n}", "interface Vlan{n}", "interface GigabitEthernet1/{n}.{n}", "interface Serial1/{n}",
    "router bgp 6500{n}", "router ospf {n}", "policy-map PM_{n}", "class-map match-any CM_{n}", "ip access-list extended ACL_{n}",
    "line vty 0 {n}", "archive", "vlan {n}", "route-map RM_{n} permit 10", "object-group network OG_{n}", "crypto map CM {n} ipsec-isakmp",
]
LEAFS = [
    "hostname rtr{n}", "ip route 10.{n}.0.0 255.255.0.0 192.0.2.{n}", "logging 192.0.2.{n}", "no ip http server", "service timestamps log",
    "ntp server 192.0.2.{n}", "snmp-server community pub{n} RO", "username user{n} password 0 p*ss.[w{n}]", "ip name-server 192.0.2.{n}",
    "alias exec s{n} show (ip) int $brief", "end", "access-list 10{n} permit ip any any", "no shutdown", "shutdown", "tftp-server x{n}",
]
CHILDREN = [
    "ip address 192.0.2.{n} 255.255.255.0", "ip address 192.0.2.{n} 255.255.255.0 secondary", "description link (to) R{n} [x]*", "shutdown", "no shutdown",
    "switchport access vlan {n}", "switchport mode access", "ip access-group ACL_{n} in", "neighbor 192.0.2.{n} remote-as 6500{n}",
    "network 10.{n}.0.0 0.0.255.255 area 0", "class CM_{n}", "bandwidth percent {n}", "queue-limit {n}00", "service-policy output PM_{n}",
    "address-family ipv4 vrf v{n}", "exit-address-family", "match ip dscp af1{n}", "permit tcp any host 192.0.2.{n} eq 8{n}", "deny ip any any log",
    "log config", "logging enable", "hidekeys", "mtu 150{n}", "description", "ipv6 address 2001:db8::{n}/64", "encapsulation dot1Q {n}",
    "standby {n} ip 192.0.2.1", "set ip next-hop 192.0.2.{n}", "transport input ssh", "description caf\u00e9 \u2192 {n}", "duplex full", "spanning-tree portfast",
]
COMMENT_TEXTS = ["", " comment {n}", "!!", " interface GigabitEthernet1/{n}", "shutdown"]
BANNER_BODY = ["Unauthorized access {n}", "no shutdown", "interface GigabitEthernet1/{n}", "!", "", "Contact: noc@example.com", "shutdown", "hello (world) {n}"]

# plain-text and regex patterns for which "the text contains the pattern" implies "the pattern matches"
SPECS = [
    "interface", "^interface", "shutdown", r"^\s+shutdown", r"^\s*no\s", "ip address", r"ip address (\S+)", "description", r"vlan\s\d+", r"GigabitEthernet1/[12]", "^router",
    r"^\s+neighbor (\S+)", r"192\.0\.2\.1", "ACL_1", "^!", r"^\S", r"^\s+\S", "class", "^policy-map PM_1", "PM_[12]", r"bandwidth percent (\d+)", ".", "logging", "queue-limit",
    "zzz_nothing", r"\d$", "(?i)SHUTDOWN", "hostname|logging", "^banner", "Unauthorized", r"permit\s+(?:tcp|ip)", "^end$", r"rtr\d", "^archive", r"^\s+log config", "address-family",
]
GROUP_SPECS = [r"ip address (\S+)", r"^\s+neighbor (\S+)", r"bandwidth percent (\d+)", r"^interface (\S+)", r"vlan (\d+)", r"(\S+)$", r"^\s*(\S+)", r"PM_(\d)", r"zzz(\d)"]
LITERALS = ["192.0.2.1", "description link (to) R1 [x]*", "(ip)", "p*ss.[w1]", "interface GigabitEthernet1/1", "shutdown", "ip address 192.0.2.1 255.255.255.0", "$brief", "zzz(", "CM_1"]
EXACT_SPECS = ["shutdown", r"\s+shutdown", "interface GigabitEthernet1/1", r"interface \S+", "archive", r"\s*no shutdown", "!", "end", r" class CM_\d", r"router .+"]
WS_SPECS = ["ip address", "interface GigabitEthernet1/1", "switchport access vlan", "no shutdown", "bandwidth percent", "router bgp", "policy-map PM_1", " class", "192.0.2.1 255.255.255.0"]


def ws_spec(rng, base=None):
    """A pattern for a white-space tolerant search, with white space of any width and kind."""
    text = base if base is not None else rng.choice(WS_SPECS)
    return re.sub(r"\s+", lambda mm: rng.choice([" ", " ", "  ", "    ", "\t", " \t "]), text)


def squeeze(rng, text):
    """Widens some white space inside the text."""
    return re.sub(r"(?<=\S) (?=\S)", lambda mm: rng.choice([" ", "  ", "   ", "\t"]), text)


def fill(rng, template, spread=3):
    return template.replace("{n}", str(rng.randint(1, spread)))


def adapt(text, syntax):
    """Some statements have another form than in IOS."""
    if syntax == "asa":
        return re.sub(r"access-list (\d+) permit", r"access-list OUT_\1 extended permit", text)
    if syntax == "nxos":
        return re.sub(r"ip route (\S+) 255.255.0.0", r"ip route \1/16", text)
    return text


def line_text(rng, allow_unicode=True, syntax="ios"):
    """Text (without indentation) of a line to insert or to append."""
    while True:
        text = fill(rng, rng.choice(CHILDREN if rng.random() < 0.6 else (ROOTS + LEAFS)))
        if rng.random() < 0.06:
            text = "!" + fill(rng, rng.choice(COMMENT_TEXTS))
        if allow_unicode or text.isascii():
            return adapt(text, syntax)


def banner(rng, indented=False, blanks=True, delims=None):
    kind = rng.choice(["login", "motd", "incoming", "exec"])
    delim = rng.choice(delims or ["^C", "#", "@@", "z", "*", "%"])
    lead = rng.choice(["banner", "banner", "banner", "set banner"])
    shape = rng.random()
    if shape < 0.2:
        return [f"{lead} {kind} {delim} one line {rng.randint(1, 3)} {delim}"]
    body = []
    for _ in range(rng.randint(0, 4)):
        text = fill(rng, rng.choice(BANNER_BODY))
        if delim[0] in text:
            continue
        if text == "" and not blanks:
            continue
        if indented and text and rng.random() < 0.4:
            text = " " * rng.randint(1, 3) + text
        body.append(text)
    head = f"{lead} {kind} {delim}"
    if shape < 0.4:
        head += "first words" if delim[0] not in "first words" else ""
    tail = delim if rng.random() < 0.8 else (body and "last words " + delim or delim)
    if delim[0] in "last words ":
        tail = delim
    if rng.random() < 0.06:
        return [head] + body        # unterminated: runs to the end of the config
    return [head] + body + [tail]


def macro(rng, indented=False, blanks=True):
    out = [f"macro name mac{rng.randint(1, 3)}"]
    for _ in range(rng.randint(0, 4)):
        text = fill(rng, rng.choice(CHILDREN + [""]))
        if text == "" and not blanks:
            continue
        if indented and text and rng.random() < 0.4:
            text = " " * rng.randint(1, 3) + text
        out.append(text)
    if rng.random() < 0.93:
        out.append("@")
    return out


def config(rng, syntax="ios", size=20, blanks=True, comments=True, banners=True, macros=True, indented_banners=False, trailing=True,
           allow_unicode=True, irregular=True, first_indented=True, wide=0.0):
    """A list of config lines (any syntax but junos)."""
    out = []
    comment = COMMENTS[syntax][0]
    while len(out) < size:
        r = rng.random()
        if r < 0.03 and banners and syntax != "asa":
            out.extend(banner(rng, indented_banners, blanks))
        elif r < 0.05 and macros and syntax == "ios":
            out.extend(macro(rng, indented_banners, blanks))
        elif r < 0.09 and comments:
            out.append(" " * rng.choice([0, 0, 0, 1, 2]) + comment + fill(rng, rng.choice(COMMENT_TEXTS)))
        elif r < 0.13 and blanks:
            out.append(rng.choice(["", "", " ", "   "]))
        elif r < 0.3:
            out.append(fill(rng, rng.choice(LEAFS)))
        else:
            out.append(fill(rng, rng.choice(ROOTS)))
            _family(rng, out, 1, rng.randint(0, 6), comment, blanks, comments, irregular)
    if not allow_unicode:
        out = [ln.encode("ascii", "replace").decode().replace("?", "x") for ln in out]
    out = [adapt(ln, syntax) for ln in out]
    if irregular and first_indented and rng.random() < 0.05:
        out.insert(0, " orphan line")
    if trailing:
        out = [ln + " " * rng.randint(1, 2) if rng.random() < 0.03 and ln.strip() else ln for ln in out]
    if wide:
        out = [squeeze(rng, ln) if rng.random() < wide else ln for ln in out]
    return out


def _family(rng, out, depth, count, comment, blanks, comments, irregular):
    indent = depth
    for _ in range(count):
        if irregular and rng.random() < 0.15:
            indent = max(1, min(5, indent + rng.choice([-2, -1, 1, 2])))
        r = rng.random()
        if r < 0.05 and comments:
            out.append(" " * rng.choice([0, indent, max(0, indent - 1)]) + comment + fill(rng, rng.choice(COMMENT_TEXTS)))
        elif r < 0.07 and blanks:
            out.append("")
        else:
            out.append(" " * indent + fill(rng, rng.choice(CHILDREN)))
            if depth < 4 and rng.random() < 0.22:
                _family(rng, out, indent + 1, rng.randint(1, 3), comment, blanks, comments, irregular)


def enlarge(rng, lines):
    """Makes the configuration larger than buffers, blocks and pages."""
    if rng.random() < 0.6 and lines:
        num = rng.randint(0, len(lines) - 1)
        if lines[num].strip():
            lines[num] += " " + "".join(rng.choice("abcdefgh") for _ in range(20)) * rng.choice([300, 500, 900, 2000, 3500, 7000])
    else:
        many = rng.choice([200, 1100, 2500])
        lines += ["logging host 10.%d.%d.%d" % (num // 60000, num // 250 % 250, num % 250) for num in range(many)]
    return lines


def spec(rng, lines=None):
    """A search pattern; with `lines`, sometimes part of one of them."""
    if lines and rng.random() < 0.25:
        words = rng.choice(lines).split()
        if words:
            first = rng.randint(0, len(words) - 1)
            return re.escape(" ".join(words[first:first + rng.randint(1, 3)]))
    return rng.choice(SPECS)


# ---------------------------------------------------------------------------
# junos: a statement tree, its text in braces, and what the parser makes of it
# ---------------------------------------------------------------------------

JUNOS_BLOCKS = ["system", "interfaces", "ge-0/0/{n}", "unit {n}", "family inet", "protocols", "bgp", "group g{n}", "services", "policy-options", "policy-statement PS_{n}", "term t{n}", "from", "then", "firewall"]
JUNOS_LEAFS = ["host-name rtr{n}", "address 192.0.2.{n}/24", "description \"to R{n}\"", "neighbor 192.0.2.{n}", "ssh", "accept", "protocol bgp", "mtu 150{n}", "disable", "vlan-id {n}", "peer-as 6500{n}", "time-zone UTC"]


def junos(rng, size=20):
    """[(depth, text, kind)] in order; kind is 'block', 'leaf' or 'comment'."""
    out = []

    def add(depth, budget):
        for _ in range(rng.randint(1, 4)):
            if len(out) >= budget:
                return
            r = rng.random()
            if r < 0.05:
                out.append([depth, "# note " + str(rng.randint(1, 3)), "comment"])
            elif r < 0.5 and depth < 4:
                out.append([depth, fill(rng, rng.choice(JUNOS_BLOCKS)), "block"])
                add(depth + 1, budget)
            else:
                out.append([depth, fill(rng, rng.choice(JUNOS_LEAFS)), "leaf"])

    while len(out) < size:
        add(0, size)
        if not out:
            out.append([0, "system", "block"])
    return out


def junos_render(nodes, rng=None, width=4):
    """Brace text of the statement tree, with `rng` varying its white space."""
    lines = []
    open_depths = []

    def pad(depth):
        if rng is not None and rng.random() < 0.1:
            return " " * rng.randint(0, 9)
        return " " * (width * depth)

    for depth, text, kind in nodes:
        while open_depths and open_depths[-1] >= depth:
            lines.append(pad(open_depths[-1]) + "}")
            open_depths.pop()
        if kind == "block":
            lines.append(pad(depth) + text + " {")
            open_depths.append(depth)
        elif kind == "leaf":
            lines.append(pad(depth) + text + ";")
        else:
            lines.append(pad(depth) + text)
    while open_depths:
        lines.append(pad(open_depths[-1]) + "}")
        open_depths.pop()
    return lines


def junos_expected(nodes, width=4):
    """Lines which the parser must end up with (blank ones for the braces)."""
    lines = []
    open_depths = []
    for depth, text, kind in nodes:
        while open_depths and open_depths[-1] >= depth:
            open_depths.pop()
            lines.append("")
        lines.append(" " * (width * depth) + text)
        if kind == "block":
            open_depths.append(depth)
    lines.extend("" for _ in open_depths)
    return lines
