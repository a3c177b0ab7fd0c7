"""
Configurations rich in statements which the typed line classes understand, and
the values of all the attributes derived from lines.
"""
import re

from sim import gen

IOS_INTF = [
    "ip address 192.0.2.{n} 255.255.255.0", "ip address 10.{n}.0.1 255.255.0.0", "ip address 198.51.100.{n} 255.255.255.0 secondary", "ip address dhcp", "no ip address",
    "ipv6 address 2001:db8:{n}::1/64", "description to R{n}", "description", "shutdown", "no shutdown", "mtu 150{n}", "ip mtu 140{n}", "mpls mtu 151{n}", "mpls ip", "duplex full",
    "duplex auto", "speed 10{n}", "speed auto", "bandwidth 10{n}", "delay {n}0", "carrier-delay {n}", "clock rate 6400{n}", "encapsulation dot1q {n}", "encapsulation ppp",
    "hold-queue 10{n} in", "hold-queue 20{n} out", "ip vrf forwarding V{n}", "vrf forwarding V{n}", "vrf member V{n}", "xconnect 192.0.2.{n} {n} encapsulation mpls",
    "no ip proxy-arp", "no ip redirects", "no ip unreachables", "ip pim sparse-mode", "ip pim dense-mode", "ip pim sparse-dense-mode", "storm-control broadcast level {n}",
    "switchport", "no switchport", "switchport mode access", "switchport mode trunk", "switchport access vlan {n}", "switchport trunk native vlan {n}", "switchport trunk encapsulation dot1q",
    "switchport trunk allowed vlan {n},5-7", "switchport trunk allowed vlan add 1{n}", "switchport trunk allowed vlan remove {n}", "switchport trunk allowed vlan except 4{n}",
    "switchport trunk allowed vlan none", "switchport trunk allowed vlan all", "switchport nonegotiate", "switchport port-security", "channel-group {n} mode active", "no cdp enable",
    "arp timeout 12{n}", "no negotiation auto", "negotiation auto", "mac access-group MA{n} in", "mac access-group MB{n} out", "ip access-group A{n} in", "ip access-group B{n} out",
    "ip helper-address 203.0.113.{n}", "ip helper-address global 203.0.113.{n}", "ip helper-address vrf V{n} 203.0.113.{n}",
    "standby {n} ip 192.0.2.25{n}", "standby {n} priority 11{n}", "standby {n} preempt", "standby {n} preempt delay minimum 3{n}", "standby {n} timers {n} 1{n}", "standby {n} timers msec 25{n} msec 75{n}",
    "standby {n} track 10{n} decrement 2{n}", "standby {n} track GigabitEthernet0/{n} {n}0", "standby {n} authentication md5 key-chain KC{n}", "standby {n} authentication pass{n}", "standby use-bia",
    "standby version 2", "hsrp {n}", "fex associate {n}", "vpc {n}", "vpc peer-link", "spanning-tree port type edge", "spanning-tree link-type point-to-point", "switchport mode fex-fabric", "beacon",
    "nameif inside{n}", "security-level {n}0", "ip address 192.0.2.{n} 255.255.255.0 standby 192.0.2.2{n}", "ipv4 address 192.0.2.{n} 255.255.255.0", "ipv4 address 192.0.2.{n}/2{n}", "ip address 192.0.2.{n}/24",
]
INTFS = {
    "ios": ["interface GigabitEthernet1/{n}", "interface GigabitEthernet1/{n}.{n}", "interface Vlan{n}", "interface Loopback{n}", "interface Port-channel{n}", "interface Serial1/{n}:{n}", "interface Tunnel{n}", "interface ATM{n}/0.{n} point-to-point", "interface TenGigabitEthernet1/0/{n}"],
    "nxos": ["interface Ethernet1/{n}", "interface Ethernet1/{n}.{n}", "interface Vlan{n}", "interface loopback{n}", "interface port-channel{n}", "interface mgmt0"],
    "iosxr": ["interface GigabitEthernet0/0/0/{n}", "interface Bundle-Ether{n}", "interface Loopback{n}", "interface TenGigE0/0/0/{n}.{n}", "interface MgmtEth0/RP0/CPU0/{n}"],
    "asa": ["interface GigabitEthernet0/{n}", "interface GigabitEthernet0/{n}.{n}", "interface Management0/{n}"],
}
GLOBALS = {
    "ios": ["hostname rtr{n}", "ip route 10.{n}.0.0 255.255.0.0 192.0.2.{n}", "ip route vrf V{n} 10.{n}.0.0 255.255.0.0 GigabitEthernet1/{n} 192.0.2.{n} {n} name N{n} track {n} tag {n}", "ip route 10.{n}.0.0 255.255.0.0 Null0 25{n} permanent",
            "ip route vrf V{n} 0.0.0.0 0.0.0.0 192.0.2.{n} global", "ipv6 route 2001:db8:{n}::/48 2001:db8::{n}", "ipv6 route vrf V{n} 2001:db8:{n}::/48 Null0 {n} tag {n}",
            "aaa authentication login default group tacacs+ local", "aaa authentication login L{n} group radius", "aaa authentication enable default group tacacs+ enable", "aaa authorization exec default group tacacs+ local",
            "aaa authorization commands {n} default group tacacs+ none", "aaa accounting commands {n} default start-stop group tacacs+", "aaa accounting exec default start-stop group tacacs+", "aaa authorization console",
            "no cdp run", "spanning-tree mode rapid-pvst", "spanning-tree portfast default", "spanning-tree portfast bpduguard default", "logging event link-status global", "interface GigabitEthernet9/{n}", "logging 192.0.2.{n}"],
    "nxos": ["hostname rtr{n}", "ip route 10.{n}.0.0/16 192.0.2.{n}", "ip route 10.{n}.0.0/16 Ethernet1/{n} 192.0.2.{n} name N{n} tag {n}", "no cdp enable", "spanning-tree mode rapid-pvst", "aaa authentication login default group tacacs+",
             "aaa accounting default group T{n}", "feature vpc", "logging server 192.0.2.{n}"],
    "iosxr": ["hostname rtr{n}", "logging 192.0.2.{n}", "ntp server 192.0.2.{n}", "ipv4 access-list A{n}"],
    "asa": ["hostname fw{n}", "names", "name 192.0.2.{n} host{n}", "name 198.51.100.{n} host{n}", "access-list OUT_{n} extended permit tcp any host 192.0.2.{n} eq 8{n} log", "access-list OUT_{n} extended deny ip 10.{n}.0.0 255.255.0.0 any",
            "access-list OUT_{n} remark number {n}", "access-list IN_{n} extended permit object-group SVC_{n} object-group NET_{n} any", "access-list SPL_{n} standard permit 10.{n}.0.0 255.255.0.0",
            "access-list IN_{n} extended permit icmp any any unreachable", "access-list IN_{n} extended permit udp any range 1{n} 2{n} object-group NET_{n} eq domain",
            "route outside 0.0.0.0 0.0.0.0 192.0.2.{n} {n}", "route inside 10.{n}.0.0 255.255.0.0 192.0.2.{n} 1"],
}
FAMILIES = {
    "ios": [("line vty 0 {n}", ["exec-timeout {n} 1{n}", "transport input ssh", "login local"]), ("line con 0", ["exec-timeout 0 {n}", "no exec-timeout"]), ("aaa group server tacacs+ T{n}", ["server-private 192.0.2.{n} key k{n}", "ip vrf forwarding V{n}", "ip tacacs source-interface Loopback{n}"])],
    "nxos": [("vpc domain 1{n}", ["role priority {n}", "system-mac 00:23:04:ee:be:0{n}", "system-priority {n}", "peer-keepalive destination 192.0.2.{n} source 192.0.2.1{n} vrf V{n}", "peer-switch", "peer-gateway", "auto-recovery", "auto-recovery reload-delay 3{n}0", "ip arp synchronize", "layer3 peer-router", "peer-config-check-bypass"]),
             ("vrf context V{n}", ["ip route 0.0.0.0/0 192.0.2.{n}"]), ("line vty", ["exec-timeout {n}", "session-limit {n}"]), ("aaa group server tacacs+ T{n}", ["server 192.0.2.{n}", "use-vrf V{n}", "source-interface Loopback{n}"])],
    "iosxr": [("router static", ["address-family ipv4 unicast", "address-family ipv6 unicast"]), ("line console", ["exec-timeout {n} 0"])],
    "asa": [("object-group network NET_{n}", ["network-object host 192.0.2.{n}", "network-object host host{n}", "network-object 10.{n}.0.0 255.255.0.0", "network-object host{n} 255.255.255.255", "group-object NET_{n}", "description d{n}"]),
            ("object-group service SVC_{n} tcp", ["port-object eq 8{n}", "port-object range 1{n} 2{n}", "port-object eq www", "description x{n}"]),
            ("object-group service SVX_{n}", ["service-object tcp destination eq 8{n}", "service-object udp destination eq domain", "service-object tcp-udp destination eq 1{n}"]),
            ("object network O_{n}", ["host 192.0.2.{n}", "subnet 10.{n}.0.0 255.255.0.0"])],
}
SYNTAXES = ("ios", "ios", "nxos", "iosxr", "asa")
# patterns and substitutions which hit such configurations
SPECS = ["^interface", "address", "shutdown", "standby", "switchport", "^ip route", "^aaa", "network-object", "^name ", "group", "vlan", r"^interface \S+[12]$", "access-list", "description", "exec-timeout", "^route", "hostname", "vpc", "^object"]
SUBS = [("192.0.2.1", "192.0.2.9"), ("standby 1 ", "standby 3 "), ("vlan 1", "vlan 7"), (" secondary", ""), ("Ethernet1/1", "Ethernet1/7"), ("host1", "host2"), ("NET_1", "NET_2"), ("tacacs", "radius"), (r"^(\s+)no shutdown", r"\1shutdown"), ("V1", "V2"), ("255.255.0.0", "255.255.240.0"), ("rtr1", "rtr9")]
# another number in any statement, which remains a statement of its kind
DIGITS = [(r"[123](?=\D*$)", "2"), (r"[123](?=\D*$)", "1"), (r"1(?=\D*$)", "3"), (r"^(\D*)[12]", r"\g<1>3"), (r"2", "1"), (r"1$", "2")]
KIDS = ["address", "shutdown", "standby", "switchport", "description", "network-object", "exec-timeout", "mtu"]


def usable(text, syntax):
    """The typed classes refuse statements of other platforms."""
    return gen.adapt(text, syntax)


def statement(rng, syntax, child=None):
    """A line text (no indentation for a global statement)."""
    child = rng.random() < 0.7 if child is None else child
    if child:
        pool = IOS_INTF
        if rng.random() < 0.3:
            pool = rng.choice(FAMILIES[syntax])[1]
        return " " + gen.fill(rng, rng.choice(pool))
    return gen.fill(rng, rng.choice(GLOBALS[syntax] + INTFS[syntax]))


def config(rng, syntax, size):
    out = []
    low = 0.0
    if syntax == "asa" and rng.random() < 0.5:
        # names and object groups, which refer to each other
        low = 0.5
        out = [gen.fill(rng, text) for text in ("name 192.0.2.{n} host{n}", "name 192.0.2.{n} host{n}")][:rng.randint(0, 2)]
    while len(out) < size:
        r = low + (1 - low) * rng.random()
        if low and r < 0.75:
            out.append(gen.fill(rng, "object-group network NET_{n}"))
            for _ in range(rng.randint(0, 4)):
                out.append(gen.fill(rng, rng.choice([" network-object host host{n}", " network-object host host{n}", " network-object host 192.0.2.{n}", " group-object NET_{n}", " network-object host{n} 255.255.255.0"])))
            continue
        if r < 0.5:
            out.append(gen.fill(rng, rng.choice(INTFS[syntax])))
            pool = IOS_INTF
            if rng.random() < 0.35:
                # several statements of one kind
                word = rng.choice(["standby", "standby", "switchport", "ip", "ipv6", "mtu", "speed", "mac"])
                pool = [text for text in IOS_INTF if text.startswith(word)] or IOS_INTF
                if word == "standby":
                    # groups exist through their address, and track interfaces
                    pool = pool + ["standby {n} ip 192.0.2.25{n}", "standby {n} track GigabitEthernet0/{n} {n}0"] * 3
            for _ in range(rng.randint(0, 8)):
                out.append(" " + gen.fill(rng, rng.choice(pool)))
            if rng.random() < 0.5:
                out.append("!")
        elif r < 0.75:
            root, kids = rng.choice(FAMILIES[syntax])
            out.append(gen.fill(rng, root))
            for _ in range(rng.randint(0, 4)):
                out.append(" " + gen.fill(rng, rng.choice(kids)))
        else:
            out.append(gen.fill(rng, rng.choice(GLOBALS[syntax])))
    return out


# values which are memory addresses or hashes by definition, links which would
# lead through the whole configuration, and attributes which do not derive from lines
SKIP = {"confobj", "all_lines", "uncfgtext", "hash_children", "line_id", "diff_id_list", "as_diff_dict", "diff_word", "diff_side", "blank_line_keep", "ifindex", "feature_param1_regex", "re"}
_ADDRESS = re.compile(r" at 0x[0-9a-f]+")
_names = {}


def names_of(obj):
    """The public data attributes of an object (class level and its own)."""
    key = (type(obj), tuple(obj.__dict__))
    names = _names.get(key)
    if names is None:
        names = []
        for name in sorted(set(dir(type(obj))) | set(obj.__dict__)):
            if name.startswith("_") or name in SKIP:
                continue
            raw = None
            for klass in type(obj).__mro__:
                if name in klass.__dict__:
                    raw = klass.__dict__[name]
                    break
            if raw is None or isinstance(raw, property) or not (callable(raw) or isinstance(raw, (classmethod, staticmethod))):
                names.append(name)
        _names[key] = names
    return names


def canon(value, depth=0):
    """A JSON value in which line objects are [number, text]."""
    from ciscoconfparse.ccp_abc import BaseCfgLine

    if value is None or isinstance(value, (bool, int, float, str)):
        return value
    if isinstance(value, BaseCfgLine):
        if type(value).__name__ in ("HSRPInterfaceGroup", "TrackingInterface"):
            return [type(value).__name__, attributes(value, depth + 1)] if depth < 3 else type(value).__name__
        return ["line", value.linenum, value.text]
    if isinstance(value, dict):
        return {str(k): canon(v, depth + 1) for k, v in sorted(value.items(), key=lambda kv: str(kv[0]))}
    if isinstance(value, (set, frozenset)):
        return ["set", sorted((canon(v, depth + 1) for v in value), key=repr)]
    if isinstance(value, (list, tuple)):
        return [canon(v, depth + 1) for v in value]
    if isinstance(value, re.Pattern):
        return ["regex", value.pattern]
    return [type(value).__name__, _ADDRESS.sub("", repr(value)), _ADDRESS.sub("", str(value))]


def read(obj, name, depth=0):
    try:
        return canon(getattr(obj, name), depth)
    except RecursionError:
        # (object groups which contain each other; how the interpreter reports
        # the end of the stack depends on its depth)
        return ["raises", "no value"]
    except AttributeError:
        return ["raises", "no value"]
    except Exception as exc:
        return ["raises", type(exc).__name__, _ADDRESS.sub("", str(exc))[:200]]


def attributes(obj, depth=0, names=None):
    """{name: value} of one line object."""
    out = {"class": type(obj).__name__}
    for name in names_of(obj) if names is None else names:
        if depth and name in ("parent", "children", "tracking_interface_group"):
            continue
        out[name] = read(obj, name, depth)
    return out


def tables(parse):
    """Look-ups of a whole configuration."""
    out = {}
    objs = parse.ConfigObjs
    out["objs"] = [[type(o).__name__, o.linenum, o.text] for o in parse.objs]
    if parse.syntax == "asa":
        out["names"] = canon(objs.names)
        for name in ("object_group_network", "access_list"):
            out[name] = canon(getattr(objs, name))
    if parse.factory:
        for dna in ("IOSIntfLine", "IOSCfgLine", "IOSRouteLine", "NXOSIntfLine", "IOSXRIntfLine", "ASAIntfLine", "ASAName", "ASAObjGroupNetwork", "IOSAaaLoginAuthenticationLine", "IOSHostnameLine"):
            try:
                out["dna:" + dna] = canon(parse.find_objects_dna(dna))
            except Exception as exc:
                out["dna:" + dna] = ["raises", type(exc).__name__]
        for intf in ("GigabitEthernet1/1", "Vlan2", "GigabitEthernet1/1.1"):
            try:
                out["intf:" + intf] = canon(parse.find_interface_objects(intf))
            except Exception as exc:
                out["intf:" + intf] = ["raises", type(exc).__name__]
    return out


def everything(parse, some=None):
    """All derived values of a configuration; some=[k, r] reads every k-th of them."""
    lines = []
    for pos, obj in enumerate(parse.ConfigObjs):
        names = None if some is None else [n for num, n in enumerate(sorted(names_of(obj))) if (num + pos) % some[0] == some[1] % some[0]]
        lines.append(attributes(obj, names=names))
    return {"lines": lines, "tables": tables(parse)}
