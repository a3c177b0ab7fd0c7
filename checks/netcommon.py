"""Shared parts of the DNS checks: histories of lookups in a simulated network."""
import collections
import ipaddress
import warnings

from checks.common import CCP, setup  # noqa: F401
from sim import net as simnet
from sim.core import Violation

ZONE = "example.net."
HOSTS = ["www", "mail", "ns", "a.b", "Web-1", "ftp", "deep.er.name", "_tcp"]
TYPES = ["A", "AAAA", "CNAME", "MX", "NS", "PTR", "TXT"]
ASKS = ["dns_query"] * 6 + ["dns_lookup"] * 3 + ["dns6_lookup", "reverse_dns_lookup"]


def rand_v4(rng):
    return f"{rng.randint(1, 223)}.{rng.randint(0, 255)}.{rng.randint(0, 255)}.{rng.randint(0, 255)}"


def rand_v6(rng):
    return str(ipaddress.IPv6Address((0x20010db8 << 96) | rng.choice([rng.getrandbits(90), rng.getrandbits(16), rng.getrandbits(64) << 20])))


def reverse(ip):
    return ipaddress.ip_address(ip).reverse_pointer + "."


def rdata(rng, rdtype, hosts):
    if rdtype == "A":
        return rand_v4(rng)
    if rdtype == "AAAA":
        return rand_v6(rng)
    if rdtype == "MX":
        return f"{rng.choice([0, 5, 10, 10, 20, 65535])} {rng.choice(hosts)}"
    if rdtype == "TXT":
        return " ".join('"%s"' % rng.choice(["v=spf1 -all", "hello", "a b  c", "x" * 60, "k=1;t=s"]) + "" for _ in range(rng.choice([1, 1, 2])))
    return rng.choice(hosts + ["elsewhere.example.org."])


def node(rng, hosts, later, alias=0.2):
    if rng.random() < alias and later:
        # aliases point at names further on, so that they never form a circle
        return {"CNAME": [rng.choice(later)]}
    out = {}
    for rdtype in rng.sample(["A", "AAAA", "MX", "NS", "TXT"], rng.choice([1, 1, 2, 3])):
        count = rng.choice([1, 1, 2, 3, 5] + ([40] if rdtype in ("A", "TXT") else []))
        if rdtype == "TXT" and count == 40:
            count = 12
        out[rdtype] = sorted({rdata(rng, rdtype, hosts) for _ in range(count)})
    return out


def make_servers(rng):
    """Several servers which know different things about the same names."""
    hosts = [h.lower() + "." + ZONE for h in rng.sample(HOSTS, rng.randint(2, 6))]
    addrs = [rand_v4(rng) for _ in range(3)] + [rand_v6(rng) for _ in range(2)]
    servers = []
    for num in range(rng.randint(2, 3)):
        data = {ZONE: {"NS": sorted({rng.choice(hosts) for _ in range(2)}), "MX": ["10 " + hosts[0]]}}
        for pos, host in enumerate(hosts):
            if rng.random() < 0.9:
                data[host] = node(rng, hosts, hosts[pos + 1:] + ["elsewhere.example.org."])
        for addr in addrs:
            if rng.random() < 0.8:
                data[reverse(addr)] = {"PTR": sorted({rng.choice(hosts) for _ in range(rng.choice([1, 1, 2]))})}
        ip = f"10.0.0.{num + 1}" if num < 2 or rng.random() < 0.5 else "2001:db8:53::1"
        servers.append({"ip": ip, "name": f"ns{num}.sim", "data": data})
    return servers, hosts, addrs


def ask(rng, servers, hosts, addrs):
    fn = rng.choice(ASKS)
    server = rng.choice(servers)
    out = {"fn": fn, "timeout": rng.choice([0.5, 1, 2, 2.0, 3, 5.5])}
    out["server"] = server["ip"]
    if fn == "dns_query":
        rdtype = rng.choice(TYPES + ["AXFR", "A", "TXT", "MX"])
        if rng.random() < 0.25 and "." in server["ip"]:
            out["server"] = server["name"]
        if rdtype == "PTR":
            out["name"] = rng.choice(addrs)
            if "." in out["name"] and rng.random() < 0.3:
                out["name"] = reverse(out["name"])
        elif rdtype == "AXFR":
            out["name"] = ZONE if rng.random() < 0.5 else ZONE[:-1]
        else:
            out["name"] = rng.choice(hosts + [ZONE])
        out["type"] = rdtype
        if rng.random() < 0.1:
            out["type"] = rdtype.lower()
    elif fn == "dns_lookup":
        out["type"] = rng.choice(TYPES + ["A", "AAAA"])
        out["name"] = rng.choice(hosts + [ZONE]) if out["type"] != "PTR" else reverse(rng.choice(addrs))
        if rng.random() < 0.3:
            out["server"] = ""
    elif fn == "dns6_lookup":
        out["type"] = "AAAA"
        out["name"] = rng.choice(hosts)
        if rng.random() < 0.3:
            out["server"] = ""
    else:
        out["type"] = "PTR"
        out["name"] = rng.choice(addrs)
    if fn != "reverse_dns_lookup" and out["type"].upper() not in ("PTR", "AXFR"):
        data = server["data"]
        known = [n for n in sorted(data) if simnet.Server.lookup(data, n, out["type"].upper())[1][-1:] and
                 simnet.Server.lookup(data, n, out["type"].upper())[1][-1][1] == out["type"].upper()]
        if known and rng.random() < 0.7:
            out["name"] = rng.choice(known)
        case = rng.random()
        if case < 0.2:
            out["name"] = out["name"].upper()
        elif case < 0.7:
            out["name"] = out["name"][:-1]
        if rng.random() < 0.1:
            out["name"] = "no-such-name." + out["name"]
    return out


REPLIES = ["servfail", "refused", "formerr", "notimp", "garbage", "empty", "short", "trailing", "truncated", "truncated", "noise", "noise", "lame", "lost"]
FORGE = ["id", "source", "other-server", "port", "question", "query"]


def udp_entry(rng, timeout, calm):
    e = {}
    roll = rng.random()
    if roll < 0.25:
        e["delay"] = round(timeout * rng.choice([0.1, 0.5, 0.8, 0.85]), 4)
    elif roll < 0.35 and not calm:
        e["delay"] = round(timeout * rng.choice([1.05, 1.5, 2.5]), 4)
    if rng.random() < 0.2:
        e["dup"] = [round(rng.choice([0.001, 0.1, timeout]), 4)]
    if rng.random() < 0.1:
        e["blocked"] = True
    if calm:
        if rng.random() < 0.4:
            e["reply"] = rng.choice(["truncated", "noise"])
        return e
    roll = rng.random()
    if roll < 0.12:
        e["drop"] = True
    elif roll < 0.5:
        e["reply"] = rng.choice(REPLIES)
        if e["reply"] == "short":
            e["cut"] = rng.randint(0, 60)
    elif roll < 0.55:
        e["oserror"] = rng.choice(["ENETUNREACH", "EPERM", "ENOBUFS", "EHOSTUNREACH"])
    if rng.random() < 0.3:
        e["forge"] = [{"kind": rng.choice(FORGE), "when": rng.choice([0.1, 0.5, 0.9])} for _ in range(rng.choice([1, 1, 3]))]
    return e


def tcp_entry(rng, timeout, calm):
    e = {"per": rng.choice([1, 2, 5, 100])}
    if rng.random() < 0.4:
        e["seg"] = rng.choice([1, 2, 3, 17, 100])
        e["gap"] = rng.choice([0.0, 0.001, round(timeout * 0.01, 4)])
    if rng.random() < 0.2:
        e["chunk"] = rng.choice([1, 2, 7])
    if rng.random() < 0.2:
        e["delay"] = round(timeout * 0.1, 4)
    if calm:
        return e
    roll = rng.random()
    if roll < 0.2:
        e["connect"] = rng.choice(["refused", "silent", "unreachable"])
    elif roll < 0.5:
        e["stop"] = {"at": rng.choice([0.0, 0.1, 0.5, 0.9, 0.99, 1.0, rng.random()]), "how": rng.choice(["reset", "close", "stall"])}
    elif roll < 0.65:
        e["reply"] = rng.choice(["servfail", "refused", "garbage", "wrong-id", "silent", "noise", "short", "trailing"])
    elif roll < 0.8:
        e["seg"] = rng.choice([1, 30])
        e["gap"] = round(timeout * rng.choice([0.05, 0.2, 0.6, 0.9]), 4)
    return e


def faults(rng, item, level):
    """Faults of one lookup; level 0 none, 1 benign (the lookup must still succeed), 2 anything."""
    timeout = float(item["timeout"])
    if level == 0:
        return
    calm = level == 1
    item["udp"] = [udp_entry(rng, timeout, calm) for _ in range(1 if calm else rng.randint(1, 5))]
    item["tcp"] = [tcp_entry(rng, timeout, calm) for _ in range(1 if calm else rng.randint(1, 3))]
    if calm and rng.random() < 0.5:
        item["udp"] = item["udp"] * 4       # the whole path is like this
    if not item["server"].replace(".", "").isdigit() and rng.random() < 0.3:
        item["resolve"] = ["ok" if calm or rng.random() < 0.5 else "fail", round(rng.choice([0.0, 0.3, 2.0]), 2)]
    if not calm:
        if rng.random() < 0.25:
            item["jumps"] = [[round(timeout * rng.choice([0.01, 0.3, 0.7]), 4), rng.choice([0.5, -0.5, 3600.0, -3600.0, 5.0, -1.5])]]
        if rng.random() < 0.06:
            item["emfile"] = rng.choice([1, 2])


def generate(rng, tier, calm=0.3):
    servers, hosts, addrs = make_servers(rng)
    lookups = []
    for _ in range(rng.randint(1, 6)):
        item = ask(rng, servers, hosts, addrs)
        if lookups and rng.random() < 0.35:
            # the same question again, perhaps to another server
            last = rng.choice(lookups)
            item = {k: last[k] for k in ("fn", "timeout", "server", "name", "type")}
            if rng.random() < 0.5 and item["server"] and item["fn"] != "dns_lookup":
                item["server"] = rng.choice(servers)["ip"]
        level = 1 if rng.random() < calm else rng.choice([0, 2, 2])
        faults(rng, item, level)
        if rng.random() < 0.25:
            host = rng.choice(hosts)
            rdtype = item["type"].upper()
            if rdtype in ("A", "AAAA", "MX", "TXT", "NS") and rng.random() < 0.8:
                host = item["name"]
            else:
                rdtype = "A"
            item["update"] = [rng.choice(servers)["ip"], host, rdtype, sorted({rdata(rng, rdtype, hosts) for _ in range(rng.choice([1, 3] if rdtype == "NS" else [0, 1, 3]))})]
        if rng.random() < 0.3:
            item["pause"] = rng.choice([0.0, 0.01, 3.0, 100.0])
        if rng.random() < 0.15:
            item["step"] = rng.choice([-86400.0, 86400.0, -2.0, 30.0])
        lookups.append(item)
    v4 = [s["ip"] for s in servers if "." in s["ip"]]
    conf = "".join(f"nameserver {ip}\n" for ip in rng.sample(v4, rng.randint(1, len(v4))))
    conf = rng.choice(["", "# resolver\n", "; old\n"]) + conf + rng.choice(["", "", "options edns0\n", "options rotate\n", "options timeout:1 ndots:2\n"])
    return {"servers": servers, "lookups": lookups, "resolv": conf, "ports": rng.choice([[40001], [40001, 40002], list(range(41000, 41020))]),
            "ids": rng.choice([[7], [7, 8], [rng.randrange(65536) for _ in range(40)]])}


# ---------------------------------------------------------------------------
# oracle
# ---------------------------------------------------------------------------

def expected(data, name, rdtype):
    """Records of name and type in this state of a server's data, or None; names are as in the zone, in lower case."""
    _, chain = simnet.Server.lookup(data, name, rdtype)
    if not chain or chain[-1][1] != rdtype:
        return None
    return chain[-1][2]


def txt_parts(value):
    return tuple(p.encode() for p in value[1:-1].split('" "'))


def show(fn, rdtype, value):
    """The text of one record in the result of fn."""
    if rdtype == "AAAA":
        value = str(ipaddress.IPv6Address(value))
    if fn == "dns_query":
        if rdtype == "MX":
            return (value.split()[1].lower(), int(value.split()[0]))
        if rdtype == "TXT":
            return str(txt_parts(value))
    return value.lower() if rdtype not in ("TXT",) else value


def transfer_lines(data, soa, zone):
    """The lines of a zone transfer: {(name, type, rdata)}."""
    def rel(name):
        name = name.lower()
        if name == zone:
            return "@"
        return name[:-len(zone) - 1] if name.endswith("." + zone) else name

    out = {("@", "SOA", " ".join([rel(w) if n < 2 else w for n, w in enumerate(soa.split())]))}
    for name in data:
        if name != zone and not name.endswith("." + zone):
            continue
        for rdtype, values in data[name].items():
            for value in values:
                if rdtype == "MX":
                    value = value.split()[0] + " " + rel(value.split()[1])
                elif rdtype in ("NS", "CNAME", "PTR"):
                    value = rel(value)
                elif rdtype == "AAAA":
                    value = str(ipaddress.IPv6Address(value))
                out.add((rel(name), rdtype, value))
    return out


def parse_transfer(result):
    out = []
    for text in result:
        for line in str(text).splitlines():
            name, _ttl, _cls, rdtype, value = line.split(" ", 4)
            out.append((name.lower(), rdtype, value if rdtype == "TXT" else value.lower()))
    return out


class World:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.servers = {s["ip"]: simnet.Server(s["ip"], s["name"], s["data"], ZONE) for s in plan["servers"]}
        self.by_name = {s["name"]: s["ip"] for s in plan["servers"]}
        self.net = simnet.Net(ctx, plan, list(self.servers.values()))
        self.system = [line.split()[1] for line in plan["resolv"].splitlines() if line.startswith("nameserver")]

    def asked(self, item):
        """Addresses of the servers which this lookup may use."""
        if item["server"] == "":
            return list(self.system)
        return [self.by_name.get(item["server"], item["server"])]

    def run(self):
        """Yield (item, outcome) for every lookup."""
        util = __import__("ciscoconfparse.ccp_util", fromlist=["x"])
        warnings.simplefilter("ignore")
        net = self.net
        jumps = sum(abs(d) for i in self.plan["lookups"] for _, d in i.get("jumps", ()))
        net.install()
        try:
            for number, item in enumerate(self.plan["lookups"]):
                net.run_until(net.now + item.get("pause", 0.0))
                if item.get("step"):
                    net.offset += item["step"]
                    self.ctx.fault("clock-step-between-lookups")
                if item.get("update"):
                    ip, name, rdtype, values = item["update"]
                    if ip in self.servers:
                        self.servers[ip].update([(name, rdtype, values)])
                        self.ctx.probe("zone-updated")
                timeout = item["timeout"]
                lookup = dict(item)
                net.begin(number, lookup, 60.0 + 4 * float(timeout) + jumps)
                before = {ip: len(s.versions) - 1 for ip, s in self.servers.items()}
                start = net.now
                outcome = {"start": start, "before": before}
                try:
                    fn, name, server = item["fn"], item["name"], item["server"]
                    if fn == "dns_query":
                        res = util.dns_query(name, item["type"], server, timeout=timeout)
                    elif fn == "dns_lookup":
                        res = util.dns_lookup(name, timeout=timeout, server=server, record_type=item["type"])
                    elif fn == "dns6_lookup":
                        res = util.dns6_lookup(name, timeout=timeout, server=server)
                    else:
                        res = util.reverse_dns_lookup(name, timeout=timeout, server=server)
                    outcome["result"] = res
                except Exception as exc:
                    outcome["raised"] = exc
                except simnet.Stuck as exc:
                    outcome["raised"] = exc
                outcome["elapsed"] = net.now - start
                outcome["hurt"], outcome["stale"] = net.hurt, net.stale
                outcome["back"] = net.back
                outcome["resolve"] = net.resolve_s
                outcome["sent_to"] = set(net.sent_to)
                outcome["open"] = len(net.open)
                outcome["stuck"] = net.stuck
                net.deadline = None
                self.ctx.simtime += outcome["elapsed"]
                self.describe(item, outcome)
                yield item, outcome
                # sockets which garbage still holds are not this check's business
                del outcome
        finally:
            net.uninstall()

    def describe(self, item, outcome):
        """Fill in ok / error / values in one form for all functions."""
        out = outcome
        out["ok"], out["values"], out["error"], out["durations"] = False, None, None, []
        if "raised" in out:
            out["error"] = out["raised"]
        elif item["fn"] == "dns_query":
            res = out["result"]
            rdtype = item["type"].upper()
            if rdtype == "AXFR":
                out["ok"], out["values"] = True, parse_transfer(res)
            else:
                bad = [r for r in res if r.has_error]
                out["durations"] = [r.duration for r in res]
                if bad:
                    out["error"] = bad[0].error_str
                    if len(res) != 1 or bad[0].result_str != "":
                        raise Violation("mixed-result", f"a failed lookup returned {[repr(r) for r in res]}")
                else:
                    out["ok"] = True
                    values = []
                    for r in res:
                        if rdtype == "MX":
                            values.append((str(r.result_str).lower(), r.preference))
                        else:
                            values.append(str(r.result_str) if rdtype == "TXT" else str(r.result_str).lower())
                        if r.query_type != rdtype:
                            raise Violation("wrong-type", f"{item}: the answer says its type is {r.query_type!r}")
                    out["values"] = values
        else:
            res = out["result"]
            if item["fn"] == "reverse_dns_lookup":
                if res["addrs"] != [item["name"]]:
                    raise Violation("wrong-address", f"{item}: {res}")
                out["values"] = [str(res["name"]).lower()]
            else:
                if res["name"] != item["name"]:
                    raise Violation("wrong-name", f"{item}: {res}")
                out["values"] = [str(v) if item["type"].upper() == "TXT" else str(v).lower() for v in res["addrs"]]
            out["ok"] = res["error"] == ""
            if not out["ok"]:
                out["error"] = res["error"]
                if item["fn"] == "reverse_dns_lookup":
                    if res["name"] not in ("", None):
                        raise Violation("mixed-result", f"a failed lookup returned {res}")
                elif res["addrs"]:
                    raise Violation("mixed-result", f"a failed lookup returned {res}")
        # which of several names a reverse lookup reports depends on memory addresses
        shown = ["?"] if item["fn"] == "reverse_dns_lookup" else sorted(map(str, out["values"] or []))
        self.ctx.ev(item["fn"], item["name"], item["type"], item["server"], "ok" if out["ok"] else "error",
                    shown if out["ok"] else type(out["error"]).__name__, round(out["elapsed"], 6))
        self.ctx.state([item["fn"], item["type"].upper(), out["ok"], type(out["error"]).__name__, sorted(self.ctx.faults)])

    def candidates(self, item, outcome):
        """All sets of records the lookup may return, as multisets; None among them: it may have to fail."""
        rdtype = item["type"].upper()
        name = item["name"]
        if rdtype == "PTR" and ":" in name or rdtype == "PTR" and "arpa" not in name.lower():
            name = reverse(name)
        out = []
        for ip in self.asked(item):
            server = self.servers.get(ip)
            if server is None:
                continue
            # a late reply to the same question of an earlier lookup is the server's own (older) answer
            first = 0 if outcome["stale"] else outcome["before"][ip]
            for num in range(first, len(server.versions)):
                data = server.versions[num]
                if rdtype == "AXFR":
                    if "NS" not in data.get(ZONE, {}):
                        out.append(None)
                        continue
                    soa = f"ns.{ZONE} root.{ZONE} {num + 1} 3600 600 86400 300"
                    out.append(collections.Counter(transfer_lines(data, soa, ZONE)))
                    continue
                values = expected(data, name, rdtype)
                if values is None:
                    out.append(None)
                else:
                    out.append(collections.Counter(show(item["fn"], rdtype, v) for v in values))
        return out
