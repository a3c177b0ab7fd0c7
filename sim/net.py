"""
A simulated network under the DNS functions.

dnspython runs for real; its sockets, its selector, its message ids, the clocks
and name services of the operating system and /etc/resolv.conf are simulated.
Time is virtual: it only passes while the code under test waits.  Everything
which happens to a packet or a connection is written down in the plan of the
run, so that a run is a pure function of its plan.

A lookup's plan has
  udp: [{...}]   what happens to the first, second, ... datagram sent
  tcp: [{...}]   what happens to the first, second, ... connection made
  jumps: [[t, d]]  the wall clock is stepped by d, t seconds into the lookup
  resolve: ["ok" | "fail", t]   how the name of the server resolves
Datagrams and connections beyond the lists are treated well.
"""
import errno
import heapq
import random
import socket
import struct
import time

import dns.entropy
import dns.flags
import dns.inet
import dns.message
import dns.name
import dns.query
import dns.rcode
import dns.rdatatype
import dns.resolver
import dns.rrset

LATENCY = 0.004
WALL0 = 1_600_000_000.0
AF_TCP = socket.SOCK_STREAM
MAX_WAIT = 1e6


class Stuck(BaseException):
    """The code under test waits for something that can never happen."""


class Net:
    def __init__(self, ctx, plan, servers):
        self.ctx = ctx
        self.now = 100.0            # the monotonic clock
        self.offset = WALL0         # wall clock - monotonic clock
        self.heap = []
        self.seq = 0
        self.udp = {}               # port -> open socket
        self.open = []
        self.servers = {s.ip: s for s in servers}
        self.names = {s.name: s.ip for s in servers}
        self.resolv = plan["resolv"]
        self.ports = plan["ports"]
        self.ids = plan["ids"]
        self.n_ports = self.n_ids = 0
        self.lookup = {}
        self.n_lookup = -1
        self.n_udp = self.n_tcp = 0
        self.stale = 0              # packets of earlier lookups delivered in this one
        self.hurt = 0               # disturbances which may make this lookup fail
        self.resolve_s = self.waited = self.back = 0.0
        self.stuck = ""
        self.deadline = None
        self.sent_to = set()

    # -- time ---------------------------------------------------------------

    def at(self, delay, fn):
        self.seq += 1
        heapq.heappush(self.heap, (self.now + delay, self.seq, fn))

    def run_until(self, when, ready=lambda: False):
        """Let time pass until `when`, or until ready()."""
        while not ready():
            if self.heap and self.heap[0][0] <= when:
                due, _, fn = heapq.heappop(self.heap)
                self.now = max(self.now, due)
                self.ctx.steps += 1
                fn()
            else:
                self.now = max(self.now, when)
                return

    def give_up(self, why):
        self.stuck = self.stuck or why
        raise Stuck(why)

    def sleep(self, seconds):
        if self.stuck:
            raise Stuck(self.stuck)
        self.run_until(self.now + max(0.0, float(seconds)))
        self.check_deadline()

    def check_deadline(self):
        if self.deadline is not None and self.now > self.deadline:
            self.give_up("the lookup did not end")

    def begin(self, number, lookup, limit):
        self.n_lookup = number
        self.lookup = lookup
        self.n_udp = self.n_tcp = 0
        self.stale = self.hurt = 0
        self.resolve_s = self.waited = self.back = 0.0
        self.sent_to = set()
        self.deadline = self.now + limit
        for when, delta in lookup.get("jumps", ()):
            def step(delta=delta):
                self.offset += delta
                self.hurt += 1
                self.back += max(0.0, -delta)
                self.ctx.fault("clock-step-during-lookup")
            self.at(when, step)

    # -- the environment of the code under test -------------------------------

    def install(self):
        self.real = {}
        net = self

        def put(mod, name, value):
            self.real[(mod, name)] = getattr(mod, name, None)
            setattr(mod, name, value)

        put(dns.query, "socket_factory", lambda family, kind: Socket(net, family, kind))
        put(dns.query, "_selector_class", lambda: Selector(net))
        put(time, "time", lambda: net.now + net.offset)
        put(time, "time_ns", lambda: int((net.now + net.offset) * 1e9))
        put(time, "monotonic", lambda: net.now)
        put(time, "monotonic_ns", lambda: int(net.now * 1e9))
        put(time, "perf_counter", lambda: net.now)
        put(time, "perf_counter_ns", lambda: int(net.now * 1e9))
        put(time, "sleep", net.sleep)
        put(dns.entropy, "random_16", net.random_16)
        put(socket, "gethostbyname", net.gethostbyname)
        put(socket, "getaddrinfo", net.getaddrinfo)
        put(socket, "gethostname", lambda: "simhost")
        put(socket, "socket", lambda family=2, kind=1, *_: Socket(net, family, kind))
        put(socket, "create_connection", _refuse)
        put(dns.resolver, "open", net.open_file)
        random.seed(7)

    def uninstall(self):
        for (mod, name), value in self.real.items():
            if value is None:
                delattr(mod, name)
            else:
                setattr(mod, name, value)

    def costs(self, seconds):
        """Time which the network takes of the lookup's own; too much of it may make the lookup fail."""
        self.waited += seconds
        if self.waited > 0.9 * float(self.lookup.get("timeout", 0)):
            self.hurt += 1

    def random_16(self):
        self.n_ids += 1
        return self.ids[self.n_ids % len(self.ids)]

    def open_file(self, path, *args, **kwargs):
        import io

        if str(path) == "/etc/resolv.conf":
            return io.StringIO(self.resolv)
        return open(path, *args, **kwargs)

    def gethostbyname(self, name):
        try:
            if dns.inet.af_for_address(name) == socket.AF_INET:
                return name
            raise socket.gaierror(-9, "Address family for hostname not supported")
        except ValueError:
            pass
        result, delay = self.lookup.get("resolve", ["ok", 0.0])
        if delay:
            self.ctx.fault("slow-name-service")
        self.run_until(self.now + delay)
        self.resolve_s += delay
        ip = self.names.get(name.lower())
        if result != "ok":
            self.ctx.fault("name-service-fails")
            self.hurt += 1
            raise socket.gaierror(-3, "Temporary failure in name resolution")
        if ip is None:
            raise socket.gaierror(-2, "Name or service not known")
        if ":" in ip:
            raise socket.gaierror(-5, "No address associated with hostname")
        return ip

    def getaddrinfo(self, host, port, family=0, kind=0, proto=0, flags=0):
        try:
            af = dns.inet.af_for_address(host)
            ip = host
        except ValueError:
            ip = self.names.get(host.lower()) if self.lookup.get("resolve", ["ok", 0])[0] == "ok" else None
            if ip is None:
                raise socket.gaierror(-2, "Name or service not known") from None
            af = dns.inet.af_for_address(ip)
        if family not in (0, af):
            raise socket.gaierror(-9, "Address family for hostname not supported")
        addr = (ip, port or 0) if af == socket.AF_INET else (ip, port or 0, 0, 0)
        return [(af, kind or t, proto, "", addr) for t in ([0] if kind else [socket.SOCK_STREAM, socket.SOCK_DGRAM])]

    def port(self):
        """An ephemeral port; the pool is small, so that ports are used again soon."""
        for _ in range(len(self.ports) + 1):
            self.n_ports += 1
            port = self.ports[self.n_ports % len(self.ports)]
            if port not in self.udp:
                return port
        return 60000 + self.n_ports

    # -- datagrams ------------------------------------------------------------

    def send_udp(self, sock, data, dest):
        what = self.lookup.get("udp", ())
        entry = what[self.n_udp] if self.n_udp < len(what) else {}
        self.n_udp += 1
        number = self.n_lookup
        ctx = self.ctx
        if entry.get("oserror"):
            ctx.fault("send-fails")
            self.hurt += 1
            raise OSError(getattr(errno, entry["oserror"]), entry["oserror"])
        if entry.get("blocked") and not sock.blocked_once:
            sock.blocked_once = True
            self.n_udp -= 1
            ctx.fault("send-would-block")
            raise BlockingIOError(errno.EAGAIN, "would block")
        again = dest[0] in self.sent_to
        self.sent_to.add(dest[0])
        ctx.ev("udp", round(self.now, 6), dest[0], entry)
        if entry.get("drop"):
            ctx.fault("request-lost")
            self.hurt += 1
            return len(data)
        server = self.servers.get(dest[0])
        port = sock.port
        family = sock.family
        if server is None:
            self.hurt += 1
            return len(data)

        def deliver(wire, source, source_port, number=number):
            target = self.udp.get(port)
            if target is None or target.family != family:
                ctx.probe("reply-to-closed-port")
                return
            if number != self.n_lookup or target is not sock:
                self.stale += 1
                ctx.fault("stale-reply-delivered")
            target.inbox.append((wire, _addr(family, source, source_port)))

        delay = entry.get("delay", LATENCY)
        if delay > 0.05:
            ctx.fault("reply-delayed")
        if not again:
            # (who waits long enough for the first reply needs no second one)
            self.costs(delay)
        reply = entry.get("reply", "ok")
        for forged in entry.get("forge", ()):
            wire, source, source_port = self.forge(server, data, forged["kind"])
            ctx.fault("forged:" + forged["kind"])
            self.hurt += 1
            self.at(delay * forged.get("when", 0.5), lambda w=wire, s=source, p=source_port: deliver(w, s, p))
        if reply == "lost":
            ctx.fault("reply-lost")
            self.hurt += 1
            return len(data)
        if reply != "ok":
            ctx.fault("reply:" + reply)
            if reply not in ("noise", "truncated"):
                self.hurt += 1

        def answer():
            wire = server.reply(data, reply, udp=True, cut=entry.get("cut", 0))
            if wire is not None:
                deliver(wire, server.ip, 53)

        self.at(delay, answer)
        for extra in entry.get("dup", ()):
            ctx.fault("reply-duplicated")
            self.at(delay + extra, answer)
        return len(data)

    def forge(self, server, data, kind):
        """A datagram which is not the server's reply; never one which the protocol cannot tell from it."""
        others = [ip for ip in self.servers if ip != server.ip and (":" in ip) == (":" in server.ip)]
        msg = dns.message.from_wire(data)
        evil = Forger(server)
        wire = evil.reply(data, "ok", udp=True)
        if kind == "source":
            return wire, "192.0.2.66" if "." in server.ip else "2001:db8::66", 53
        if kind == "other-server" and others:
            return self.servers[others[0]].reply(data, "ok", udp=True), others[0], 53
        if kind == "port":
            return wire, server.ip, 5353
        if kind == "question":
            other = dns.message.make_query("forged.example.org.", msg.question[0].rdtype, id=msg.id)
            reply = dns.message.make_response(other)
            reply.answer.append(dns.rrset.from_text("forged.example.org.", 60, "IN", "A", "6.6.6.6"))
            return reply.to_wire(), server.ip, 53
        if kind == "query":
            return data, server.ip, 53
        # a wrong id
        wrong = next(n for n in range(0x5a5a, 0xffff) if n not in self.ids)
        return struct.pack("!H", wrong) + wire[2:], server.ip, 53


def _refuse(*args, **kwargs):
    raise OSError(errno.ENETUNREACH, "the simulated network has no such route")


def _addr(family, ip, port):
    return (ip, port) if family == socket.AF_INET else (ip, port, 0, 0)


class Selector:
    """selectors.PollSelector on simulated sockets."""

    def __init__(self, net):
        self.net = net
        self.socks = []

    def register(self, sock, events, data=None):
        self.socks.append((sock, events))

    def unregister(self, sock):
        self.socks = [s for s in self.socks if s[0] is not sock]

    def close(self):
        self.socks = []

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def select(self, timeout=None):
        net = self.net
        if net.stuck:
            raise Stuck(net.stuck)

        def ready():
            return [(s, e) for s, e in self.socks if s.ready(e)]

        if timeout is None:
            while not ready():
                if not net.heap:
                    net.give_up("waits without a time limit for something that never happens")
                net.run_until(net.heap[0][0], ready)
                net.check_deadline()
        else:
            net.run_until(net.now + max(0.0, min(timeout, MAX_WAIT)), ready)
            net.check_deadline()
        return ready()


class Socket:
    """A simulated non-blocking UDP or TCP socket."""

    def __init__(self, net, family, kind):
        self.net = net
        self.family = socket.AddressFamily(family)
        self.type = kind
        self.inbox = []             # UDP datagrams
        self.stream = b""           # TCP bytes which arrived
        self.port = None
        self.closed = False
        self.blocked_once = False
        self.state = "new"
        self.error = 0
        self.eof = False
        self.writable_at = 0.0
        self.out = b""
        self.entry = {}
        self.peer = None
        lookup = net.lookup
        if lookup.get("emfile", 0) > 0:
            lookup["emfile"] -= 1
            net.ctx.fault("socket-creation-fails")
            net.hurt += 1
            raise OSError(errno.EMFILE, "Too many open files")
        net.open.append(self)

    # -- general --------------------------------------------------------------

    def _check(self):
        if self.closed:
            raise OSError(errno.EBADF, "Bad file descriptor")
        if self.net.stuck:
            raise Stuck(self.net.stuck)

    def setblocking(self, flag):
        if flag:
            raise OSError(errno.EINVAL, "the simulated sockets do not block")

    def settimeout(self, value):
        pass

    def fileno(self):
        return 1000 + id(self) % 1000

    def bind(self, addr):
        if addr[1]:
            self.port = addr[1]
            self.net.udp[self.port] = self

    def close(self):
        if not self.closed:
            self.closed = True
            if self in self.net.open:
                self.net.open.remove(self)
            if self.net.udp.get(self.port) is self:
                del self.net.udp[self.port]

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def ready(self, events):
        if events & 1:
            if self.type == AF_TCP:
                if self.stream or self.eof or self.error:
                    return True
            elif self.inbox:
                return True
        if events & 2:
            if self.type != AF_TCP:
                return True
            if self.state in ("connected", "failed") and self.net.now >= self.writable_at:
                return True
        return False

    # -- UDP --------------------------------------------------------------------

    def sendto(self, data, dest):
        self._check()
        if self.port is None:
            self.port = self.net.port()
            self.net.udp[self.port] = self
        return self.net.send_udp(self, bytes(data), dest)

    def recvfrom(self, size):
        self._check()
        if not self.inbox:
            raise BlockingIOError(errno.EAGAIN, "would block")
        wire, source = self.inbox.pop(0)
        return wire[:size], source

    # -- TCP --------------------------------------------------------------------

    def connect_ex(self, dest):
        self._check()
        net, ctx = self.net, self.net.ctx
        what = net.lookup.get("tcp", ())
        self.entry = what[net.n_tcp] if net.n_tcp < len(what) else {}
        net.n_tcp += 1
        net.sent_to.add(dest[0])
        self.peer = net.servers.get(dest[0])
        how = self.entry.get("connect", "ok")
        ctx.ev("tcp", round(net.now, 6), dest[0], self.entry)
        if self.peer is None or dest[1] != 53:
            how = "silent"
        if how == "unreachable":
            ctx.fault("tcp-unreachable")
            net.hurt += 1
            return errno.ENETUNREACH
        delay = self.entry.get("delay", LATENCY)
        if delay > 0.05:
            ctx.fault("tcp-connect-delayed")
        net.costs(delay + (0.12 / self.entry["chunk"] if self.entry.get("chunk") else 0.0))
        if how == "silent":
            ctx.fault("tcp-syn-lost")
            net.hurt += 1
        elif how == "refused":
            ctx.fault("tcp-refused")
            net.hurt += 1
            net.at(delay, lambda: self._failed(errno.ECONNREFUSED))
        else:
            net.at(delay, self._connected)
        self.state = "connecting"
        return errno.EINPROGRESS

    def connect(self, dest):
        err = self.connect_ex(dest)
        if err:
            raise OSError(err, "connect")

    def _failed(self, err):
        self.state = "failed"
        self.error = err

    def _connected(self):
        self.state = "connected"

    def getsockopt(self, level, opt, *args):
        if opt == socket.SO_ERROR:
            err, self.error = self.error, 0
            return err
        return 0

    def setsockopt(self, *args):
        pass

    def send(self, data):
        self._check()
        net = self.net
        if self.error:
            err, self.error = self.error, 0
            raise OSError(err, "connection")
        if self.state != "connected":
            raise OSError(errno.ENOTCONN, "Transport endpoint is not connected")
        if net.now < self.writable_at:
            raise BlockingIOError(errno.EAGAIN, "would block")
        chunk = self.entry.get("chunk", 0)
        data = bytes(data)
        if chunk and len(data) > chunk:
            net.ctx.fault("tcp-short-send")
            data = data[:chunk]
            self.writable_at = net.now + 0.001
            net.at(0.001, lambda: None)
        self.out += data
        if len(self.out) >= 2 and len(self.out) >= 2 + struct.unpack("!H", self.out[:2])[0]:
            size = struct.unpack("!H", self.out[:2])[0]
            request, self.out = self.out[2:2 + size], self.out[2 + size:]
            self._serve(request)
        return len(data)

    sendall = send

    def _serve(self, request):
        net, entry = self.net, self.entry
        kind = entry.get("reply", "ok")
        if kind != "ok":
            net.ctx.fault("tcp-reply:" + kind)
            if kind not in ("noise",):
                net.hurt += 1
        parts = self.peer.stream(request, kind, entry.get("per", 100), entry.get("cut", 0))
        if parts is None:
            return
        stream = b"".join(struct.pack("!H", len(p)) + p for p in parts)
        stop = entry.get("stop")
        if stop is not None:
            stream = stream[:int(len(stream) * stop["at"])]
        size = max(1, entry.get("seg", 100000))
        gap = entry.get("gap", 0.0)
        # a stream is never split into more segments than this
        size = max(size, len(stream) // 40 + 1)
        if gap > 0.05:
            net.ctx.fault("tcp-slow-stream")
        when = LATENCY + entry.get("think", 0.0)
        if len(stream) > size:
            net.ctx.fault("tcp-segmented")
        for pos in range(0, len(stream), size):
            net.at(when, lambda piece=stream[pos:pos + size]: self._arrive(piece))
            when += gap
        net.costs(when)
        if stop is not None:
            net.ctx.fault("tcp-" + stop["how"])
            net.hurt += 1
            if stop["how"] == "reset":
                net.at(when + 0.001, lambda: self._failed(errno.ECONNRESET))
            elif stop["how"] == "close":
                net.at(when + 0.001, self._finished)

    def _arrive(self, piece):
        if not self.closed:
            self.stream += piece

    def _finished(self):
        self.eof = True

    def recv(self, size):
        self._check()
        if self.stream:
            data, self.stream = self.stream[:size], self.stream[size:]
            return data
        if self.error:
            err, self.error = self.error, 0
            raise OSError(err, "connection reset by peer")
        if self.eof:
            return b""
        raise BlockingIOError(errno.EAGAIN, "would block")


# ---------------------------------------------------------------------------
# servers
# ---------------------------------------------------------------------------

def fqdn(name):
    name = name.lower()
    return name if name.endswith(".") else name + "."


class Server:
    """
    A name server.  `data` is {fqdn: {type: [rdata text]}}; rdata names are
    absolute.  `versions` keeps every state of the data.
    """

    def __init__(self, ip, name, data, zone):
        self.ip = ip
        self.name = name
        self.data = data
        self.zone = zone
        self.versions = [data]

    def update(self, changes):
        data = {n: {t: list(v) for t, v in d.items()} for n, d in self.data.items()}
        for name, rdtype, values in changes:
            node = data.setdefault(fqdn(name), {})
            if values:
                if rdtype != "CNAME":
                    node.pop("CNAME", None)     # an alias has no other records
                node[rdtype] = list(values)
            else:
                node.pop(rdtype, None)
                if not node:
                    del data[fqdn(name)]
        self.data = data
        self.versions.append(data)

    @staticmethod
    def lookup(data, name, rdtype):
        """(exists, chain of (name, type, values)) the way a server answers."""
        chain = []
        name = fqdn(name)
        seen = set()
        while True:
            node = data.get(name)
            if node is None:
                exists = any(other.endswith("." + name) for other in data)
                return exists or bool(chain), chain
            if rdtype in node:
                chain.append((name, rdtype, node[rdtype]))
                return True, chain
            if "CNAME" in node and name not in seen:
                seen.add(name)
                chain.append((name, "CNAME", node["CNAME"]))
                name = fqdn(node["CNAME"][0])
                continue
            return True, chain

    def message(self, request, kind):
        question = request.question[0]
        rdtype = dns.rdatatype.to_text(question.rdtype)
        reply = dns.message.make_response(request, recursion_available=True)
        if kind in ("servfail", "refused", "formerr", "notimp"):
            reply.set_rcode({"servfail": dns.rcode.SERVFAIL, "refused": dns.rcode.REFUSED,
                             "formerr": dns.rcode.FORMERR, "notimp": dns.rcode.NOTIMP}[kind])
            return reply
        exists, chain = self.lookup(self.data, question.name.to_text(), rdtype)
        soa = dns.rrset.from_text(self.zone, 300, "IN", "SOA", f"ns.{self.zone} root.{self.zone} 7 3600 600 86400 300")
        if kind == "lame":
            reply.authority.append(dns.rrset.from_text(self.zone, 300, "IN", "NS", "elsewhere.example.org."))
            return reply
        if not exists:
            reply.set_rcode(dns.rcode.NXDOMAIN)
            reply.authority.append(soa)
            return reply
        if kind == "noise":
            # records nobody asked for
            reply.answer.append(dns.rrset.from_text("noise.example.org.", 60, "IN", "A", "9.9.9.9"))
            reply.additional.append(dns.rrset.from_text(question.name.to_text(), 60, "IN", "A", "9.9.9.8"))
            reply.additional.append(dns.rrset.from_text("noise.example.org.", 60, "IN", "AAAA", "2001:db8::9"))
        for name, kind_, values in chain:
            name = question.name.to_text() if name == fqdn(question.name.to_text()) else name
            reply.answer.append(dns.rrset.from_text(name, 300, "IN", kind_, *values))
        if not chain or chain[-1][1] != rdtype:
            reply.authority.append(soa)
        return reply

    def reply(self, wire, kind, udp, cut=0):
        request = dns.message.from_wire(wire)
        if kind == "garbage":
            return wire[:2] + b"\xff" * 37
        if kind == "empty":
            return b""
        reply = self.message(request, kind)
        size = 65535
        if udp:
            size = request.payload or 512 if request.edns >= 0 else 512
        full = reply.to_wire(max_size=65535)
        if kind == "truncated" or len(full) > size:
            tc = dns.message.make_response(request, recursion_available=True)
            tc.flags |= dns.flags.TC
            if kind == "partial":
                pass
            if reply.answer and len(reply.answer[-1]) > 1:
                # a beginning of the answer, as real servers send it
                last = reply.answer[-1]
                part = dns.rrset.from_text(last.name, 300, "IN", dns.rdatatype.to_text(last.rdtype), list(last)[0].to_text())
                tc.answer.extend(list(reply.answer[:-1]) + [part])
            full = tc.to_wire(max_size=65535)
        if kind == "short":
            # cut inside the message: the header promises more records
            full = full[:max(12, len(full) - 1 - cut % max(1, len(full) - 12))]
        if kind == "trailing":
            full += b"\x00junk"
        return full

    def stream(self, wire, kind, per, cut):
        """The messages of a TCP answer."""
        request = dns.message.from_wire(wire)
        if kind == "silent":
            return None
        if request.question and request.question[0].rdtype == dns.rdatatype.AXFR:
            return self.transfer(request, kind, per)
        if kind == "wrong-id":
            full = self.reply(wire, "ok", udp=False)
            return [struct.pack("!H", request.id ^ 0x1111) + full[2:]]
        return [self.reply(wire, kind, udp=False, cut=cut)]

    def transfer(self, request, kind, per):
        zone = request.question[0].name.to_text().lower()
        if kind in ("servfail", "refused", "formerr", "notimp") or zone != self.zone:
            reply = dns.message.make_response(request)
            reply.set_rcode({"servfail": dns.rcode.SERVFAIL, "formerr": dns.rcode.FORMERR, "notimp": dns.rcode.NOTIMP}.get(kind, dns.rcode.REFUSED))
            return [reply.to_wire()]
        if kind == "garbage":
            return [b"\xff" * 40]
        soa = self.soa()
        sets = [(self.zone, "SOA", [soa])]
        for name, rdtype, values in self.records():
            sets.extend((name, rdtype, [v]) for v in values)
        sets.append((self.zone, "SOA", [soa]))
        out = []
        per = max(1, per)
        if len(sets) // per > 12:
            per = len(sets) // 12 + 1
        for pos in range(0, len(sets), per):
            reply = dns.message.make_response(request)
            for name, rdtype, values in sets[pos:pos + per]:
                reply.answer.append(dns.rrset.from_text(name, 300, "IN", rdtype, *values))
            out.append(reply.to_wire(max_size=65535))
        return out

    def soa(self):
        return f"ns.{self.zone} root.{self.zone} {len(self.versions)} 3600 600 86400 300"

    def records(self):
        for name in sorted(self.data):
            if name == self.zone or name.endswith("." + self.zone):
                for rdtype in sorted(self.data[name]):
                    yield name, rdtype, self.data[name][rdtype]


class Forger(Server):
    """Answers everything, wrongly."""

    def __init__(self, server):
        super().__init__(server.ip, server.name, {}, server.zone)

    def message(self, request, kind):
        question = request.question[0]
        rdtype = dns.rdatatype.to_text(question.rdtype)
        value = {"A": "6.6.6.6", "AAAA": "2001:db8::666", "MX": "6 forged.example.org.", "TXT": '"forged"'}.get(rdtype, "forged.example.org.")
        reply = dns.message.make_response(request, recursion_available=True)
        try:
            reply.answer.append(dns.rrset.from_text(question.name.to_text(), 300, "IN", rdtype, value))
        except Exception:
            pass
        return reply
