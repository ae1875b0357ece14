"""Adapter: connections over in-memory datagram sockets (spec/Transport.tla)."""
import asyncio
import ipaddress

from world import World

from pyzwave.connection import Connection


def address(n):
    return "fd00::%x" % n


def code(text):
    a = int(ipaddress.IPv6Address(text))
    return 0 if a == 0 else a - (0xFD00 << 112)


def sender(n):
    """What a socket tells about where a datagram came from."""
    return (address(n), 4000 + n, 0, 0)


class TransportWorld(World):
    def setup(self):
        self.cons = [self.loop.call(Connection) for _ in range(self.cfg["n"])]
        self.cur = None
        self.ends = {}
        self.made = set()
        self.opens = 0
        self.sent, self.heard = {}, {}
        net = self.loop.net
        net.open_delay = self.open_delay
        net.on_sent, net.on_open, net.on_closed = self.on_sent, self.on_open, self.on_closed
        net.on_exc = lambda sock, exc: None

    def started(self, c):
        """Whether a socket was ever made for connection c."""
        return c in self.made

    async def open_delay(self, local, remote):
        fail = self.ends[asyncio.current_task()]
        if self.cfg["delay"]:
            self.opens += 1  # sockets are opened in the order asked for
            await asyncio.sleep(self.cfg["delay"] / 10 + self.opens * 1e-9)
        if fail:
            raise OSError("no route")

    def on_open(self, sock):
        host, port = (sock.remote or sock.local)[:2]
        self.rec(k="open", addr=code(host) if sock.remote else 0, port=port)

    def on_closed(self, sock):
        self.rec(k="close", sock=sock.sid + 1)

    def on_sent(self, sock, data, addr):
        if sock.closed:
            return  # goes nowhere
        if addr is not None and sock.remote is None:
            to = addr[1] - 4000 if tuple(addr) == sender(addr[1] - 4000) else -1
        else:
            to = 0 if addr is None or addr == sock.remote else -1
        nth = self.sent[sock.sid] = self.sent.get(sock.sid, 0) + 1
        self.rec(k="tx", sock=sock.sid + 1, nth=nth, data=list(data), to=to)

    def op_onmsg(self, ev):
        c = ev["c"]

        def receiver(num, kind):
            def got(*args):
                frm = 0
                if len(args) == 2:
                    frm = args[1][1] - 4000 if tuple(args[1]) == sender(args[1][1] - 4000) else -1
                nth = self.heard[c] = self.heard.get(c, 0) + 1
                self.rec(k="got", con=c, recv=num, nth=nth, data=list(args[0]) if isinstance(args[0], bytes) else [-1], **{"from": frm})
                con = self.cons[c - 1]
                if kind == "echo":
                    if frm:
                        con.sendTo(args[0], args[1])
                    else:
                        con.send(args[0])
                elif kind == "raise":
                    raise ValueError("receiver")
                elif kind == "next":
                    con.onMessage(receiver(num + 100, "plain"))
            return got
        self.cons[c - 1].onMessage(receiver(ev["recv"], ev["kind"]) if ev["recv"] else None)

    def op_start(self, ev):
        con = self.cons[ev["c"] - 1]

        async def go():
            self.ends[asyncio.current_task()] = ev["fail"]
            try:
                if ev["addr"]:
                    await con.connect(address(ev["addr"]), b"psk")
                else:
                    await con.listen(b"psk", ev["port"])
            except OSError:
                return "failed"
            self.made.add(ev["c"])
            return None
        self.spawn(ev["id"], go, lambda v: v or "none")

    def op_send(self, ev):
        con = self.cons[ev["c"] - 1]
        call = (lambda: con.sendTo(bytes(ev["data"]), sender(ev["to"]))) if ev["to"] else (lambda: con.send(bytes(ev["data"])))
        try:
            res = self.loop.call(call)
            res = "true" if res is True else "false" if res is False else repr(res)
        except Exception as exc:  # pylint: disable=broad-except
            res = "exc:" + type(exc).__name__
        self.rec(k="sent", id=ev["id"], res=res)

    def op_rx(self, ev):
        sock = self.loop.net.socks[ev["sock"] - 1]
        if not sock.closed:
            self.loop.call_soon(self.loop.net.inject, sock, bytes(ev["data"]), sender(ev["from"]))

    def op_lost(self, ev):
        sock = self.loop.net.socks[ev["sock"] - 1]
        if not sock.closed:
            self.loop.call_soon(sock.protocol.connection_lost, OSError("lost"))
            self.loop.settle()
            sock.closed = True

    def op_error(self, ev):
        sock = self.loop.net.socks[ev["sock"] - 1]
        if not sock.closed:
            self.loop.call_soon(sock.protocol.error_received, ConnectionRefusedError("nobody there"))

    def op_stop(self, ev):
        self.loop.call(self.cons[ev["c"] - 1].stop)
