"""Adapter: a ZIPGateway over fake datagram sockets (spec/Gateway.tla)."""
import asyncio
import ipaddress

from world import World
from w_zipconn import parse_tx, wait_packet, zip_header
import wire

from pyzwave.adapter import TxOptions
from pyzwave.commandclass import NetworkManagementInclusion as Nmi
from pyzwave.message import Message
from pyzwave.node import Node
from pyzwave.zipgateway import ZIPGateway
from pyzwave.commandclass import Zip


def sender(ip):
    """Where a packet comes from, as a datagram socket for IPv6 tells it."""
    return (address(ip), 4123 + ip, 0, ip % 3)


def address(ip):
    """Textual address of an address code; neighbouring codes mostly differ in their network part only."""
    if ip >= 200:
        return "::ffff:192.168.0.%d" % (ip - 200)
    return "fd00:0:0:%x::%x" % (ip % 3, ip // 3 + 1)


def code(text):
    a = ipaddress.IPv6Address(text)
    if a.ipv4_mapped is not None:
        return 200 + a.ipv4_mapped.packed[3]
    return (int(a) >> 64) - (0xFD00 << 48) + 3 * ((int(a) & 0xFFFFFFFFFFFFFFFF) - 1)


class Main:
    """Listener of the gateway."""

    def __init__(self, world):
        self.world = world

    def onMessageReceived(self, speaker, msg):
        sep = -1
        if isinstance(msg, Zip.ZipPacket):
            sep, msg = int(msg.sourceEP), msg.command
        self.world.rec(k="up", sep=sep, m=wire.flat(wire.project(msg)))

    def messageReceived(self, speaker, nodeId, sep, msg, ext):
        ext = [0] if isinstance(ext, int) else wire.value("ext", ext)
        self.world.rec(k="msg", node=int(nodeId), sep=int(sep), m=wire.flat(wire.project(msg)), ext=ext)

    def nodeListUpdated(self, speaker):
        self.world.announced += 1
        self.world.rec(k="nlu", list=self.world.list_now())


class GatewayWorld(World):
    def setup(self):
        self.gw = self.loop.call(lambda: ZIPGateway("fd00::1", b"psk"))
        self.main = Main(self)
        self.gw.addListener(self.main)
        self.maink = 1     # number of the socket to the gateway
        self.clients = []  # sockets to the gateway (first) and to nodes
        self.server = None
        self.count = {}    # socket -> commands sent
        self.seqs = {}     # (connection, n) -> sequence number
        self.cur = {}
        self.announced = 0
        self.reported = []  # lists reported, which are announced in this order
        self.opens = 0
        self.ka_due = {}   # connection -> instant of its next keep-alive
        self.asked = []    # nodes whose address was asked for
        self.nm_of = {}    # call -> its network management number
        net = self.loop.net
        net.open_delay = self.open_delay
        net.on_sent, net.on_open, net.on_closed = self.on_sent, self.on_open, self.on_closed
        net.on_exc = lambda sock, exc: self.rec(k="raise", what=type(exc).__name__)

    def now(self):
        return self.loop.ds()

    def list_now(self):
        if self.reported[self.announced - 1:self.announced] == [0]:
            return []  # an empty list is not cached, getNodeList() asks the gateway again
        coro = self.gw.getNodeList()
        try:
            coro.send(None)
        except StopIteration as stop:
            return sorted(int(x) for x in stop.value)
        coro.close()
        return [-1]

    # -- sockets
    async def open_delay(self, local, remote):
        if remote is not None and remote[0] != "fd00::1" and self.cfg["open"]:
            self.opens += 1  # sockets are opened in the order asked for
            await asyncio.sleep(self.cfg["open"] / 10 + self.opens * 1e-9)

    def on_open(self, sock):
        if sock.remote is None:
            if sock.local[1] != 4123:
                self.rec(k="badport", port=sock.local[1])
            self.server = sock
            self.rec(k="listen")
            return
        self.clients.append(sock)
        self.ka_due[len(self.clients)] = self.now() + 250
        if sock.remote[1] != 4123:
            self.rec(k="badport", port=sock.remote[1])
        if sock.remote[0] == "fd00::1":
            self.maink = len(self.clients)
        self.rec(k="open", ip=code(sock.remote[0]))

    def on_closed(self, sock):
        if sock is self.server:
            self.rec(k="unlisten")
        else:
            self.rec(k="close", ip=code(sock.remote[0]))

    def on_sent(self, sock, data, addr):
        if sock.closed:
            return  # goes nowhere
        if sock is self.server:
            if tuple(addr) != sender(code(addr[0])):  # port, and the scope of a link local address
                self.rec(k="badport", port=addr[1])
            self.rec(k="uack", ip=code(addr[0]), body=list(data))
            return
        p = parse_tx(data)
        k = self.clients.index(sock) + 1
        seq = p.pop("seq")
        n = -1
        if p["pk"] == "cmd" or p["body"][:2] == [0x23, 0x03]:
            self.ka_due[k] = self.now() + 250
        if p["pk"] == "cmd":
            n = self.count[k] = self.count.get(k, 0) + 1
            self.seqs[k, n] = seq
            if k == self.maink and p["body"][0] in (0x34, 0x52):
                self.cur["nm"] = p["body"][2]
                if self.cur.get("op") == "call":
                    self.nm_of[self.cur["id"]] = p["body"][2]
                elif "ref" in self.cur:
                    self.nm_of[self.cur["ref"]] = p["body"][2]
        elif p["body"][:2] == [0x58, 0x04]:
            self.asked.append(p["body"][-1])
        self.rec(k="tx", ip=code(sock.remote[0]), n=n, **p)

    # -- stimuli
    def apply(self, ev):
        ev.setdefault("nm", -1)
        ev.setdefault("pk", "")
        self.cur = ev
        super().apply(ev)

    def op_call(self, ev):
        for k, d in (("node", 0), ("arg", [0]), ("sep", 0), ("dep", 0), ("to", 30)):
            ev.setdefault(k, d)
        gw, a, kind = self.gw, ev["arg"], ev["kind"]
        make = {
            "connect": lambda: gw.connect(),
            "addNode": lambda: gw.addNode(TxOptions(a[0])),
            "addStop": lambda: gw.addNodeStop(),
            "dskSet": lambda: gw.addNodeDSKSet(bool(a[0]), a[1], bytes(a[2:])),
            "keysSet": lambda: gw.addNodeKeysSet(bool(a[0]), bool(a[1]), Nmi.Keys(a[2])),
            "remNode": lambda: gw.removeNode(),
            "remStop": lambda: gw.removeNodeStop(),
            "rmFailed": lambda: gw.removeFailedNode(a[0]),
            "rmNode": lambda: Node(a[0], gw, []).remove(),
            "failed": lambda: gw.getFailedNodeList(),
            "eps": lambda: gw.getMultiChannelEndPoints(a[0]),
            "cap": lambda: gw.getMultiChannelCapability(a[0], a[1]),
            "info": lambda: gw.getNodeInfo(a[0]),
            "list": lambda: gw.getNodeList(),
            "mode": lambda: gw.setGatewayMode(a[0]),
            "send": lambda: gw.sendToNode(ev["node"], Message.decode(bytes(a)), sourceEP=ev["sep"], destEP=ev["dep"], timeout=ev["to"] / 10),
        }[kind]

        def conv(v):
            if kind in ("failed", "list"):
                return dict(res="val", v=sorted(int(x) for x in v))
            if kind in ("eps", "rmFailed"):
                return dict(res="val", v=[int(v)])
            if kind in ("cap", "info"):
                return dict(res="val", v=wire.flat(wire.project(v)))
            return "true" if v is True else "false" if v is False else "none" if v is None else "val:" + repr(v)

        self.spawn(ev["id"], make, conv=conv)

    def rec(self, **kw):
        if kw.get("k") == "ret":
            kw.setdefault("v", [])
        super().rec(**kw)

    def op_stop(self, ev):
        self.loop.call(self.gw.stop)

    def op_cancel(self, ev):
        self.tasks[ev["id"]].cancel()

    def datagram(self, ev):
        """(socket, bytes, sender) of an inbound packet; the content of replies is final in ev."""
        pk = ev["pk"]
        if pk == "uns":
            b = bytes(ev["body"])
            at = 7 + (b[7] if len(b) > 7 and b[3] & 0x80 else 0)  # where the command begins
            if self.server and not self.server.closed and b[:2] == b"\x23\x02" and b[at:at + 2] == b"\x52\x02" and len(b) >= at + 34:
                self.reported.append(sum(b[at + 5:at + 34]))
            return self.server, bytes(ev["body"]), sender(ev["ip"])
        if pk == "adv":
            if "body" not in ev:
                ip = ipaddress.IPv6Address(address(ev["ip"])).packed
                ev["body"] = [0x58, 0x01, ev.get("local", 0) << 2 | ev["val"], ev["node"]] + list(ip) + [0xDE, 0xAD, 0xBE, 0xEF]
            return self.clients[self.maink - 1], bytes(ev["body"]), None
        sock = self.clients[ev["con"] - 1]
        if pk == "cmd":
            b = list(ev["body"])
            if ev.get("ref") in self.nm_of and b[0] in (0x34, 0x52):  # a reply to that call
                b[2] = self.nm_of[ev["ref"]]
            ev["body"] = b
            return sock, zip_header(0x00, 0x50, 0, ev["sep"], 0) + bytes(b), None
        seq = self.seqs.get((ev["con"], ev["n"]))
        if seq is None:
            return None, b"", None
        if pk == "ack":
            return sock, zip_header(0x40, 0x10, seq, 0, 0), None
        if pk == "wait":
            return sock, wait_packet(seq, ev["delay"]), None
        return sock, zip_header(0x20, 0x10, seq, 0, 0), None

    def op_rx(self, ev):
        sock, data, addr = self.datagram(ev)
        if sock is not None and not sock.closed:
            self.loop.call_soon(self.loop.net.inject, sock, data, addr or sock.remote)

    def op_race(self, ev):
        sock, data, addr = self.datagram(ev)
        final = [] if sock is None or sock.closed else [lambda: self.loop.net.inject(sock, data, addr or sock.remote)]
        self.loop.advance(ev["dt"], final=final or [lambda: None])
