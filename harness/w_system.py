"""Adapter: Application, ZIPGateway and YamlStorage together, over fake sockets to a simulated Z/IP gateway (spec/System.tla)."""
import copy
import ipaddress
import os
import shutil
import tempfile

from vloop import new_loop
from w_gateway import address, code
from w_node import record
from w_app import code as entry_code
from w_zipconn import parse_tx, wait_packet, zip_header
from world import World
import wire

from pyzwave.application import Application
from pyzwave.message import Message
from pyzwave.persistantstorage import YamlStorage
from pyzwave.zipgateway import ZIPGateway


def mask(ids):
    out = [0] * 29
    for i in ids:
        out[(i - 1) // 8] |= 1 << (i - 1) % 8
    return out


class NodeListener:
    """The user's listener of an entry or of one of its classes."""

    def __init__(self, world, ent, cls):
        self.world, self.ent, self.cls = world, ent, cls

    def heard(self, msg):
        if not self.world.auto:  # reports asked for by an interview are the Node module's matter
            self.world.rec(k="lsn", id=self.ent, c=self.cls, m=wire.flat(wire.project(msg)))
        return self.cls == 32

    def __getattr__(self, name):
        if not name.startswith("on") or (name == "onMessage") != (self.cls == 0):
            raise AttributeError(name)
        return lambda _speaker, msg, *_flags: self.heard(msg)


class Listener:
    """The user's listener of the application."""

    def __init__(self, world):
        self.world = world

    def nodesAdded(self, app, nodes):
        self.world.rec(k="nodesAdded", ids=sorted(entry_code(n.nodeId) for n in nodes))

    def nodeAdded(self, app, node):
        ent = entry_code(node.nodeId)
        self.world.rec(k="nodeAdded", id=ent, cls=self.world.record(node))
        node.addListener(NodeListener(self.world, ent, 0))
        for c in (32, 49):
            if c in node.supported:
                node.supported[c].addListener(NodeListener(self.world, ent, c))

    def nodesRemoved(self, app, ids):
        self.world.rec(k="nodesRemoved", ids=sorted(entry_code(i) for i in ids))

    def nodeRemoved(self, app, nodeid):
        self.world.rec(k="nodeRemoved", id=entry_code(nodeid))

    def addNodeStatus(self, app, msg):
        self.world.rec(k="addNodeStatus", m=wire.flat(wire.project(msg)))

    def removeNodeStatus(self, app, msg):
        self.world.rec(k="removeNodeStatus", m=wire.flat(wire.project(msg)))

    def messageReceived(self, app, msg):
        self.world.rec(k="messageReceived", m=wire.flat(wire.project(msg)))


class SystemWorld(World):
    def setup(self):
        self.base = tempfile.mkdtemp(prefix="vsys")
        self.run = 0
        self.root = os.path.join(self.base, "0")
        os.makedirs(self.root)
        self.net = copy.deepcopy(self.cfg["net"])
        self.begin()

    def begin(self):
        self.app, self.tasks, self.clients, self.server, self.sent, self.cur, self.auto = None, {}, [], None, {}, {}, 0
        net = self.loop.net
        net.on_sent, net.on_open = self.on_sent, self.on_open
        net.on_exc = lambda sock, exc: self.rec(k="raise", what=type(exc).__name__)

    def close(self):
        super().close()
        shutil.rmtree(self.base, ignore_errors=True)

    def rec(self, **kw):
        if kw.get("k") == "ret":
            kw.setdefault("v", [])
        super().rec(**kw)

    def record(self, node):
        return [record(int(k), c) for k, c in node.supported.items()]

    def node(self, ip):
        return next((x for x in self.net if x["ip"] == ip), None)

    def by_id(self, n):
        return next(x for x in self.net if x["id"] == n)

    # -- the gateway and its network
    def on_open(self, sock):
        if sock.remote is None:
            self.server = sock
        else:
            self.clients.append(sock)

    def reply(self, sock, data):
        self.loop.call_soon(lambda: sock.closed or self.loop.net.inject(sock, data, sock.remote))

    def on_sent(self, sock, data, addr):
        if sock is self.server:
            self.rec(k="uack", ip=code(addr[0]), body=list(data))
            return
        p = parse_tx(data)
        ip = code(sock.remote[0])
        b = p["body"]
        if p["pk"] != "cmd":
            if ip == 0 and b[:2] == [0x58, 0x04]:
                n = b[-1]
                a = 0 if n == self.cfg["ctl"] else next((x["ip"] for x in self.net if x["id"] == n), None)
                val = 2 if a is None else 0
                raw = ipaddress.IPv6Address(address(a or 0)).packed
                self.reply(sock, bytes([0x58, 0x01, val, n]) + raw + bytes([0xDE, 0xAD, 0xBE, 0xEF]))
            elif b[:2] != [0x23, 0x03]:
                self.rec(k="odd", ip=ip, body=b)
            return
        seq, ep = p["seq"], p["dep"]
        if ip == 0:
            self.reply(sock, zip_header(0x40, 0x10, seq, 0, 0))
            for a in self.gateway(b):
                self.reply(sock, zip_header(0, 0x50, 0, 0, 0) + bytes(a))
        elif self.auto:
            self.reply(sock, zip_header(0x40, 0x10, seq, ep, 0))
            x = self.node(ip)
            for a in self.answer(x, b) if x else []:
                self.reply(sock, zip_header(0, 0x50, 0, ep, 0) + bytes(a))
        else:
            if self.cur.get("op") == "cmd":
                self.sent[self.cur["id"]] = (sock, seq)
            self.rec(k="tx", ip=ip, sep=p["sep"], dep=ep, body=b)

    def gateway(self, b):
        """What the gateway answers to a command."""
        if b[0] == 0x5F:
            return [[0x5F, 0x03, self.cfg.get("mode", 1)]] if b[1] == 0x02 else []
        if b[0] != 0x52:
            return []
        q = b[2]
        if b[1] == 0x01:
            return [[0x52, 0x02, q, 0, self.cfg["ctl"]] + mask([self.cfg["ctl"]] + [x["id"] for x in self.net])]
        if b[1] == 0x0B:
            return [[0x52, 0x0C, q] + mask([])]
        x = self.by_id(b[4] if b[1] == 0x03 else b[3])
        if b[1] == 0x03:
            return [[0x52, 0x04, q, 15, 0x80, 0, 0, 4, 16, 1] + x["lst"]]
        if b[1] == 0x05:
            return [[0x52, 0x06, q, x["id"], 0, len(x["eps"]), 0]]
        if b[1] == 0x07:
            return [[0x52, 0x08, q, x["id"], len(x["eps"][b[4] - 1]), b[4], 16, 1] + x["eps"][b[4] - 1]]
        return []

    def answer(self, x, b):
        """What node x answers to a command (of an interview)."""
        reps = {r[0]: r[1:] for r in x["reps"]}
        if b[:2] == [0x86, 0x13]:
            return [[0x86, 0x14, b[2], dict(map(tuple, x["vers"])).get(b[2], 0)]]
        if b[:2] in ([0x86, 0x11], [0x5E, 0x01], [0x72, 0x04]):
            return [reps[b[0]]] if b[0] in reps else []
        if b[:2] == [0x85, 0x05]:
            return [[0x85, 0x06, len(x["grp"])]]
        if b[:2] == [0x85, 0x02]:
            g = next(g for g in x["grp"] if g["id"] == b[2])
            return [[0x85, 0x03, b[2], g["max"], 0] + [m for m, e in zip(g["mem"][::2], g["mem"][1::2])]]
        if b[:2] == [0x85, 0x01]:
            g = next(g for g in x["grp"] if g["id"] == b[2])
            for m in b[3:]:
                if m not in g["mem"][::2]:
                    g["mem"] = g["mem"] + [m, -1]
            return []
        if b[:2] == [0x31, 0x01]:
            bits = 0
            for t, _m in x["typ"]:
                bits |= 1 << (t - 1)
            return [[0x31, 0x02] + list(bits.to_bytes(max(1, (bits.bit_length() + 7) // 8), "little"))]
        if b[:2] == [0x31, 0x03]:
            return [[0x31, 0x06, b[2], dict(map(tuple, x["typ"])).get(b[2], 0)]]
        return []

    # -- stimuli
    def apply(self, ev):
        self.cur = ev
        super().apply(ev)

    def op_start(self, ev):
        self.gw = self.loop.call(lambda: ZIPGateway(address(0), b"psk"))
        self.app = self.loop.call(lambda: Application(self.gw, YamlStorage(self.root)))
        self.app.addListener(Listener(self))

        async def go():
            await self.gw.connect()
            await self.app.startup()

        self.spawn(ev["id"], go)

    def op_restart(self, ev):
        """The process ends; nothing of it is left but its files."""
        old, self.run = self.root, self.run + 1
        self.root = os.path.join(self.base, str(self.run))
        shutil.copytree(old, self.root)  # whatever is left of the old objects writes elsewhere
        self.loop._ready.clear()
        self.loop._scheduled.clear()
        self.loop = new_loop()
        self.t0 = self.loop.ds()
        self.begin()

    def op_change(self, ev):
        self.net = copy.deepcopy(ev["net"])
        if self.server is not None:
            ids = [self.cfg["ctl"]] + [x["id"] for x in self.net]
            data = zip_header(0, 0x50, 7, 0, 0) + bytes([0x52, 0x02, 0, 0, self.cfg["ctl"]] + mask(ids))
            self.loop.call_soon(self.loop.net.inject, self.server, data, (address(0), 4123))

    def entry(self, ent):
        return self.app.nodes["%d:%d" % (ent // 1000, ent % 1000)]

    def op_cmd(self, ev):
        msg = Message.decode(bytes(ev["body"]))
        node = self.entry(ev["ent"])
        if ev.get("via") and ev["body"][0] in node.supported:
            node = node.supported[ev["body"][0]]  # the same by way of the command class
        if ev["want"]:
            make = lambda: node.sendAndReceive(msg, wire.cls_of(ev["want"]), timeout=ev["to"] / 10)
            conv = lambda m: dict(res="msg", v=wire.flat(wire.project(m)))
        elif ev["to"] == 30:
            make, conv = (lambda: node.send(msg)), None
        else:
            make, conv = (lambda: node.send(msg, timeout=ev["to"] / 10)), None
        self.spawn(ev["id"], make, conv=conv)

    def confirm(self, ev, data):
        sock, seq = self.sent.get(ev["id"], (None, 0))
        if sock is not None and not sock.closed:
            self.loop.call_soon(self.loop.net.inject, sock, data(seq), sock.remote)

    def op_ack(self, ev):
        self.confirm(ev, lambda seq: zip_header(0x40, 0x10, seq, 0, 0))

    def op_queued(self, ev):
        self.confirm(ev, lambda seq: wait_packet(seq, ev["delay"]))

    def op_uns(self, ev):
        data = zip_header(0x80 if ev["ask"] else 0, 0x50, ev["seq"], ev["sep"], ev["dep"]) + bytes(ev["body"])
        if self.server is not None:
            self.loop.call_soon(self.loop.net.inject, self.server, data, (address(ev["ip"]), 4123))

    def op_con(self, ev):
        ip = self.by_id(ev["node"])["ip"] if any(x["id"] == ev["node"] for x in self.net) else None
        sock = next((c for c in self.clients if ip is not None and code(c.remote[0]) == ip and not c.closed), None)
        if sock is not None:
            data = zip_header(0, 0x50, 0, ev["sep"], 0) + bytes(ev["body"])
            self.loop.call_soon(self.loop.net.inject, sock, data, sock.remote)

    def op_ctl(self, ev):
        if self.clients:
            data = zip_header(0, 0x50, 0, 0, 0) + bytes(ev["body"])
            self.loop.call_soon(self.loop.net.inject, self.clients[0], data, (address(0), 4123))

    def op_iv(self, ev):
        node = self.entry(ev["ent"])

        async def go():
            self.auto += 1
            try:
                if ev.get("lock"):
                    with node.storageLock():
                        return await node.interview()
                return await node.interview()
            finally:
                self.auto -= 1

        self.spawn(ev["id"], go, conv=lambda _r: "none")

    def op_look(self, ev):
        if self.app is None:
            return
        for key, node in self.app.nodes.items():
            if key != node.nodeId:
                self.rec(k="badkey")
            self.rec(k="rec", id=entry_code(node.nodeId), cls=self.record(node))
