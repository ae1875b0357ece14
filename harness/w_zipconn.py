"""Adapter: one ZIPConnection over a fake datagram socket (spec/ZipConn.tla)."""
from world import World
import wire

from pyzwave.commandclass import Basic, Zip  # noqa: F401  (Zip: import order of the package)
from pyzwave.message import Message
from pyzwave.zipconnection import ZIPConnection


def zip_header(fl0, fl1, seq, sep, dep):
    return bytes([0x23, 0x02, fl0, fl1, seq & 0xFF, sep, dep])


def wait_packet(seq, delay, hdr=1, crit=1, pre=(), post=()):
    """A 'waiting' notice; hdr: with an expected delay option, pre, post: options around it."""
    if not hdr:
        return zip_header(0x30, 0x10, seq, 0, 0)
    d = (delay & 0xFFFFFF).to_bytes(3, "big")
    ext = bytes(pre) + bytes([0x81 if crit else 0x01, 3]) + d + bytes(post)
    return zip_header(0x30, 0x90, seq, 0, 0) + bytes([1 + len(ext)]) + ext


def parse_tx(data):
    """Independent reading of a transmitted datagram."""
    if len(data) >= 7 and data[0] == 0x23 and data[1] == 0x02 and data[3] & 0x80 == 0:
        return dict(pk="cmd", seq=data[4], sep=data[5], dep=data[6], fl=[data[2], data[3]], body=list(data[7:]))
    return dict(pk="raw", seq=-1, sep=-1, dep=-1, fl=[], body=list(data))


class Listener:
    def __init__(self, world):
        self.world = world

    def onMessageReceived(self, _speaker, msg):
        if isinstance(msg, Zip.ZipPacket):
            self.world.rec(k="up", sep=int(msg.sourceEP), dep=int(msg.destEP), m=wire.flat(wire.project(msg.command)))
        else:
            self.world.rec(k="up", sep=-1, dep=-1, m=wire.flat(wire.project(msg)))


class ZipConnWorld(World):
    def setup(self):
        self.seq_of = {}
        self.conn = self.loop.call(lambda: ZIPConnection("fd00::1", b"psk"))
        self.listener = Listener(self)
        self.conn.addListener(self.listener)
        self.loop.net.on_sent = self.on_sent
        self.loop.net.on_exc = lambda sock, exc: self.rec(k="raise", what=type(exc).__name__)
        self.pending_send = None
        self.last_seq = 0
        self.used = []

    def on_sent(self, sock, data, addr):
        p = parse_tx(data)
        self.rec(k="tx", **p)
        if p["pk"] == "cmd":
            self.last_seq = p["seq"]
            if self.pending_send is not None:
                self.pending_send["seq"] = p["seq"]
                self.seq_of[self.pending_send["id"]] = p["seq"]

    @property
    def sock(self):
        return self.loop.net.socks[-1]

    def op_connect(self, ev):
        self.spawn("c%d" % len(self.loop.net.socks), self.conn.connect, conv=lambda r: "none", kind="connect")
        self.loop.settle()
        self.obs = [o for o in self.obs if o["k"] != "connect" or o["res"] != "none"]

    def op_stop(self, ev):
        self.conn.stop()

    def op_send(self, ev):
        ev["seq"] = -1
        self.pending_send = ev
        cmd = Message.decode(bytes(ev["body"]))
        kw = dict(sourceEP=ev["sep"], destEP=ev["dep"], timeout=ev["to"] / 10)
        if ev["to"] == 30:  # the documented defaults
            kw = {k: v for k, v in kw.items() if v and k != "timeout"}
        self.spawn(ev["id"], lambda: self.conn.send(cmd, **kw))
        self.loop.settle()
        self.pending_send = None

    def op_cancel(self, ev):
        self.tasks[ev["id"]].cancel()

    def packet(self, ev):
        if ev.get("id"):
            ev["seq"] = self.seq_of.get(ev["id"], ev["seq"])
        elif "id" in ev and ev["pk"] in ("ack", "nack", "wait"):
            # a number nobody is waiting for
            busy = {self.seq_of[i] for i, t in self.tasks.items() if i in self.seq_of and not t.done()}
            q = ev["seq"]
            while q in busy:
                q = (q + 255) & 0xFF
            ev["seq"] = q
        pk = ev["pk"]
        if pk == "ack":
            f = ev.get("hd", [0x40, 0x10, 0, 0])  # flags, end points and what follows say nothing about the receipt
            return zip_header(f[0], f[1], ev["seq"], f[2], f[3]) + bytes(f[4:])
        if pk == "nack":
            return zip_header(ev.get("fl", 0x20), 0x10, ev["seq"], 0, 0)
        if pk == "wait":
            return wait_packet(ev["seq"], ev["delay"], ev.get("hdr", 1), ev.get("crit", 1), ev.get("pre", ()), ev.get("post", ()))
        if pk == "cmd":
            return zip_header(0x00, 0x50, ev["seq"], ev["sep"], 0) + bytes(ev["body"])
        return bytes(ev["body"])  # junk / anything else, raw

    def op_rx(self, ev):
        data = self.packet(ev)
        self.loop.call_soon(self.loop.net.inject, self.sock, data, ("fd00::1", 4123))

    def op_race(self, ev):
        data = self.packet(ev)
        self.loop.advance(ev["dt"], final=[lambda: self.loop.net.inject(self.sock, data, ("fd00::1", 4123))])
