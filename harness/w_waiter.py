"""Adapter: waiting requests of an adapter or of a node (spec/Waiter.tla)."""
import asyncio

from fakes import FakeAdapter
from world import World

from pyzwave.commandclass import Basic, SwitchBinary, Version, Zip
from pyzwave.message import Message
from pyzwave.node import Node

GETS = {1: Basic.Get, 2: SwitchBinary.Get, 3: Basic.Get}
REPORTS = {1: Basic.Report, 2: SwitchBinary.Report, 3: Basic.Set}
HID = {0x2003: 1, 0x2503: 2, 0x2001: 3}


class Listener:
    def __init__(self, world):
        self.world = world

    def onMessageReceived(self, _speaker, msg):
        if isinstance(msg, Zip.ZipPacket):
            msg = msg.command
        self.up(msg)

    def onMessage(self, _speaker, msg):
        self.up(msg)
        return False

    def up(self, msg):
        b = msg.compose()
        self.world.rec(k="up", typ=HID[b[0] << 8 | b[1]], val=b[2])


class WaiterWorld(World):
    def setup(self):
        self.node_mode = self.cfg["mode"] == "node"
        self.sends = {}
        self.starting = None
        self.n = 0
        self.adapter = self.loop.call(lambda: FakeAdapter(self.on_send))
        self.node = self.loop.call(lambda: Node(5, self.adapter, []))
        self.target = self.node if self.node_mode else self.adapter
        self.target.addListener(Listener(self))

    def on_send(self, dest, cmd, kw):
        fut = self.loop.create_future()
        self.sends[self.starting] = fut
        self.rec(k="tx", id=self.starting)
        return fut

    def conv(self, msg):
        b = msg.compose()
        return dict(res="val", val=b[2])

    def launch(self, ev, make):
        self.loop.settle()
        self.starting = ev["id"]
        self.spawn(ev["id"], make, conv=self.conv)
        self.loop.settle()
        self.starting = None

    def rec(self, **kw):
        if kw["k"] == "ret":
            kw.setdefault("val", -1)
        super().rec(**kw)

    def op_req(self, ev):
        t = ev["typ"]
        self.launch(ev, lambda: self.target.sendAndReceive(GETS[t](), REPORTS[t], timeout=ev["to"] / 10))

    def op_wait(self, ev):
        self.launch(ev, lambda: self.target.waitForMessage(REPORTS[ev["typ"]], timeout=ev["to"] / 10))

    def op_settle(self, ev):
        fut = self.sends.get(ev["id"])
        if fut is None or fut.done():
            return
        def go():
            if fut.done():
                return
            if ev["how"] == "raise":
                fut.set_exception(asyncio.TimeoutError())
            else:
                fut.set_result(ev["how"] == "ok")
        self.loop.call_soon(go)

    def deliver(self, ev):
        msg = REPORTS[ev["typ"]](value=ev["val"])
        n = ev["n"]
        if self.node_mode:
            async def go():
                res = await self.node.handleMessage(msg, 0)
                self.rec(k="handled", n=n, h=res)
            # started at once: the message is looked at in the very instant it arrives
            self.tasks["m%d" % len(self.tasks)] = asyncio.Task(go(), loop=self.loop, eager_start=True)
        elif ev.get("wrap", 0):
            self.adapter.commandReceived(Zip.ZipPacket(zwCmdIncluded=True, sourceEP=0, destEP=0, seqNo=1, command=msg))
        else:
            self.adapter.commandReceived(msg)

    def op_msg(self, ev):
        self.loop.call_soon(self.deliver, ev)

    def op_race(self, ev):
        self.loop.advance(ev["dt"], final=[lambda: self.deliver(ev)])

    def op_cancel(self, ev):
        self.loop.settle()
        if ev["id"] in self.tasks:
            self.tasks[ev["id"]].cancel()
