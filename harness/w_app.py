"""Adapter: an Application over a stand-in adapter whose calls are answered by the driver (spec/App.tla)."""
import asyncio

from fakes import FakeAdapter
from world import World
import wire

from pyzwave.application import Application
from pyzwave.commandclass import NetworkManagementInclusion, NetworkManagementProxy, Zip
from pyzwave.message import Message
from pyzwave.persistantstorage import PersistantStorage

CALLS = {"getNodeList": "list", "getNodeInfo": "info", "getMultiChannelEndPoints": "eps", "getMultiChannelCapability": "cap", "getFailedNodeList": "failed"}


def code(nodeid):
    if isinstance(nodeid, int):
        return nodeid
    n, e = str(nodeid).split(":")
    return int(n) * 1000 + int(e)


def entry(node):
    return dict(id=code(node.nodeId), basic=int(node.basicDeviceClass or 0), gen=int(node.genericDeviceClass or 0),
                spec=int(node.specificDeviceClass or 0), lis=int(node.listening or 0), fl=int(node.flirs or 0), fd=int(node.isFailed or 0), sup=sorted(int(x) for x in node.supported))


class Listener:
    def __init__(self, world):
        self.world = world

    def nodesAdded(self, app, nodes):
        self.world.rec(k="nodesAdded", ids=sorted(code(n.nodeId) for n in nodes))

    def nodeAdded(self, app, node):
        self.world.rec(k="nodeAdded", entry=entry(node))
        node.addListener(NodeListener(self.world))

    def nodesRemoved(self, app, ids):
        self.world.rec(k="nodesRemoved", ids=sorted(code(i) for i in ids))

    def nodeRemoved(self, app, nodeid):
        self.world.rec(k="nodeRemoved", id=code(nodeid))

    def addNodeStatus(self, app, msg):
        self.world.rec(k="addNodeStatus", id=0, m=wire.flat(wire.project(msg)))

    def removeNodeStatus(self, app, msg):
        self.world.rec(k="removeNodeStatus", id=0, m=wire.flat(wire.project(msg)))

    def messageReceived(self, app, msg):
        self.world.rec(k="messageReceived", id=0, m=wire.flat(wire.project(msg)))


class NodeListener:
    def __init__(self, world):
        self.world = world

    def onMessage(self, node, msg):
        self.world.rec(k="onMessage", id=code(node.nodeId), m=wire.flat(wire.project(msg)))
        return False


class Slow:
    """A listener that takes its time."""

    def __init__(self, world):
        self.world = world

    async def nodesAdded(self, app, nodes):
        await self.world.wait()

    async def nodeAdded(self, app, node):
        await self.world.wait()

    async def nodesRemoved(self, app, ids):
        if list(ids) != [0]:
            await self.world.wait()

    async def nodeRemoved(self, app, nodeid):
        if nodeid != 0:
            await self.world.wait()


class AppWorld(World):
    def setup(self):
        self.pending = []   # calls of the adapter not answered yet
        self.removals = []  # removals of failed nodes not answered yet
        self.waiting = []   # listeners that are not done yet
        self.cur = {}
        self.adapter = self.loop.call(lambda: FakeAdapter(None, self.on_call))
        self.adapter.nodeId = self.cfg["ctl"]
        self.app = self.loop.call(lambda: Application(self.adapter, PersistantStorage()))
        if self.cfg["slow"]:
            self.app.addListener(Slow(self))
        self.app.addListener(Listener(self))

    def on_call(self, name, args, kw):
        what = CALLS.get(name, name)
        args = [int(x) for x in args] + [int(x) for x in kw.values()] + [0, 0]
        if what == "info":
            self.cur["nxt"] = args[0]
        self.rec(k="ask", what=what, a=args[0], b=args[1])
        fut = self.loop.create_future()
        if what == "removeFailedNode":
            self.removals.append(fut)
        else:
            self.pending.append((what, fut))
        return fut

    async def wait(self):
        fut = self.loop.create_future()
        self.waiting.append(fut)
        await fut

    def apply(self, ev):
        ev.setdefault("nxt", 0)
        self.cur = ev
        super().apply(ev)

    def op_begin(self, ev):
        if ev["kind"] == "start":
            self.spawn(ev["id"], self.app.startup)
        else:
            self.loop.call(lambda: self.adapter.speak("nodeListUpdated"))

    def op_reply(self, ev):
        if not self.pending or self.pending[0][0] != ev["what"]:
            return
        what, fut = self.pending.pop(0)
        v = list(ev["v"])
        if what in ("info", "cap"):
            v = Message.decode(bytes(v))
        elif what == "eps":
            v = v[0]
        elif what == "list" and ev.get("set"):
            v = set(v)
        self.loop.call_soon(lambda: fut.done() or fut.set_result(v))

    def op_cancel(self, ev):
        if ev["id"] in self.tasks:
            self.tasks[ev["id"]].cancel()
            self.loop.settle()
            self.pending = [x for x in self.pending if not x[1].done()]

    def op_go(self, ev):
        futs, self.waiting = self.waiting, []
        for f in futs:
            self.loop.call_soon(lambda f=f: f.done() or f.set_result(None))

    def op_msg(self, ev):
        msg = Message.decode(bytes(ev["body"]))
        self.loop.call(lambda: self.adapter.speak("messageReceived", ev["node"], ev["ep"], msg, 0))

    def op_ctl(self, ev):
        msg = Message.decode(bytes(ev["body"]))
        if ev["wrap"]:
            msg = Zip.ZipPacket(zwCmdIncluded=True, seqNo=1, sourceEP=0, destEP=0, command=msg)
        self.loop.call(lambda: self.adapter.commandReceived(msg))

    def op_known(self, ev):
        node = self.app.nodes.get("%d:0" % ev["n"])
        if node:
            name = dict(basic="basicDeviceClass", gen="genericDeviceClass", spec="specificDeviceClass", lis="listening", fl="flirs", fd="isFailed")[ev["what"]]
            setattr(node, name, bool(ev["v"]) if ev["what"] in ("lis", "fl", "fd") else ev["v"])

    def op_remove(self, ev):
        node = self.app.nodes.get("%d:%d" % (ev["n"], ev["ep"]))
        if node:
            self.spawn(ev["id"], node.remove)

    def op_removed(self, ev):
        if not self.removals:
            return
        fut = self.removals.pop(0)
        status = Message.decode(bytes(ev["v"])).status if ev["v"] else NetworkManagementInclusion.FailedNodeRemoveStatus.Status.REMOVE_FAIL
        self.loop.call_soon(lambda: fut.done() or fut.set_result(status))

    def op_look(self, ev):
        nodes = self.app.nodes
        reg = [entry(n) for n in nodes.values()]
        if sorted(nodes) != sorted(n.nodeId for n in nodes.values()):
            self.rec(k="badkeys")
        self.rec(k="reg", list=sorted(reg, key=lambda x: x["id"]))
