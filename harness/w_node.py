"""Adapter: nodes and their command classes over a stand-in adapter whose sends are settled by the driver (spec/Node.tla)."""
import asyncio

from fakes import FakeAdapter
from names import NAMES
from world import World
import wire

from pyzwave.message import Message
from pyzwave.node import Node, NodeEndPoint

ATTRS = {134: ("zwaveLibraryType", "zwaveProtocolVersion", "zwaveProtocolSubVersion", "applicationVersion", "applicationSubVersion"),
         94: ("zwavePlusVersion", "roleType", "nodeType", "installerIconType", "userIconType"),
         114: ("manufacturerID", "productTypeID", "productID")}


def num(v):
    """An integer; anything else that merely looks like one is not usable as such."""
    return -99 if v is None or isinstance(v, (str, bytes, float)) else int(v)


def strip(n):
    if num(n) < 0:
        return [-99]
    n = int(n)
    return list(n.to_bytes((n.bit_length() + 7) // 8, "big"))


def record(cid, c):
    """What a command class has recorded."""
    iv = int(c.interviewed) if c.interviewed is True or c.interviewed is False else -99
    out = dict(id=cid, sec=int(bool(c.securityS0)), ver=num(c.version), iv=iv, num=[], grp=[], inf=[], par=[], typ=[])
    out["num"] = [num(getattr(c, a) or 0) for a in ATTRS.get(cid, ())]
    if cid == 133:
        out["grp"] = [dict(id=num(g), max=num(x.maxNodes), mem=[v for n, e in x.nodes for v in (num(n), -1 if e is None else num(e))])
                      for g, x in sorted(c.groupings.items())]
    elif cid == 89:
        out["inf"] = [dict(id=num(g), name=list(x.name.encode("utf-8")) if isinstance(x.name, str) else [-99], prof=num(x.profile),
                           cmds=[num(v) for p in x.commands for v in p]) for g, x in sorted(c.groupings.items())]
    elif cid == 112:
        out["par"] = [dict(id=num(p), val=strip(x.value), size=num(x.size)) for p, x in sorted(c.parameters.items())]
    elif cid == 49:
        out["typ"] = [[num(t), num(m)] for t, m in sorted(c.supportedTypes.items())]
    return out


def state(node):
    return [record(int(k), c) for k, c in node.supported.items()]


def classes(node):
    return [dict(id=int(k), sec=int(bool(c.securityS0)), known=int(not c.name.startswith("UNKNOWN"))) for k, c in node.supported.items()]


class NodeListener:
    def __init__(self, world, n, again=0):
        self.world, self.n, self.again, self.inside = world, n, again, False

    def nodeUpdated(self, node):
        self.world.rec(k="nodeUpdated", n=self.n, cls=state(node) if self.world.snap else [])
        if self.again and not self.inside:
            self.inside = True
            if self.again == 1:
                node.commandClassUpdated(None)
            else:
                with node.storageLock():
                    node.commandClassUpdated(None)
                    node.commandClassUpdated(None)
            self.inside = False


class Listener:
    """A listener of a command class (any handler method) or of the node."""

    def __init__(self, world, spec):
        self.world, self.spec = world, spec

    def heard(self, name, msg):
        good = name == ("onMessage" if self.spec["c"] == 0 else NAMES.get(msg.hid()))
        self.world.rec(k="lsn", id=self.spec["id"], good=int(good), m=wire.flat(wire.project(msg)))

    def answer(self):
        if self.spec["ans"] == 2:
            raise RuntimeError("listener failed")
        return None if self.spec["ans"] == 3 else self.spec["ans"] == 1

    def __getattr__(self, name):
        if not name.startswith("on") or (name == "onMessage") != (self.spec["c"] == 0):
            raise AttributeError(name)
        if self.spec["slow"]:
            async def method(_speaker, msg, *_flags):
                self.heard(name, msg)
                await self.world.wait()
                return self.answer()
        else:
            def method(_speaker, msg, *_flags):
                self.heard(name, msg)
                return self.answer()
        return method


class NodeWorld(World):
    snap = False  # whether announcements are recorded with what the classes hold then

    def setup(self):
        self.pending = []  # sends not settled: (root, ep, flat, future)
        self.asked = []    # what was sent: (node index, flat)
        self.waiting = []
        self.locks = {}
        self.kinds = {}    # id -> (kind, node index)
        self.cur = {}
        self.adapter = self.loop.call(lambda: FakeAdapter(self.on_send))
        self.adapter.nodeId = self.cfg["ctl"]
        self.nodes = []
        for i, c in enumerate(self.cfg["nodes"], 1):
            node = self.loop.call(lambda c=c: self.make(c))
            for cid, ver in c["vers"]:
                if cid in node.supported:
                    node.supported[cid].__setstate__({"version": ver})
            node.addListener(NodeListener(self, i, self.cfg["again"][i - 1] if "again" in self.cfg else 0))
            self.nodes.append(node)
        for spec in self.cfg["lsn"]:
            node = self.nodes[spec["n"] - 1]
            lsn = Listener(self, spec)
            if spec["c"] == 0:
                node.addListener(lsn)
            elif spec["c"] in node.supported:
                node.supported[spec["c"]].addListener(lsn)

    def make(self, c):
        lst = bytes(c["list"]) if c.get("raw") else list(c["list"])
        if c["ep"] == 0:
            return Node(c["root"], self.adapter, lst)
        parent = next((n for n in self.nodes if n.rootNodeId == c["root"] and n.endpoint == 0), None)
        return NodeEndPoint(parent or Node(c["root"], self.adapter, []), c["ep"], self.adapter, lst)

    def rec(self, **kw):
        if kw["k"] == "ret":
            kw.setdefault("v", [])
        super().rec(**kw)

    def on_send(self, dest, cmd, kw):
        fut = self.loop.create_future()
        flat = wire.flat(wire.project(cmd))
        ep = int(kw.get("destEP", 0))
        self.rec(k="send", n=int(dest), ep=ep, m=flat)
        if flat[1] == 0x3103 and flat[3] == 1 and not self.cur.get("nxt"):
            self.cur["nxt"] = flat[4]
        self.pending.append((int(dest), ep, flat, fut))
        n = next((i for i, c in enumerate(self.cfg["nodes"], 1) if (c["root"], c["ep"]) == (int(dest), ep)), 0)
        if n:
            self.asked = (self.asked + [(n, flat)])[-8:]
        return fut

    async def wait(self):
        fut = self.loop.create_future()
        self.waiting.append(fut)
        await fut

    def apply(self, ev):
        ev.setdefault("nxt", 0)
        self.cur = ev
        super().apply(ev)

    def node(self, ev):
        return self.nodes[ev["n"] - 1]

    def live(self, n, kinds):
        return [i for i, (k, m) in self.kinds.items() if m == n and k in kinds and not self.tasks[i].done()]

    def start(self, ev, make, conv=None):
        self.kinds[ev["id"]] = (ev["op"], ev["n"])
        self.spawn(ev["id"], make, conv=conv)

    # -- stimuli
    def op_load(self, ev):
        lst = bytes(ev["list"]) if ev.get("raw") else list(ev["list"])
        node = self.loop.call(lambda: Node(9, self.adapter, lst))
        self.rec(k="classes", list=classes(node))

    def op_look(self, ev):
        node = self.node(ev)
        for cid, c in node.supported.items():
            if int(c.id) != int(cid):
                self.rec(k="badid", id=int(cid))
        self.rec(k="cls", list=state(node))

    def op_iv(self, ev):
        self.start(ev, self.node(ev).interview, lambda _x: "none")

    def op_civ(self, ev):
        self.start(ev, self.node(ev).supported[ev["c"]].interview, lambda _x: "none")

    def op_req(self, ev):
        msg = Message.decode(bytes(ev["body"]))
        self.start(ev, lambda: self.node(ev).sendAndReceive(msg, wire.cls_of(ev["want"]), timeout=ev["to"] / 10), conv_msg)

    def op_wait(self, ev):
        self.start(ev, lambda: self.node(ev).waitForMessage(wire.cls_of(ev["want"]), timeout=ev["to"] / 10), conv_msg)

    def op_cget(self, ev):
        c = self.node(ev).supported[112]
        self.start(ev, lambda: c.get(ev["par"], bool(ev["cached"])) if not ev.get("dflt") else c.get(ev["par"]), lambda v: dict(res="val", v=strip(v)))

    def op_cset(self, ev):
        c = self.node(ev).supported[112]
        val = int.from_bytes(bytes(ev["val"]), "big")
        self.start(ev, lambda: c.set(ev["par"], size(ev["size"]), val))

    def op_msg(self, ev):
        msg = Message.decode(bytes(ev["body"]))
        self.start(ev, lambda: self.node(ev).handleMessage(msg, 0), lambda r: "true" if r else "false")

    def op_cancel(self, ev):
        if ev["id"] in self.tasks and self.kinds[ev["id"]][0] != "msg":
            self.tasks[ev["id"]].cancel()
            self.loop.settle()
            self.pending = [x for x in self.pending if not x[3].done()]  # nobody waits for these any longer

    def op_settle(self, ev):
        for x in self.pending:
            if x[:3] == (ev["root"], ev["ep"], ev["m"]):
                break
        else:
            return
        self.pending.remove(x)
        fut = x[3]

        def go():
            if not fut.done():
                if ev["how"] == "raise":
                    fut.set_exception(asyncio.TimeoutError())
                else:
                    fut.set_result(ev["how"] == "ok")
        self.loop.call_soon(go)

    def op_go(self, ev):
        futs, self.waiting = self.waiting, []
        for f in futs:
            self.loop.call_soon(lambda f=f: f.done() or f.set_result(None))

    def op_lock(self, ev):
        cm = self.node(ev).storageLock()
        self.loop.call(cm.__enter__)
        self.locks.setdefault(ev["n"], []).append(cm)

    def op_unlock(self, ev):
        held = self.locks.get(ev["n"])
        if not held:
            return
        cm = held.pop(0 if ev.get("first") else -1)

        def leave():
            if not ev.get("exc"):
                cm.__exit__(None, None, None)
                return
            try:
                exc = (ValueError, asyncio.CancelledError, asyncio.TimeoutError, KeyboardInterrupt)[ev["exc"] - 1]
                cm.__exit__(exc, exc("body failed"), None)
            except BaseException:  # pylint: disable=broad-except
                pass
        self.loop.call(leave)

    def op_upd(self, ev):
        node = self.node(ev)
        cls = list(node.supported.values())
        if cls:
            self.loop.call(lambda: cls[ev.get("which", 0) % len(cls)].speak("commandClassUpdated"))
        else:
            self.loop.call(lambda: node.commandClassUpdated(None))

    def close(self):
        self.pending = []
        super().close()


def conv_msg(msg):
    return dict(res="msg", v=wire.flat(wire.project(msg)))


def size(n):
    from pyzwave.commandclass import Configuration
    return Configuration.Size(n)
