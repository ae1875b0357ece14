"""Drivers for spec/Gateway.tla."""
import random

import wire
from w_gateway import GatewayWorld

SPEC = "T_Gateway"
WORLD = GatewayWorld
HEAP = "4g"
ASSUMPTIONS = ["a single-threaded asyncio loop with exact timers; datagrams are delivered whole",
               "sockets open at once or after 0.7 s; the gateway numbers its replies like the requests they answer"]

CFG = {"open": 0}
SLOW = {"open": 7}


def mask(nodes):
    out = [0] * 29
    for n in nodes:
        out[(n - 1) // 8] |= 1 << ((n - 1) % 8)
    return out


def zpacket(fl0, seq, sep, dep, body, fl1=0x50, ext=()):
    return [0x23, 0x02, fl0, fl1 | (0x80 if ext else 0), seq, sep, dep] + list(ext) + list(body)


def call(cid, kind, **kw):
    return dict({"op": "call", "id": cid, "kind": kind}, **kw)


def cmd(con, body, ref=-1, sep=0):
    return {"op": "rx", "pk": "cmd", "con": con, "sep": sep, "body": list(body), "ref": ref}


def ack(con, n, ref=-1):
    return {"op": "rx", "pk": "ack", "con": con, "n": n, "ref": ref}


def adv(node, ip, val=0, **kw):
    return dict({"op": "rx", "pk": "adv", "node": node, "val": val, "ip": ip}, **kw)


def uns(ip, body):
    return {"op": "rx", "pk": "uns", "ip": ip, "body": list(body)}


def lst(nodes, ctl=1, status=0):
    return [0x52, 0x02, 0, status, ctl] + mask(nodes)


def report(nodes, ip=9, fl0=0, seq=5):
    return uns(ip, zpacket(fl0, seq, 0, 0, lst(nodes)))


# the model's starting point: connected, nodes 1 and 2 at addresses 1 and 2
PREFIX = [call(100, "connect"), cmd(1, [0x5F, 3, 1], 100), ack(1, 1, 100), ack(1, 2, 100), ack(1, 3, 100), cmd(1, lst({1, 2}), 100), adv(1, 1), adv(2, 2)]

MODELS = {
    "C08": [(0, '"uns","list","time"', 2, 6)],
    "C09": [(0, '"send","time"', 2, 6), (0, '"send","list"', 2, 5), (7, '"send","time"', 3, 5)],
    "C10": [(0, '"list","uns","time"', 2, 6)],
    "C11": [(0, '"nm","time"', 2, 5)],
    "C37": [(0, '"stop","send","time"', 3, 6), (0, '"stop","uns","time"', 2, 5), (7, '"stop","send","time"', 3, 5)],
}


def models(prop, tier, **_):
    cfg = ("INIT Init\nNEXT Next\nVIEW View\nINVARIANT Inv\nCONSTRAINT Limit\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"
           "CONSTANTS Open=%d Acts={%s} MaxId=%d MaxLevel=%d Graph=TRUE\n")
    up = 0 if tier == "quick" else 1
    return [dict(module="M_Gateway", cfg=cfg % (o, a, m, lv + up), tcfg={"open": o}, prefix=PREFIX) for o, a, m, lv in MODELS.get(prop, [])]


BODIES = [[0x20, 0x02], [0x20, 0x01, 0xFF], [0x25, 0x02], [0x86, 0x11], [0x85, 0x01, 0x01, 0x01], [0x20, 0x03, 0x63], [0x5A, 0x01]]


def some_body(rng):
    """A command: mostly one of a few, else of any class the gateway itself does not look at."""
    b = rng.choice(BODIES)
    if rng.random() < 0.3:
        w = wire.gen_bytes(rng, rng.choice([h for h in wire.HIDS if h >> 8 not in (0x52, 0x34, 0x23, 0x58, 0x5F)]))
        if wire.plain_float(w) and wire.decodable(w):
            b = w
    return b


NMK = ["addNode", "addStop", "dskSet", "keysSet", "remNode", "remStop", "rmFailed", "rmNode", "failed", "eps", "cap", "info", "list", "mode"]
PLAIN = ("addNode", "addStop", "dskSet", "keysSet", "remNode", "remStop")


def nm_arg(rng, kind):
    b = lambda: rng.choice([0, 1, 255, rng.randrange(256)])
    node = rng.choice([1, 2, 3, 232, rng.randrange(1, 233)])
    return {"addNode": [rng.choice([0, 2, 0x20, 0x22])], "dskSet": [rng.randrange(2), rng.choice([0, 2, 15, 16 % 16])] + [b() for _ in range(rng.choice([0, 2, 16]))],
            "keysSet": [rng.randrange(2), rng.randrange(2), rng.choice([0, 1, 2, 4, 7, 0x80, 0x87])], "rmFailed": [node], "rmNode": [node], "eps": [node],
            "cap": [node, rng.choice([0, 1, 127])], "info": [node], "mode": [rng.choice([1, 2])]}.get(kind, [0])


def reply_body(rng, kind, arg):
    """A complete reply of the kind awaited (its sequence number is filled in by the adapter)."""
    nodes = set(rng.sample(range(1, 233), rng.choice([1, 2, 5]))) | {rng.choice([1, 232])}
    if kind in ("rmFailed", "rmNode"):
        return [0x34, 0x08, 0, rng.choice([0, 1, 1, 2]), arg[0]]
    if kind == "failed":
        return [0x52, 0x0C, 0] + ([] if rng.random() < 0.1 else mask(nodes))
    if kind == "eps":
        return [0x52, 0x06, 0, arg[0]] + [[0, rng.choice([0, 1, 3, 127]), rng.choice([0, 1, 127])], [0, 5], []][rng.choice([0, 0, 0, 0, 1, 2])]
    if kind == "cap":
        return [0x52, 0x08, 0, arg[0], 3, arg[1], 0x10, 0x01] + [0x25, 0x5E, 0x86][: rng.choice([0, 3])]
    if kind == "info":
        return [0x52, 0x04, 0, 0x0F, 0x80, 0x80, 0, 4, 0x10, 1] + [0x5E, 0x25][: rng.choice([0, 2])]
    if kind in ("list", "connect"):
        return [0x52, 0x02, 0, 0, 1] + ([] if rng.random() < 0.1 else mask(nodes))
    if kind == "mode":
        return [0x5F, 3, rng.choice([arg[0], arg[0], 1, 2, 0])]
    return None


class Peer:
    """What the driver knows about the exchange, in terms of the specification's numbering."""

    def __init__(self, rng, world):
        self.rng, self.world = rng, world
        self.tid = 0
        self.kinds = {}
        self.nodes = {}
        self.reports = 0
        self.ips = {}
        self.next_ip = 10
        self.conn = 1        # the call that connects
        self.shared = False  # whether an address may be reported for several nodes
        self.fresh = 0.1     # how often a node has moved to another address

    def start(self, kind, **kw):
        self.tid += 1
        self.nodes[self.tid] = kw.get("node")
        arg = kw.pop("arg", None) or nm_arg(self.rng, kind)
        self.kinds[self.tid] = (kind, arg)
        return call(self.tid, kind, arg=arg, **kw)

    def live(self):
        return [i for i, t in self.world.tasks.items() if isinstance(i, int) and not t.done()]

    def pick_ack(self):
        """An acknowledgement: mostly of the newest commands."""
        rng = self.rng
        cons = [k for k in range(1, len(self.world.clients) + 1) if self.world.count.get(k)]
        if not cons:
            return None
        k = rng.choice(cons)
        top = self.world.count[k]
        n = top if rng.random() < 0.6 else rng.randrange(max(1, top - 5), top + 1)
        pk = rng.choice(["ack"] * 8 + ["nack"] + (["wait"] if k > 1 else []))
        return {"op": "rx", "pk": pk, "con": k, "n": n, "delay": rng.choice([0, 1, 10, 60]), "ref": -1}

    def advert(self):
        rng = self.rng
        asked = self.world.asked
        node = rng.choice(asked[-3:]) if asked and rng.random() < 0.8 else rng.choice([1, 2, 3, 5, 9, 34, 130, 232])
        if node not in self.ips or rng.random() < self.fresh:
            self.ips[node] = self.next_ip
            self.next_ip += 1
        ip = self.ips[node] + (200 if node % 5 == 2 else 0)
        if self.shared and rng.random() < 0.3:
            other = rng.choice(sorted(self.ips))
            ip = self.ips[other] + (200 if other % 5 == 2 else 0)
        ev = adv(node, ip, rng.choice([0, 0, 0, 0, 0, 1, 2]))
        if rng.random() < 0.2:
            ev["local"] = 1
        return ev

    def reply(self):
        rng = self.rng
        waiting = [i for i in self.live() if self.kinds.get(i, ("", 0))[0] not in ("send",) + PLAIN]
        known = [i for i in self.kinds if reply_body(rng, *self.kinds[i]) and (self.kinds[i][0] == "mode" or i in self.world.nm_of)]
        waiting = [i for i in waiting if i in known]
        if not known:
            return None
        i = rng.choice(waiting) if waiting and rng.random() < 0.75 else rng.choice(known[-8:])
        kind, arg = self.kinds[i]
        body = reply_body(rng, kind, arg)
        return cmd(self.world.maink, body, i, rng.choice([0, 0, 3])) if body else None

    def unsolicited(self):
        rng = self.rng
        ips = [a + (200 if n % 5 == 2 else 0) for n, a in self.ips.items()]
        if self.fresh > 0.1 and rng.random() < 0.3:  # an address some node had
            ips = [rng.randrange(10, max(self.next_ip, 11))]
        ip = rng.choice(ips) if ips and rng.random() < 0.8 else rng.choice([0, 190, 254])
        r = rng.random()
        fl0 = rng.choice([0x80, 0x80, 0x00, 0x40, 0xC0, 0x20, rng.randrange(256)])
        seq, sep, dep = rng.randrange(256), rng.choice([0, 1, 127]), rng.choice([0, 2, 127])
        ext = rng.choice([(), (), (5, 1, 3, 0, 0, 9)[:0], (6, 1, 3, 0, 0, 9), (6, 2, 3, 1, 2, 3)])
        fl1 = rng.choice([0x50, 0x40, 0x50, 0x10, rng.randrange(128)])
        body = some_body(rng)
        if r < 0.55:
            return uns(ip, zpacket(fl0, seq, sep, dep, body, fl1, ext))
        if r < 0.62:
            return uns(ip, zpacket(fl0, seq, sep, dep, [], fl1, ext))
        if r < 0.7:
            b = zpacket(fl0, seq, sep, dep, body, fl1, ext)
            return uns(ip, b[:rng.randrange(len(b))])
        if r < 0.76:
            return uns(ip, body)
        if r < 0.82:
            return uns(ip, [rng.randrange(256) for _ in range(rng.randrange(20))])
        b = wire.gen_bytes(rng, rng.choice([h for h in wire.HIDS if h not in (0x5202, 0x2302)]))
        return uns(ip, zpacket(fl0, seq, sep, dep, b if wire.plain_float(b) else [0x20, 2], fl1, ext))


def timing(rng, world):
    nt = world.loop.next_timer()
    d = int(round((nt - world.loop.time()) * 10)) if nt is not None else 5
    return max(1, min(3000, rng.choice([d, d, d - 1, d + 1, rng.choice([1, 5, 29, 30, 31, 100, 249, 250, 251])])))


def connected(peer, nodes, good=True):
    """The calls of connect(), with a cooperative gateway."""
    rng, w = peer.rng, peer.world
    yield peer.start("connect", arg=[0])
    cid = peer.tid
    if not good:
        return
    mode = rng.choice([1, 1, 2])
    yield cmd(1, [0x5F, 3, mode], cid)
    yield ack(1, 1, cid)
    n = 2
    if mode != 1:
        yield ack(1, n, cid)
        n += 1
    yield ack(1, n, cid)
    yield ack(1, n + 1, cid)
    yield cmd(1, lst(nodes), cid)
    for _ in nodes:
        if w.asked:
            node = w.asked[-1]
            if rng.random() < 0.8:
                yield dict(peer.advert(), node=node, val=0, ip=peer_ip(peer, node))
            else:
                yield {"op": "adv", "dt": 30}


def peer_ip(peer, node):
    if node not in peer.ips:
        peer.ips[node] = peer.next_ip
        peer.next_ip += 1
    return peer.ips[node] + (200 if node % 5 == 2 else 0)


def mixed(rng, n, weights, nodes=(1, 2, 3), good=True, shared=False, fresh=0.1):
    """A random history; weights: relative frequency of the kinds of events."""
    kinds = sorted(weights)
    wts = [weights[k] for k in kinds]

    def drive(world):
        p = Peer(rng, world)
        p.shared, p.fresh = shared, fresh
        pool = [1, 2, 3, 5, 7, 9, 34, 130, 232]
        cur = set(nodes)
        yield from connected(p, cur, good)
        for _ in range(n):
            k = rng.choices(kinds, wts)[0]
            ev = None
            if p.conn in p.live() and k in ("send", "nm", "stop"):
                k = rng.choice(["ack", "reply", "time"])  # connect() first
            off = world.clients[world.maink - 1].closed
            if k == "stop" and (not off or rng.random() < 0.4):
                ev = {"op": "stop"}
            elif k == "stop":
                con = len(world.clients) + 1
                yield p.start("connect", arg=[0])
                p.conn = p.tid
                if rng.random() < 0.8:
                    yield cmd(con, [0x5F, 3, 1], p.conn)
                    for j in range(1, rng.choice([2, 4, 4, 4])):
                        yield ack(con, j, p.conn)
            elif k == "list" and off:
                continue
            elif k == "send" and len(p.live()) < 10:
                ev = p.start("send", node=rng.choice([2, 3, 5, 7, 34, 130]), arg=[0x20, 0x01, rng.randrange(256)], sep=rng.choice([0, 1, 127]), dep=rng.choice([0, 4, 64, 127]), to=rng.choice([10, 30, 30, 300]))
            elif k == "nm" and len(p.live()) < 6:
                ev = p.start(rng.choice(NMK))
            elif k == "ack":
                ev = p.pick_ack()
            elif k == "reply":
                ev = p.reply()
            elif k == "advert":
                ev = p.advert()
                # which of two lookups of one node ends first when a further list waits is left open
                if p.reports - world.announced > 1 and ev["node"] in [p.nodes.get(i) for i in p.live()]:
                    continue
            elif k == "uns":
                ev = p.unsolicited()
            elif k == "list":
                cur = set(rng.sample(pool, rng.choice([0, 1, 2, 3, 4, 5, 1, 2, 3, 4, 5])))
                if rng.random() < 0.04:
                    cur = set(range(1, rng.choice([20, 40])))
                p.reports += 1
                ev = report(cur, rng.choice([0, 9, 250]), rng.choice([0, 0x80]), rng.randrange(256))
                if rng.random() < 0.05:
                    p.reports -= 1
                    ev = uns(9, zpacket(0, 1, 0, 0, [0x52, 0x02, 0, 0, 1]))
            elif k == "up":
                con = rng.randrange(1, len(world.clients) + 1)
                if not world.clients[con - 1].closed:
                    ev = cmd(con, some_body(rng), -1, rng.choice([0, 1, 2, 64, 127]))
            elif k == "cancel" and p.live():
                i = rng.choice(p.live())
                if p.kinds[i][0] != "connect":
                    ev = {"op": "cancel", "id": i}
            elif k == "time":
                ev = {"op": "adv", "dt": timing(rng, world)}
            if ev is None:
                continue
            if ev["op"] == "rx" and rng.random() < weights.get("_race", 0.15):
                nt = world.loop.next_timer()
                dt = int(round((nt - world.loop.time()) * 10)) if nt is not None else 0
                # (a keep-alive of a connection dropped in that very instant may or may not go out)
                if 0 < dt < 3000 and world.now() + dt not in world.ka_due.values():
                    ev = dict(ev, op="race", dt=dt)
            yield ev
        yield {"op": "adv", "dt": 300}
        yield {"op": "adv", "dt": 700}
    return drive


def many(rng, n):
    """More than 256 network management calls, many of them failing."""
    def drive(world):
        p = Peer(rng, world)
        same = {}
        yield from connected(p, {1, 2})
        for _ in range(n):
            ev = p.start(rng.choice(NMK))
            cid, (kind, arg) = p.tid, p.kinds[p.tid]
            before = [i for i in same.get(kind, []) if i > cid - 60]
            same.setdefault(kind, []).append(cid)
            yield ev
            top = world.count[1]
            r = rng.random()
            if r < 0.1:
                yield {"op": "adv", "dt": 30}
            elif r < 0.2:
                yield {"op": "cancel", "id": cid}
                continue
            else:
                yield ack(1, top)
            body = reply_body(rng, kind, arg)
            if body and cid in [i for i in p.live()]:
                if rng.random() < 0.1 and p.reply():
                    yield p.reply()
                if before and rng.random() < 0.3:  # the reply to an earlier call of the same kind comes late
                    yield cmd(1, body, rng.choice(before))
                if rng.random() < 0.85:
                    yield cmd(1, body, cid)
                else:
                    yield {"op": "adv", "dt": 100}
            if kind == "mode" and world.count[1] > top:
                yield ack(1, world.count[1])
            if rng.random() < 0.05:
                yield {"op": "adv", "dt": rng.choice([30, 100])}
    return drive


def around(rng, n):
    """Calls of one or two kinds around the wrap of the numbers, with the replies to earlier ones coming late."""
    def drive(world):
        p = Peer(rng, world)
        kinds = rng.sample([k for k in NMK if k not in PLAIN + ("mode",)], 2)
        late = []
        yield from connected(p, {1, 2})
        for _ in range(rng.choice([244, 248, 251])):
            yield p.start(rng.choice(PLAIN))
            yield {"op": "cancel", "id": p.tid}
        for _ in range(n):
            kind = rng.choice(kinds)
            yield p.start(kind)
            cid, arg = p.tid, p.kinds[p.tid][1]
            yield ack(1, world.count[1])
            before = [i for i, k in late if k == kind][-4:]
            if before and rng.random() < 0.7:
                yield cmd(1, reply_body(rng, kind, arg), rng.choice(before))
            r = rng.random()
            if cid in p.live():
                if r < 0.6:
                    yield cmd(1, reply_body(rng, kind, arg), cid)
                elif r < 0.8:
                    yield {"op": "cancel", "id": cid}
                else:
                    yield {"op": "adv", "dt": 100}
            late.append((cid, kind))
    return drive


def apart(drive):
    """The same history with no two timers due at once: which list or lookup is done with first would be left open.
    (All periods are multiples of a second.)"""
    def spread(world):
        for ev in drive(world):
            for _ in range(9 if ev["op"] != "adv" else 0):
                due = {int(round(h._when * 10)) % 10 for h in world.loop._scheduled if not h._cancelled}
                if world.now() % 10 not in due:
                    break
                yield {"op": "adv", "dt": 1}
            yield ev
    return spread


def unlisted(rng, n):
    """connect() got no node list; the list is asked for again, with and without success."""
    def drive(world):
        p = Peer(rng, world)
        yield p.start("connect", arg=[0])
        yield cmd(1, [0x5F, 3, 1], 1)
        for k in (1, 2, 3):
            yield ack(1, k, 1)
        if rng.random() < 0.5:
            yield cmd(1, [0x52, 0x02, 0, 0, 1][: rng.choice([3, 4, 5])], 1)
        for _ in range(9):
            if 1 in p.live():
                yield {"op": "adv", "dt": 30}
        for _ in range(n):
            yield p.start("list" if rng.random() < 0.7 else rng.choice(NMK))
            cid, (kind, arg) = p.tid, p.kinds[p.tid]
            if rng.random() < 0.15:
                yield {"op": "cancel", "id": cid}
                continue
            if rng.random() < 0.85:
                yield ack(1, world.count[1])
            if rng.random() < 0.3:
                ev = p.reply()
                if ev:
                    yield ev
            if rng.random() < 0.25:  # a list comes in by itself meanwhile
                p.reports += 1
                yield report(set(rng.sample(range(1, 12), rng.randrange(1, 4))))
                if kind == "list" and cid in p.live() and rng.random() < 0.7:
                    yield cmd(1, reply_body(rng, kind, arg), cid)
                    for _k in range(rng.choice([0, 1, 2])):  # (the node looked up may no longer be in the list)
                        if world.asked:
                            node = world.asked[-1]
                            yield dict(p.advert(), node=node, val=0, ip=peer_ip(p, node))
                    yield p.start("list")
            if world.asked and rng.random() < 0.3:
                yield p.advert()
            r = rng.random()
            body = reply_body(rng, kind, arg)
            if body and r < 0.5 and cid in p.live():
                if kind == "list" and rng.random() < 0.7:
                    body = [0x52, 0x02, 0, 0, 1][: rng.choice([3, 4, 5])]
                yield cmd(1, body, cid)
            elif r < 0.8:
                yield {"op": "adv", "dt": 100}
        yield {"op": "adv", "dt": 300}
    return drive


def overtaken(rng):
    """A list comes in by itself while the list asked for is awaited: the later one counts."""
    def drive(world):
        p = Peer(rng, world)
        yield p.start("connect", arg=[0])
        yield cmd(1, [0x5F, 3, 1], 1)
        for k in (1, 2, 3):
            yield ack(1, k, 1)
        one, two = (set(rng.sample(range(1, 12), rng.randrange(1, 5))) for _ in "ab")
        found = []

        def look(most):
            for _ in range(rng.randrange(most + 1)):
                if world.asked:
                    node = world.asked[-1]
                    found.append(dict(adv(node, peer_ip(p, node)), local=0))
                    yield found[-1] if rng.random() < 0.8 else {"op": "adv", "dt": 30}
        p.reports += 1
        yield report(one)
        yield from look(2)
        yield cmd(1, lst(two), 1)
        yield from look(6)
        for _ in range(rng.randrange(3)):
            yield p.start("list")
            p.reports += 1
            yield report(rng.choice([one, two, one | two]))
            yield from look(3)
        if found:
            yield rng.choice(found)
            yield uns(rng.choice(found)["ip"], zpacket(0x80, 7, 0, 0, [0x20, 2]))
        yield p.start("list")
        yield {"op": "adv", "dt": 300}
    return drive


def drivers(prop, tier, rng, **_):
    n = 1 if tier == "quick" else 8
    new = lambda: random.Random(rng.random())
    if prop == "C08":
        for _i in range(50 * n):
            yield CFG, mixed(new(), 70, {"uns": 10, "list": 1, "advert": 3, "time": 2, "up": 1, "send": 1, "ack": 1})
        for _i in range(15 * n):
            yield CFG, mixed(new(), 60, {"uns": 8, "list": 0.7, "advert": 4, "time": 2, "up": 1, "send": 4, "ack": 1}, fresh=0.5)
    if prop == "C07":
        for _i in range(12 * n):
            yield CFG, mixed(new(), 60, {"nm": 5, "ack": 4, "reply": 8, "up": 6, "time": 1})
    if prop == "C09":
        for _i in range(10 * n):
            yield CFG, mixed(new(), 70, {"send": 6, "advert": 6, "ack": 5, "list": 0.3, "time": 3, "up": 2}, shared=True)
        for _i in range(60 * n):
            yield (SLOW if _i % 3 == 0 else CFG), mixed(new(), 80, {"send": 5, "advert": 5, "ack": 5, "list": 0.4, "time": 3, "cancel": 1, "up": 0.5, "uns": 0.3})
    if prop == "C37":
        for _i in range(60 * n):
            yield (SLOW if _i % 3 == 0 else CFG), mixed(new(), 90, {"stop": 2, "send": 4, "advert": 5, "ack": 5, "list": 0.7, "time": 3, "cancel": 0.5, "up": 1, "uns": 2, "nm": 2, "reply": 2})
    if prop == "C10":
        for _i in range(60 * n):
            yield CFG, mixed(new(), 70, {"list": 3, "advert": 6, "time": 2, "uns": 2, "send": 0.7, "ack": 0.5, "nm": 0.3}, good=rng.random() < 0.7)
        for _i in range(10 * n):
            yield CFG, apart(unlisted(new(), 14))
            yield CFG, apart(overtaken(new()))
    if prop in ("C05", "C06"):  # requests over a real connection
        for _i in range(25 * n):
            yield CFG, mixed(new(), 70, {"nm": 6, "ack": 6, "reply": 8, "time": 2, "cancel": 1.5, "up": 1, "_race": 0.35})
    if prop == "C11":
        for _i in range(50 * n):
            yield CFG, mixed(new(), 70, {"nm": 5, "ack": 6, "reply": 6, "time": 2, "cancel": 0.7, "up": 0.5, "_race": 0.25}, good=rng.random() < 0.7)
        for _i in range(12 * n):
            yield CFG, apart(unlisted(new(), 14))
        for _i in range(3 * n):
            yield CFG, many(new(), 300)
            yield CFG, around(new(), 30)
            yield CFG, around(new(), 24)
