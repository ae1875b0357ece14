"""Drivers for spec/Node.tla."""
import random

import wire
from w_node import NodeWorld

SPEC = "T_Node"
WORLD = NodeWorld
ASSUMPTIONS = ["one interview of a node at a time", "no supervised command inside a supervised command"]

MODES = {  # property: (mode, quick (ids, level), thorough)
    "C05": [("disp1", (3, 5), (5, 7))],
    "C06": [("disp1", (3, 5), (5, 7))],
    "C14": [("disp1", (4, 6), (5, 7)), ("disp2", (4, 6), (5, 7)), ("disp3", (4, 6), (5, 7))],
    "C15": [],
    "C16": [("lock", (2, 7), (4, 9)), ("again", (2, 6), (3, 8))],
    "C17": [("disp1", (4, 6), (5, 7)), ("disp2", (4, 6), (5, 7)), ("disp3", (4, 6), (5, 7))],
    "C18": [("iv", (8, 8), (10, 10))],
    "C19": [("assoc", (8, 8), (10, 10)), ("massoc", (8, 8), (10, 10))],
    "C20": [("conf", (4, 5), (5, 6))],
    "C21": [("sensor", (6, 7), (9, 9))],
    "C22": [("agi", (5, 6), (7, 7))],
}


def nd(root, ep, lst, vers=()):
    return {"root": root, "ep": ep, "list": list(lst), "vers": [list(v) for v in vers]}


def ls(i, n, c, ans, slow):
    return {"id": i, "n": n, "c": c, "ans": ans, "slow": slow}


CFG = {
    "lock": dict(nodes=[nd(2, 0, [112]), nd(2, 1, [112])], lsn=[], ctl=1),
    "again": dict(nodes=[nd(2, 0, [112])], lsn=[], ctl=1, again=[1]),
    "disp1": dict(nodes=[nd(2, 0, [32, 112])], lsn=[ls(1, 1, 32, 0, 0), ls(2, 1, 32, 1, 0), ls(3, 1, 0, 1, 0)], ctl=1),
    "disp2": dict(nodes=[nd(2, 3, [32, 112])], lsn=[ls(1, 1, 32, 2, 0), ls(2, 1, 0, 0, 0), ls(3, 1, 0, 2, 0)], ctl=1),
    "disp3": dict(nodes=[nd(2, 0, [32])], lsn=[ls(1, 1, 32, 0, 1), ls(2, 1, 0, 1, 1)], ctl=1),
    "iv": dict(nodes=[nd(2, 0, [134, 37, 114], [(37, 1)])], lsn=[], ctl=1),
    "assoc": dict(nodes=[nd(2, 0, [133, 94], [(133, 2)])], lsn=[], ctl=1),
    "massoc": dict(nodes=[nd(2, 1, [133, 94, 96, 142], [(133, 2)])], lsn=[], ctl=1),
    "conf": dict(nodes=[nd(2, 0, [112], [(112, 1)])], lsn=[], ctl=1),
    "sensor": dict(nodes=[nd(2, 0, [49], [(49, 5)])], lsn=[ls(1, 1, 49, 1, 0)], ctl=1),
    "agi": dict(nodes=[nd(2, 0, [89], [(89, 1)])], lsn=[], ctl=1),
}


def models(prop, tier, **_):
    cfg = ("INIT Init\nNEXT Next\nVIEW View\nINVARIANT MInv\nCONSTRAINT Limit\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"
           'CONSTANTS Mode="%s" MaxId=%d MaxLevel=%d\n')
    out = []
    for mode, quick, thorough in MODES[prop]:
        c = CFG[mode]
        out.append(dict(module="M_Node", cfg=cfg % ((mode,) + (quick if tier == "quick" else thorough)), tcfg=c,
                        suffix=[{"op": "look", "n": i + 1} for i in range(len(c["nodes"]))]))
    return out


# ---- answers to requests ----
def names(rng):
    return list(rng.choice(["", "Lifeline", "On/Off", "Grüße", "\U0001F600", "A" * 40, " padded ", "\tTab\n", "nul\0", "\0", " "]).encode("utf-8"))


def sensor_types(rng):
    return rng.choice([[rng.randrange(256)], [rng.randrange(256), rng.randrange(256)], [0, 0, 0, rng.randrange(256), rng.randrange(256)], [0], [9], [1, 128], []])


def members(rng, multi, ctl):
    pool = [ctl, 2, 3, 9, 232]
    a = rng.sample(pool, rng.randrange(0, 4))
    if rng.random() < 0.1:  # a long list, members in any order and repeated
        a = [rng.choice([ctl, 2, 3, 9, 128, 231, 232]) for _ in range(rng.randrange(5, 30))]
    if not multi or rng.random() < 0.3:
        return a
    return a + [0] + [x for _ in range(rng.randrange(3)) for x in (rng.choice(pool), rng.choice([0, 0, 1, 2, 255]))]


def group_infos(rng, groups):
    return [0x59, 4, rng.choice([0, 0x80, 0x40]) | len(groups)] + [b for g in groups for b in [g, 0] + [rng.randrange(256), rng.randrange(256)] + [0, rng.choice([0, 9]), rng.randrange(256)]]


def answer(rng, flat, ctl, wild):
    """A report answering the request, sometimes one answering something else, or a truncated one."""
    hid = flat[1]
    vals = wire.unflat(flat)[1]
    key = vals[-1][1] if vals and len(vals[-1]) > 1 else 0
    if rng.random() < wild and hid != 0x8613:
        key = rng.choice([key, key + 1, max(0, key - 1), 0, 1, 255]) & 255
    blob = lambda n: [rng.choice([0, 1, 255, rng.randrange(256)]) for _ in range(n)]
    if hid == 0x8611:
        out = [0x86, 0x12] + blob(rng.choice([5, 5, 5, 7]))
    elif hid == 0x5E01:
        out = [0x5E, 0x02] + blob(7)
    elif hid == 0x7204:
        out = [0x72, 0x05] + blob(6)
    elif hid == 0x8613:
        if rng.random() < wild:
            key = rng.choice([key, 134, 32, 37, 0])
        out = [0x86, 0x14, key, rng.choice([1, 1, 2, 3, 5, 5, 8, 0, rng.choice([15, 16, 17, 128, 255, rng.randrange(256)])])]
    elif hid == 0x3101:
        out = [0x31, 0x02] + sensor_types(rng)
    elif hid == 0x3103:
        out = [0x31, 0x06, key, rng.randrange(256)]
    elif hid == 0x8505:
        out = [0x85, 0x06, rng.choice([0, 1, 1, 2, 3, 5, 5, rng.choice([16, 127, 128, 255])])]
    elif hid == 0x8502:
        m = members(rng, False, ctl)
        out = [0x85, 0x03, key, rng.choice([rng.randrange(256), len(m), 0, 1, 5]), rng.choice([0, 0, 0, 0, 1, 2, 255])] + m
    elif hid == 0x8E02:
        m = members(rng, True, ctl)
        out = [0x8E, 0x03, key, rng.choice([rng.randrange(256), len(m), 0, 1, 5]), rng.choice([0, 0, 0, 0, 1, 2, 255])] + m
    elif hid == 0x5903:
        out = group_infos(rng, rng.choice([[1], [1, 2], [1, 2, 3], [3], [], [2, 2]]))
    elif hid == 0x5901:
        t = names(rng)
        out = [0x59, 0x02, key, len(t)] + t
    elif hid == 0x5905:
        c = rng.choice([0, 1, 2, 3, 9, 30])
        out = [0x59, 0x06, key, 2 * c] + blob(2 * c)
    elif hid == 0x7005:
        size = rng.choice([1, 2, 4])
        out = [0x70, 0x06, key, size] + blob(size)
    elif hid == 0x2002:
        out = [0x20, 0x03] + blob(1)
    elif hid == 0x8002:
        out = [0x80, 0x03] + blob(1)
    else:
        return None
    if rng.random() < wild / 3:
        out = out[:rng.randrange(2, len(out) + 1)]
    return out


def decodable(body):
    from pyzwave.message import Message
    try:
        return inner_ok(Message.decode(bytes(body)))
    except Exception:  # pylint: disable=broad-except
        return False


def inner_ok(msg):
    """No supervised command inside a supervised one."""
    if msg.hid() != 0x6C01 or msg.command is None:
        return True
    return msg.command.hid() != 0x6C01


CALLS = {0x2002: 0x2003, 0x8002: 0x8003, 0x7005: 0x7006, 0x8602: 0x8603, 0x3104: 0x3105}
REQS = [([0x20, 2], 0x2003), ([0x20, 2], 0x2003), ([0x80, 2], 0x8003), ([0x25, 2], 0x2503), ([0x31, 4, 1, 0], 0x3105), ([0x70, 5, 3], 0x7006)]
MORE = [([0x86, 0x11], 0x8612), ([0x86, 0x13, 0x20], 0x8614), ([0x72, 4], 0x7205), ([0x5E, 1], 0x5E02), ([0x59, 1, 0, 1], 0x5902), ([0x85, 2, 1], 0x8503), ([0x85, 5], 0x8506), ([0x31, 1], 0x3102)]


def any_msg(rng, prop):
    r = rng.random()
    if prop == "C20":
        size = rng.choice([1, 2, 4, 1, 2, 4, 0, 3])
        b = [0x70, 6, rng.choice([1, 2, 2, 3, 255]), size | rng.choice([0, 0, 8])] + [rng.randrange(256) for _ in range(size)]
        return b if r < 0.85 else b[:rng.randrange(2, len(b) + 1)]
    if prop == "C21" and r < 0.8:
        size = rng.choice([1, 2, 4])
        b = [0x31, 5, rng.choice([1, 1, 2, 3, 4, 5, 8, 9, 40, 0, 255]), rng.randrange(4) << 5 | rng.randrange(4) << 3 | size] + [rng.randrange(256) for _ in range(size)]
        return b if r < 0.7 else b[:rng.randrange(2, len(b) + 1)]
    if prop == "C22":
        g = rng.choice([1, 1, 2, 3, 4, 255])
        if r < 0.3:
            b = group_infos(rng, [rng.choice([1, 2, 3, 255]) for _ in range(rng.choice([0, 1, 1, 2, 3]))])
        elif r < 0.65:
            t = names(rng)
            b = [0x59, 2, g, len(t)] + t
        else:
            c = rng.choice([0, 1, 2, 3, 9, 30])
            b = [0x59, 6, g, 2 * c] + [rng.randrange(256) for _ in range(2 * c)]
        return b if rng.random() < 0.9 else b[:rng.randrange(2, len(b) + 1)]
    if r < 0.45:
        return rng.choice([[0x20, 1, 255], [0x20, 3, 99], [0x20, 2], [0x80, 3, 50], [0x25, 3, 255], [0x70, 6, 3, 1, 7], [0x31, 5, 1, 1, 20], [0x59, 2, 1, 1, 65],
                           [0x20, 0x77, 1], [0xF7, 1, 2], [0x9B, 5, 1], [0x86, 0x14, 0x20, 1], [0x32, 2, 33, 100, 1, 2, 3, 4], [0x87, 3, 1]])
    few = (0x34, 0x52, 0x5F) if prop == "C17" and r > 0.85 else ()  # commands with long names
    return wire.gen_bytes(rng, rng.choice([h for h in wire.HIDS if h not in (0x2302, 0x6C01) and h >> 8 not in (0x69,) and (not few or h >> 8 in few)]))


def supervise(rng, body):
    r = rng.random()
    if r < 0.04:
        return [0x6C, 1]
    if r < 0.08:
        return [0x6C, 1, rng.randrange(256)]
    if r < 0.12:
        return [0x6C, 1, rng.randrange(256), 0]
    return [0x6C, 1, rng.choice([rng.randrange(64), rng.randrange(256)]), len(body)] + body


KINDS = {
    "C05": {"msg": 4, "answer": 6, "settle": 6, "req": 5, "adv": 2, "cancel": 0.5},
    "C06": {"msg": 4, "answer": 6, "settle": 6, "req": 8, "adv": 2, "cancel": 1.5},
    "C14": {"cancel": 0.2, "msg": 5, "sup": 8, "settle": 8, "req": 2, "answer": 1, "go": 3, "adv": 0.7},
    "C15": {},
    "C16": {"cancel": 0.1, "lock": 5, "unlock": 5, "upd": 4, "msg": 3, "sup": 1, "settle": 4, "civ": 0.6, "answer": 2, "adv": 0.5},
    "C17": {"cancel": 0.3, "msg": 10, "sup": 2, "settle": 4, "req": 4, "answer": 3, "go": 4, "adv": 0.7},
    "C18": {"cancel": 0.2, "iv": 1.5, "civ": 1, "settle": 10, "answer": 10, "msg": 0.7, "adv": 1, "look": 1, "lock": 0.2, "unlock": 0.3},
    "C19": {"cancel": 0.15, "iv": 0.3, "civ": 1.5, "settle": 10, "answer": 10, "msg": 0.3, "adv": 0.8, "look": 1},
    "C20": {"cancel": 0.5, "cget": 4, "cset": 1.5, "settle": 6, "answer": 4, "msg": 4, "sup": 0.5, "adv": 1, "look": 1, "lock": 0.2, "unlock": 0.3},
    "C21": {"cancel": 0.15, "iv": 0.2, "civ": 1, "settle": 6, "answer": 7, "msg": 5, "sup": 0.5, "adv": 0.5, "look": 1, "go": 1},
    "C22": {"cancel": 0.1, "civ": 0.5, "iv": 0.1, "settle": 8, "answer": 4, "msg": 4, "sup": 1, "adv": 0.3, "look": 1, "lock": 0.2, "unlock": 0.3},
}
CIV = {"C16": [112, 114], "C19": [133], "C21": [49], "C22": [89]}
WILD = {"C14": 0.2, "C18": 0.35, "C19": 0.35, "C20": 0.3, "C21": 0.3, "C22": 0.2}
ALL = [32, 37, 38, 49, 50, 89, 94, 96, 112, 114, 128, 133, 134, 135, 142, 155, 2]
FOCUS = {"C14": [32, 112, 128], "C16": [112, 114, 89], "C17": [32, 49, 112, 128], "C18": [134, 114, 94, 49, 133, 89, 32, 112], "C19": [133, 94], "C20": [112], "C21": [49], "C22": [89],
         "C05": [32, 128], "C06": [32, 128]}


def node_list(rng, prop):
    must = FOCUS[prop]
    if prop in ("C14", "C17", "C18", "C05", "C06", "C16"):
        must = rng.sample(must, rng.randrange(0, len(must) + 1))
    extra = rng.sample(ALL, rng.randrange(0, 5))
    if prop == "C17" and rng.random() < 0.5:
        must = must + rng.sample([134, 114, 94, 89, 133], 2)
    if prop == "C17" and rng.random() < 0.4:
        must = must + rng.sample([0x34, 0x52, 0x5F], 2)
    if prop == "C19":
        if rng.random() < 0.3:
            must = [133]
        extra += rng.choice([[], [96], [142], [96, 142]])
    out = list(dict.fromkeys(must + extra))
    rng.shuffle(out)
    r = rng.random()
    if r < 0.2:
        out = out + [0xF1, 0] + [c for c in rng.sample(ALL, 2) if c not in out]
    elif r < 0.4:
        out = out + [0xEF] + rng.sample(ALL, 2)
    return out


def config(rng, prop, ctl=1):
    nodes = []
    for root, ep in rng.choice([[(2, 0)], [(2, 0)], [(2, 0), (2, 1)], [(2, 0), (3, 0)], [(5, 2)], [(2, 0), (2, 3), (3, 0)], [(160, 0), (32, 0)], [(33, 64), (33, 127)], [(232, 0), (104, 0), (232, 100)]]):
        lst = node_list(rng, prop)
        vers = []
        for c in dict.fromkeys(x for x in lst if x not in (0, 0xEF, 0xF1)):
            p = 0.4 if prop == "C18" else 0.8
            if rng.random() < p:
                vers.append([c, rng.choice([1, 2, 3, 4, 5, 5, 6, 11]) if c == 49 else rng.choice([rng.randrange(1, 9)] * 4 + [16, 128, 255])])
        nodes.append(dict(nd(root, ep, lst, vers), raw=rng.randrange(2)))
    lsn = []
    if prop in ("C14", "C17", "C21", "C05", "C20"):
        for i in range(rng.randrange(0, 6)):
            n = rng.randrange(1, len(nodes) + 1)
            sup = sorted(supported(nodes[n - 1]["list"]))
            c = rng.choice([0, 0] + sup + [x for x in sup if x in (134, 114, 94)]) if prop != "C21" else rng.choice([0, 49, 49])
            if c and c not in sup:
                continue
            lsn.append(ls(i + 1, n, c, rng.choice([0, 3, 1, 1, 2]), int(rng.random() < 0.25)))
    cfg = {"nodes": nodes, "lsn": lsn, "ctl": ctl}
    if rng.random() < 0.35:  # a listener of these nodes updates them once more when told about an update
        cfg["again"] = [rng.choice([0, 1, 2]) for _ in nodes]
    return cfg


def supported(lst):
    out = []
    for x in lst:
        if x == 0xEF:
            break
        if x not in (0xF1, 0):
            out.append(x)
    return set(out)


def history(rng, n, prop, cfg):
    weights = KINDS[prop]
    kinds = sorted(weights)
    wts = [weights[k] for k in kinds]
    wild = WILD.get(prop, 0.15)
    ctl = cfg["ctl"]

    def drive(world):
        ids = 0
        count = len(cfg["nodes"])
        sup = [world.nodes[i].supported for i in range(count)]
        depth = [0] * count
        last = {}

        def settle(how=None):
            root, ep, flat, _f = rng.choice(world.pending)
            return {"op": "settle", "root": root, "ep": ep, "m": flat, "how": how or rng.choices(["ok", "fail", "raise"], [10, 1, 1])[0]}

        for _ in range(n):
            k = rng.choices(kinds, wts)[0]
            c = rng.randrange(1, count + 1)
            if k == "settle":
                if world.pending:
                    yield settle()
            elif k == "answer":
                if not world.asked:
                    continue
                m, flat = rng.choice(world.asked[-3:])
                body = answer(rng, flat, ctl, wild)
                if rng.random() < wild / 4:
                    m = c
                if body and decodable(body) and wire.plain_float(body):
                    ids += 1
                    if rng.random() < 0.1 and prop not in ("C18",):
                        body = supervise(rng, body)
                    yield {"op": "msg", "id": ids, "n": m, "body": body}
            elif k in ("msg", "sup"):
                body = any_msg(rng, prop)
                if c in last and rng.random() < 0.2:  # once more, exactly the same
                    body = last[c]
                elif k == "sup":
                    body = supervise(rng, body)
                last[c] = body
                if decodable(body) and wire.plain_float(body) and len(world.pending) < 12:
                    ids += 1
                    yield {"op": "msg", "id": ids, "n": c, "body": body}
            elif k == "req":
                body, want = rng.choice(MORE if prop in ("C05", "C06", "C14", "C17") and rng.random() < (0.5 if prop == "C17" else 0.3) else REQS)
                ids += 1
                to = rng.choice([5, 10, 30, 30, 100])
                if rng.random() < 0.2:
                    yield {"op": "wait", "id": ids, "n": c, "want": want, "to": to}
                else:
                    yield {"op": "req", "id": ids, "n": c, "body": body, "want": want, "to": to}
            elif k in ("iv", "civ"):
                if world.live(c, ("iv", "civ")):
                    continue
                ids += 1
                if k == "iv":
                    yield {"op": "iv", "id": ids, "n": c}
                else:
                    pool = [x for x in CIV.get(prop, ALL) if x in sup[c - 1]]
                    if pool:
                        yield {"op": "civ", "id": ids, "n": c, "c": rng.choice(pool)}
            elif k in ("cget", "cset"):
                if 112 not in sup[c - 1]:
                    continue
                ids += 1
                par = rng.choice([1, 2, 2, 3, 255])
                if k == "cget":
                    dflt = int(rng.random() < 0.2)
                    yield {"op": "cget", "id": ids, "n": c, "par": par, "cached": 1 if dflt else rng.randrange(2), "dflt": dflt}
                else:
                    size = rng.choice([1, 2, 4])
                    val = [rng.choice([0, 255, rng.randrange(256)]) for _ in range(size)]
                    while val and val[0] == 0:
                        val = val[1:]
                    yield {"op": "cset", "id": ids, "n": c, "par": par, "size": size, "val": val}
            elif k == "cancel":
                live = [i for i in world.kinds if world.kinds[i][0] != "msg" and not world.tasks[i].done()]
                if live:
                    yield {"op": "cancel", "id": rng.choice(live)}
            elif k == "lock":
                if depth[c - 1] < 4:
                    depth[c - 1] += 1
                    yield {"op": "lock", "n": c}
            elif k == "unlock":
                if depth[c - 1]:
                    depth[c - 1] -= 1
                    yield {"op": "unlock", "n": c, "first": rng.randrange(2), "exc": rng.choice([0, 0, 0, 0, 1, 2, 3, 4])}
            elif k == "upd":
                yield {"op": "upd", "n": c, "which": rng.randrange(8)}
            elif k == "go":
                if world.waiting:
                    yield {"op": "go"}
            elif k == "adv":
                nt = world.loop.next_timer()
                d = int(round((nt - world.loop.time()) * 10)) if nt is not None else 5
                yield {"op": "adv", "dt": max(1, rng.choice([d, d, d - 1, 1]))}
            elif k == "look":
                yield {"op": "look", "n": c}
        for _ in range(400):
            if world.waiting:
                yield {"op": "go"}
            elif world.pending:
                yield settle("ok")
            elif world.loop.next_timer() is not None:
                yield {"op": "adv", "dt": 200}
            else:
                break
        for c in range(count):
            yield {"op": "look", "n": c + 1}
            for _ in range(depth[c]):
                yield {"op": "unlock", "n": c + 1}
    return drive


def lists(rng, n):
    """Class lists of every kind."""
    for _ in range(n):
        r = rng.random()
        if r < 0.3:
            b = [rng.choice([0xF1, 0, 0xEF, 0xF1, 0x20, 0x85, 0x25]) for _i in range(rng.randrange(0, 7))]
        elif r < 0.6:
            b = [rng.choice(ALL + [0xF1, 0xEF, 0]) for _i in range(rng.randrange(0, 15))]
        elif r < 0.8:
            b = rng.sample(ALL, rng.randrange(0, 6)) + rng.choice([[], [0xEF], [0xF1, 0], [0xF1], [0xEF, 0xF1, 0]]) + rng.sample(ALL, rng.randrange(0, 4)) + rng.choice([[], [0xEF], [0xF1], [0xF1, 0]])
        else:
            b = [rng.randrange(256) for _i in range(rng.randrange(0, 40))]
        yield {"op": "load", "list": b, "raw": rng.randrange(2)}


def short_lists():
    """All lists of up to four elements over the marks and three classes."""
    import itertools
    for n in range(5):
        for b in itertools.product([0xF1, 0, 0xEF, 0x20, 0x25], repeat=n):
            yield {"op": "load", "list": list(b), "raw": n % 2}


def drivers(prop, tier, rng, **_):
    q = tier == "quick"
    if prop == "C15":
        yield {"nodes": [], "lsn": [], "ctl": 1}, list(short_lists())
        for c in range(256):
            yield {"nodes": [], "lsn": [], "ctl": 1}, [{"op": "load", "list": [c], "raw": c % 2}, {"op": "load", "list": [0xF1, 0, c], "raw": 1}, {"op": "load", "list": [0xEF, c], "raw": 1},
                                                       {"op": "load", "list": [0x20, c, 0x85], "raw": 0}]
        for _i in range(8 if q else 100):
            yield {"nodes": [], "lsn": [], "ctl": 1}, list(lists(random.Random(rng.random()), 400))
        return
    n = {"C05": 40, "C06": 40, "C16": 100}.get(prop, 140) * (1 if q else 10)
    for _i in range(n):
        r = random.Random(rng.random())
        cfg = config(r, prop)
        yield cfg, history(r, 110, prop, cfg)
    if prop == "C19":
        # a controller with another node id
        for ctl in (7, 232):
            yield dict(CFG["assoc"], ctl=ctl), lifeline(ctl)
        for mode, count in (("assoc", 255), ("massoc", 130)):
            yield CFG[mode], groups(count)


def groups(count):
    """An interview of a node with many groups."""
    def drive(world):
        yield {"op": "civ", "id": 1, "n": 1, "c": 133}
        for i in range(3 * count):
            if world.pending:
                root, ep, flat, _f = world.pending[0]
                yield {"op": "settle", "root": root, "ep": ep, "m": flat, "how": "ok"}
            elif world.asked and world.live(1, ("civ",)):
                m, flat = world.asked[-1]
                g = flat[-1]
                body = {0x8505: [0x85, 6, count], 0x8502: [0x85, 3, g, 9, 0, 1, g], 0x8E02: [0x8E, 3, g, 9, 0, 1, 0, g, 2]}.get(flat[1])
                if body is None:
                    return
                yield {"op": "msg", "id": i + 2, "n": m, "body": body}
            else:
                break
        yield {"op": "look", "n": 1}
    return drive


def lifeline(ctl):
    flat = lambda hid, *f: wire.flat((hid, [list(x) for x in f]))
    return [{"op": "civ", "id": 1, "n": 1, "c": 133},
            {"op": "settle", "root": 2, "ep": 0, "m": flat(0x8505), "how": "ok"},
            {"op": "msg", "id": 2, "n": 1, "body": [0x85, 6, 1]},
            {"op": "settle", "root": 2, "ep": 0, "m": flat(0x8502, [1, 1]), "how": "ok"},
            {"op": "msg", "id": 3, "n": 1, "body": [0x85, 3, 1, 5, 0]}]


def known(prop, tr, x):
    """The lifeline is set to node 1 whatever the controller's node id is."""
    if prop == "C19" and tr["cfg"]["ctl"] != 1 and x["at"] == 5:
        got = [o for o in x["got"] if o["k"] == "send"]
        exp = [o for o in x["exp"] if o["k"] == "send"]
        if len(got) == len(exp) == 1 and dict(got[0], m=0) == dict(exp[0], m=0) and got[0]["m"][1] == 0x8501 and got[0]["m"][-3:] == [4, 1, -1]:
            return "lifeline-ctl"
    return None
