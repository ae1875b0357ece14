"""Drivers for spec/System.tla."""
import copy
import random

import wire
from w_system import SystemWorld

SPEC = "T_System"
WORLD = SystemWorld
ASSUMPTIONS = ["the gateway answers at once and every node's address can be resolved (other cases: Gateway module)",
               "an id of a removed node is not given to another node"]
LOOK = [{"op": "look"}]


def models(prop, tier, **_):
    cfg = ("INIT Init\nNEXT Next\nVIEW View\nINVARIANT MInv\nCONSTRAINT Limit\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"
           "CONSTANTS MaxId=%d MaxLevel=%d\n")
    q = tier == "quick"
    grp = [dict(id=1, max=3, mem=[9, -1])]
    vers = [[32, 1], [112, 1], [133, 2]]
    n2 = dict(id=2, ip=1, lst=[32, 112, 96], eps=[[32], [112]], vers=vers, reps=[], grp=[], typ=[])
    n3 = dict(id=3, ip=5, lst=[94, 133], eps=[], vers=vers + [[94, 2]], reps=[[94, 94, 2, 2, 5, 0, 7, 0, 1, 2]], grp=grp, typ=[])
    return [dict(module="M_System", cfg=cfg % ((3, 5) if q else (4, 7)), tcfg=dict(ctl=1, net=[n2, n3]), suffix=LOOK)]


CLASSES = [32, 37, 49, 89, 94, 112, 114, 133, 134, 128]
MSGS = [[32, 1, 255], [32, 3, 0], [32, 3, 99], [37, 3, 255], [112, 6, 3, 1, 7], [112, 6, 3, 2, 1, 44], [112, 6, 200, 1, 0], [112, 6, 3],
        [49, 5, 1, 0x22, 1, 2], [49, 5, 1, 0x0A, 0, 5], [49, 5, 4, 0x01, 9], [0xF7, 1, 9], [0x9B, 5, 1], [134, 18, 1, 2, 3, 4, 5]]


def classes(rng):
    out = rng.sample(CLASSES, rng.randrange(0, 7))
    if rng.random() < 0.2:
        out += [0xF1, 0x00] + rng.sample([152, 113], 1)
    if rng.random() < 0.3:
        out += [0xEF] + rng.sample([32, 37], 1)
    return out


def make_node(rng, n, ips):
    lst = classes(rng)
    eps = [classes(rng) for _ in range(rng.randrange(1, 4))] if rng.random() < 0.4 else []
    if rng.random() < 0.06:  # many end points
        eps = [rng.choice([[], [32], [112], [49]]) for _ in range(rng.choice([20, 65, 127]))]
    if eps:
        lst = [96] + lst
    b = lambda k: [rng.randrange(256) for _ in range(k)]
    types = sorted(rng.sample(range(1, 40), rng.randrange(0, 4)))
    members = lambda: [v for m in rng.sample([2, 3, 7, 9, 232], rng.randrange(3)) for v in (m, -1)]
    grp = [dict(id=g, max=rng.randrange(1, 9), mem=members() + ([1, -1] if rng.random() < 0.3 and g == 1 else [])) for g in range(1, rng.randrange(1, 5))]
    return dict(id=n, ip=ips.pop(), lst=lst, eps=eps, vers=[[c, rng.randrange(1, 9)] for c in CLASSES if rng.random() < 0.85],
                reps=[[134, 134, 18] + b(5), [94, 94, 2] + b(1) + b(2) + b(4), [114, 114, 5] + b(6)], grp=grp,
                typ=[[t, rng.randrange(1, 16)] for t in types])


def some_body(rng):
    # commands the node itself keeps something of, besides those of MSGS: see Node
    b = rng.choice(MSGS)
    if rng.random() < 0.25:
        b = wire.gen_bytes(rng, rng.choice([h for h in wire.HIDS if h >> 8 not in (0x23, 0x31, 0x34, 0x52, 0x58, 0x59, 0x6C, 0x70)]))
    return b if wire.plain_float(b) and wire.decodable(b) and len(b) < 200 else MSGS[0]


def some_ep(rng, x):
    return rng.choice([0, 0, 1, 2, 3, 64, 127] + 4 * list(range(1, len(x["eps"]) + 1))[-3:])


def supervised(rng, body):
    r = rng.random()
    if r < 0.7:
        return body
    if r < 0.95:
        return [108, 1, rng.randrange(64), len(body)] + body
    return [108, 1, rng.randrange(64), 0]


def history(rng, n, cfg, ids, ips):
    def drive(world):
        num = 1
        yield {"op": "start", "id": 1}
        net = [dict(x) for x in cfg["net"]]
        for _ in range(n):
            ents = sorted(x["id"] * 1000 + e for x in net for e in ([0] + (list(range(1, len(x["eps"]) + 1)) if 96 in x["lst"] else [])))
            live = [i for i, t in world.tasks.items() if not t.done() and i in world.sent]
            r = rng.random()
            if r < 0.03 and (ids or net):
                keep = [copy.deepcopy(x) for x in world.net if rng.random() < 0.7]
                if ids and rng.random() < 0.6:
                    keep.append(make_node(rng, ids.pop(), ips))
                rng.shuffle(keep)
                net = [dict(x) for x in keep]
                yield {"op": "change", "net": net}
            elif r < 0.06:
                yield {"op": "restart"}
                if rng.random() < 0.3:
                    yield {"op": "uns", "ip": rng.choice([x["ip"] for x in net] or [9]), "ask": 1, "seq": 3, "sep": 0, "dep": 0, "body": [32, 3, 1]}
                num += 1
                yield {"op": "start", "id": num}
                yield LOOK[0]
            elif r < 0.25 and ents:
                num += 1
                want = rng.choice([0, 0, 0x2003, 0x7006, 0x3105])
                yield {"op": "cmd", "id": num, "via": rng.randrange(2), "ent": rng.choice(ents), "body": rng.choice([[32, 2], [112, 5, 3], [37, 1, 255], [32, 1, num % 256]]),
                       "want": want, "to": rng.choice([10, 30, 30, 50, 100])}
            elif r < 0.42 and live:
                yield {"op": "ack", "id": rng.choice(live)}
            elif r < 0.46 and live:
                yield {"op": "queued", "id": rng.choice(live), "delay": rng.choice([0, 5, 600])}
            elif r < 0.70:
                x = rng.choice(net) if net else {"ip": 77, "eps": []}
                yield {"op": "uns", "ip": x["ip"] if rng.random() < 0.9 else rng.choice([0, 77]), "ask": rng.randrange(2), "seq": rng.randrange(256),
                       "sep": some_ep(rng, x), "dep": rng.choice([0, 0, 1, 127]), "body": supervised(rng, some_body(rng))}
            elif r < 0.80 and net:
                x = rng.choice(net)
                yield {"op": "con", "node": x["id"], "sep": some_ep(rng, x), "body": supervised(rng, some_body(rng))}
            elif r < 0.84 and ents:
                num += 1
                yield {"op": "iv", "id": num, "ent": rng.choice(ents), "lock": rng.randrange(2)}
            elif r < 0.87:
                yield {"op": "ctl", "body": rng.choice([[0x34, 2, 1, 6, 0, 5, 6, 0x80, 0x80, 4, 16, 1, 32], [0x34, 4, 1, 6, 5], [0x34, 4, 1, 7, 0], [32, 3, 1]])}
            elif r < 0.9:
                yield LOOK[0]
            else:
                nt = world.loop.next_timer()
                d = int(round((nt - world.loop.time()) * 10)) if nt is not None else 5
                yield {"op": "adv", "dt": max(1, min(3000, rng.choice([d, d, d - 1, 10, 29, 100, 600])))}
        yield LOOK[0]
        yield {"op": "restart"}
        yield {"op": "start", "id": num + 1}
        yield LOOK[0]
    return drive


def drivers(prop, tier, rng, **_):
    for _i in range(150 if tier == "quick" else 2000):
        r = random.Random(rng.random())
        ids, ips = list(range(2, 233)), list(range(1, 100))
        r.shuffle(ids)
        r.shuffle(ips)
        cfg = dict(ctl=1, net=[make_node(r, ids.pop(), ips) for _ in range(r.randrange(1, 4))])
        yield cfg, history(r, 70, cfg, ids, ips)
