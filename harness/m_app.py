"""Drivers for spec/App.tla."""
import random

import wire
from w_app import AppWorld

SPEC = "T_App"
WORLD = AppWorld
ASSUMPTIONS = ["the adapter answers every call (as the gateway does, with empty reports where there was no reply)",
               "no message is sent to a node that is just being removed"]


def models(prop, tier, **_):
    cfg = ("INIT Init\nNEXT Next\nVIEW View\nINVARIANT MInv\nCONSTRAINT Limit\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"
           "CONSTANTS Slow=%d MaxJobs=%d MaxLevel=%d Ent=%d\n")
    q = tier == "quick"
    if prop == "C13":
        return [dict(module="M_App", cfg=cfg % (0, 2, 9 if q else 12, 0), tcfg={"slow": 0, "ctl": 1}, suffix=[{"op": "look"}])]
    if prop == "C35":
        return [dict(module="M_App", cfg=cfg % (0, 2, 11 if q else 14, 1), tcfg={"slow": 0, "ctl": 1}, suffix=[{"op": "look"}])]
    return [dict(module="M_App", cfg=cfg % (s, 3, (10 if q else 13) + s, 0), tcfg={"slow": s, "ctl": 1}, suffix=[{"op": "look"}]) for s in (0, 1)]


CLASSES = [0x20, 0x25, 0x26, 0x5E, 0x60, 0x72, 0x85, 0x86, 0x8E, 0x70, 0x31, 0x9B, 0x02]
MSGS = [[0x20, 0x01, 0xFF], [0x20, 0x03, 0x63], [0x25, 0x03, 0xFF], [0x26, 0x01, 0x10, 0x00], [0x9B, 0x05, 1, 2], [0xF7, 0x01, 9]]


def classes(rng):
    out = rng.sample(CLASSES, rng.randrange(0, 6))
    if rng.random() < 0.3 and 0x60 not in out:
        out.append(0x60)
    if rng.random() < 0.3:
        out += [0xEF] + rng.sample(CLASSES, 2)
    return out


def info(rng):
    b = [0x52, 0x04, 0, rng.randrange(256), rng.choice([0x80, 0x00, 0xFF]), rng.choice([0x80, 0]), 0, rng.randrange(256), rng.randrange(256), rng.randrange(256)]
    r = rng.random()
    if r < 0.06:
        return b[:2]  # no reply
    if r < 0.12:
        return b[:rng.randrange(2, len(b) + 1)]
    return b + classes(rng)


def control(rng):
    r = rng.random()
    if r < 0.35:
        ln = rng.choice([0, 1, 5, 6, 6, 8])
        body = [0x34, 0x02, rng.randrange(256), rng.choice([6, 7, 9, 1, rng.choice([0, 0x55])]), 0, rng.choice([0, 5, 232])]
        return body + [6 + len(CLASSES[:3]), 0x80, 0x80, 4, 16, 1] + CLASSES[:3] if rng.random() < 0.7 else body[:2 + rng.randrange(5)] if ln else body
    if r < 0.75:
        body = [0x34, 0x04, rng.randrange(256), rng.choice([6, 6, 6, 7, 1, 0x55]), rng.choice([0, 0, 5, 232])]
        return body if rng.random() < 0.85 else body[:rng.randrange(2, 5)]
    if r < 0.9:
        return rng.choice(MSGS)
    return wire.gen_bytes(rng, rng.choice([h for h in wire.HIDS if h not in (0x2302,)]))


def history(rng, n, weights, slow, ctl):
    kinds = sorted(weights)
    wts = [weights[k] for k in kinds]
    pool = rng.choice([[1, 2, 3, 7, 40, 232], [1, 2, 33, 64, 65, 232], [1, 128, 129, 160, 231, 232], sorted({1, 232} | set(rng.sample(range(2, 232), 4)))])

    def drive(world):
        ids = 0
        started, calm = False, True
        cur = set(rng.sample(pool, 3)) | {ctl}
        for _ in range(n):
            k = rng.choices(kinds, wts)[0]
            if k == "begin":
                if rng.random() < 0.7:
                    cur = set(rng.sample(pool, rng.randrange(1, 6))) | ({ctl} if rng.random() < 0.95 else set())
                    if rng.random() < 0.08:  # everything is gone
                        cur = {ctl} if rng.random() < 0.3 else set()
                ids += 1
                calm = True
                kind = "upd"
                if not started and rng.random() < 0.5:
                    started, kind = True, "start"
                yield {"op": "begin", "kind": kind, "id": ids}
            elif k == "reply":
                if not world.pending:
                    if world.waiting:
                        yield {"op": "go"}
                    continue
                what = world.pending[0][0]
                if what == "list":
                    yield {"op": "reply", "what": what, "v": sorted(cur), "set": rng.randrange(2)}
                elif what == "info":
                    yield {"op": "reply", "what": what, "v": info(rng)}
                elif what == "eps":
                    yield {"op": "reply", "what": what, "v": [rng.choice([0, 1, 1, 2, 3, 3, 9, 127])]}
                elif what == "cap":
                    b = [0x52, 0x08, 0, 0, 0, rng.randrange(1, 4), rng.randrange(256), rng.randrange(256)]
                    yield {"op": "reply", "what": what, "v": b[:2] if rng.random() < 0.1 else b + classes(rng)}
                elif what == "failed":
                    yield {"op": "reply", "what": what, "v": rng.choice([[], [2]])}
                else:
                    return
            elif k == "msg":
                body = rng.choice(MSGS) if rng.random() < 0.7 else wire.gen_bytes(rng, rng.choice([h for h in wire.HIDS if h >> 8 not in (0x31, 0x59, 0x6C, 0x70)]))  # those: see Node
                if not (wire.plain_float(body) and wire.decodable(body)):
                    continue
                yield {"op": "msg", "node": rng.choice(pool + [ctl, 99]), "ep": rng.choice([0, 0, 0, 1, 2, 3, 9, 63, 64, 127, rng.choice([128, 129, 255])]), "body": body}
            elif k == "ctl":
                body = control(rng)
                # an exclusion report ending before the node id says nothing about whose exclusion it was
                if body[:2] == [0x34, 0x04] and len(body) == 4:
                    body = body + [7]
                wrap = int(rng.random() < 0.9)
                if not wrap and rng.random() < 0.5:  # not a Z/IP packet, yet with a command inside
                    body = [0x6C, 0x01, 5, len(body)] + body
                if wire.plain_float(body) and wire.decodable(body):
                    yield {"op": "ctl", "wrap": wrap, "body": body}
            elif k == "cancel":
                live = [i for i in world.tasks if world.tasks[i] and not world.tasks[i].done()]
                if live and started and not slow:
                    started = calm = False  # to be tried again
                    yield {"op": "cancel", "id": rng.choice(live)}
            elif k == "known":
                roots = [x for x in world.app.nodes.values() if x.endpoint == 0]
                if roots and calm and not world.pending and not world.waiting:
                    what = rng.choice(["basic", "gen", "spec", "lis", "fl", "fd", "fl", "fd"])
                    yield {"op": "known", "n": rng.choice(roots).rootNodeId, "what": what, "v": rng.randrange(2) if what in ("lis", "fl", "fd") else rng.choice([0, 1, 4, 255])}
            elif k == "remove":
                if world.app.nodes and calm and not world.pending and not world.waiting:
                    x = rng.choice(list(world.app.nodes.values()))
                    ids += 1
                    yield {"op": "remove", "n": x.rootNodeId, "ep": x.endpoint, "id": ids}
            elif k == "removed":
                if world.removals:
                    body = [0x34, 0x08, rng.randrange(256), rng.choice([0, 1, 1, 1, 2, 3, 129, 255]), rng.choice(pool)]
                    yield {"op": "removed", "v": [] if rng.random() < 0.15 else body[:rng.randrange(2, 6)] if rng.random() < 0.2 else body}
            elif k == "look":
                yield {"op": "look"}
        for _ in range(60):
            if world.pending:
                what = world.pending[0][0]
                yield {"op": "reply", "what": what, "v": {"list": sorted(cur), "info": [0x52, 4, 0, 15, 0, 0, 0, 1, 2, 3, 0x20], "eps": [1],
                                                          "cap": [0x52, 8, 0, 0, 0, 1, 2, 3, 0x20]}.get(what, [])}
            elif world.waiting:
                yield {"op": "go"}
            elif world.removals:
                yield {"op": "removed", "v": [0x34, 0x08, 1, rng.randrange(3), 9]}
            else:
                break
        yield {"op": "look"}
    return drive


def big(rng, size):
    """A network as large as they get, then changed here and there."""
    def drive(world):
        ids = 0
        cur = set(rng.sample(range(1, 233), size)) | {1}
        for _ in range(3):
            ids += 1
            yield {"op": "begin", "kind": "start" if ids == 1 and rng.random() < 0.5 else "upd", "id": ids}
            for _i in range(2000):
                if world.pending:
                    what = world.pending[0][0]
                    yield {"op": "reply", "what": what, "v": {"list": sorted(cur), "info": [0x52, 4, 0, 15, 0, 0, 0, 1, 2, 3] + rng.choice([[0x20], [0x25, 0x86], [], [0x60]]), "eps": [rng.choice([0, 1])],
                                                              "cap": [0x52, 8, 0, 0, 0, 1, 2, 3, 0x20]}.get(what, [])}
                elif world.waiting:
                    yield {"op": "go"}
                else:
                    break
            yield {"op": "look"}
            for node in rng.sample(range(1, 233), 3):
                yield {"op": "msg", "node": node, "ep": 0, "body": [0x20, 0x01, 0xFF]}
            cur = (cur - set(rng.sample(sorted(cur), 5))) | set(rng.sample(range(2, 233), 5)) | {1}
    return drive


def drivers(prop, tier, rng, **_):
    for size in ((20, 60, 231) if tier == "quick" else (20, 60, 100, 150, 231)) if prop == "C12" else ():
        yield {"slow": 0, "ctl": 1}, big(random.Random(rng.random()), size)
    n = 120 if tier == "quick" else 1500
    for i in range(n):
        slow = int(i % 3 == 0)
        ctl = rng.choice([1, 1, 232])
        w = {"begin": 2, "reply": 12, "msg": 2, "ctl": 0.5, "look": 1, "known": 0.5, "cancel": 0.4} if prop == "C12" else {"begin": 1.5, "reply": 12, "known": 5, "remove": 2.5, "removed": 2.5, "look": 4} if prop == "C35" else {"begin": 1, "reply": 10, "msg": 10, "ctl": 8, "look": 0.3}
        yield {"slow": slow, "ctl": ctl}, history(random.Random(rng.random()), 120, w, slow, ctl)
