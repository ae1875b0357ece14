"""Drivers for spec/Mailbox.tla."""
import random

from w_mailbox import MailboxWorld

SPEC = "T_Mailbox"
WORLD = MailboxWorld
ASSUMPTIONS = ["wake-ups and pushes name their mailbox (commands cut off before that are not sent)",
               "every transmission is answered in the end, with delivery, no delivery or an exception"]


def models(prop, tier, **_):
    cfg = ("INIT Init\nNEXT Next\nVIEW View\nINVARIANT MInv\nCONSTRAINT Limit\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"
           "CONSTANTS Boxes=%s Time=%d MaxMsg=%d MaxLevel=%d\n")
    q = tier == "quick"
    sizes = {"C25": [("{1}", 0, 4, 7 if q else 9), ("{1,2}", 0, 3 if q else 4, 6 if q else 7)],
             "C26": [("{1}", 0, 4, 6 if q else 9), ("{1,2}", 0, 3 if q else 4, 5 if q else 7)],
             "C27": [("{1}", 1, 3, 7 if q else 9), ("{1,2}", 1, 2 if q else 3, 6 if q else 8)]}[prop]
    return [dict(module="M_Mailbox", cfg=cfg % x, tcfg={"x": 0}, drain=drain) for x in sizes]


def drain(world, boxes=(1, 2), node=5):
    """Deliver what is under way and then hand out everything there is."""
    for _ in range(200):
        if not world.open():
            break
        x = world.pending[0]
        yield {"op": "settle", "n": x[0], "m": x[1], "how": "ok"}
    for h in boxes:
        for _ in range(50):
            yield {"op": "msg", "n": node, "body": [105, 5, h]}
            if not world.open():
                return  # a request without a reply: judged already
            empty = all(x[1][-1] == 2 and len(x[1]) == 13 for x in world.open())
            while world.open():
                x = world.pending[-1]
                yield {"op": "settle", "n": x[0], "m": x[1], "how": "ok"}
            if empty:
                break


# pairs of entries with one checksum
TWINS = [([1, 2], [0, 208, 145]), ([], [226, 240]), ([1, 2], [7, 160, 118]), ([29, 15], [5, 156, 57])]
OTHER = [[105, 4, 0x10 | op] for op in (1, 2, 3, 5, 6)] + [[105, 4, 1], [105, 4, 2], [105, 4, 3], [105, 4, 5], [105, 4, 6]]


def data(rng, pool):
    r = rng.random()
    if r < 0.5 and pool:
        return rng.choice(pool)
    if r < 0.65 and pool:  # much like an entry used before
        d = list(rng.choice(pool))
        for _ in range(rng.choice([1, 1, 2])):
            what = rng.randrange(4)
            if what == 0:
                d.append(rng.randrange(256))
            elif what == 1 and d:
                d[rng.choice([0, -1, rng.randrange(len(d))])] ^= 1 << rng.randrange(8)
            elif what == 2:
                d = d[:-1]
            elif what == 3:
                d = d[::-1]
        pool.append(d)
        return d
    d = rng.choice(rng.choice(TWINS)) if r < 0.85 else [rng.randrange(256) for _ in range(rng.choice([1, 2, 5, 40, 200]))]
    pool.append(d)
    return d


def history(rng, n, w):
    kinds, wts = sorted(w), [w[k] for k in sorted(w)]
    nodes = rng.choice([[5], [5, 6], [5, 6], [1, 2], [33, 161], [128, 232]])
    boxes = rng.choice([[1], [1, 2], [3, 200, 255], [0, 1], [0], [127, 128]])
    good = rng.choice([0.95, 0.8, 0.5])
    pool = [rng.choice(t) for t in TWINS]

    def how():
        return "ok" if rng.random() < good else rng.choice(["fail", "raise", "error"])

    def settle(world, first):
        x = world.pending[0] if first else rng.choice(world.pending)
        return {"op": "settle", "n": x[0], "m": x[1], "how": how()}

    def drive(world):
        ids = 0
        for _ in range(n):
            k = rng.choices(kinds, wts)[0]
            node, h = rng.choice(nodes), rng.choice(boxes)
            if k == "push":
                for i in range(rng.choice([1, 1, 1, 2, 3]), 0, -1):
                    yield {"op": "msg", "n": node, "body": [105, 4, rng.choice([0, 8]), h] + data(rng, pool), "burst": int(i > 1)}
            elif k == "wake":
                yield {"op": "msg", "n": node, "body": [105, 5, h]}
            elif k == "ack":
                yield {"op": "msg", "n": node, "body": rng.choice([[105, 4, 4, h], [105, 4, 4, h], [105, 4, 12, h, 1], [105, 4, 4, 0]] + [[105, 4, 4]] * (0 not in boxes))}
            elif k == "other":
                yield {"op": "msg", "n": node, "body": rng.choice([rng.choice(OTHER) + [h] + data(rng, pool), [105, 7, h], [105, 1], [37, 3, 255]])}
            elif k == "settle":
                if world.open():
                    yield settle(world, rng.random() < 0.8)
            elif k == "adv":
                yield {"op": "adv", "dt": rng.choice([1, 100, 599, 600, 600, 601, 1800])}
            elif k == "init":
                ids += 1
                yield {"op": "init", "id": ids, "ip": [rng.randrange(256) for _ in range(16)], "port": rng.choice([4123, 1, 65535])}
        yield from drain(world, boxes, nodes[0])
        yield {"op": "adv", "dt": 2000}
    return drive


def beats(rng, n):
    """Long stretches of heartbeats."""
    boxes = rng.choice([[1, 2], [1, 2], [0, 1], [200, 255]])

    def drive(world):
        for i in range(n):
            r = rng.random()
            if r < 0.15:
                yield {"op": "msg", "n": 5, "body": [105, 4, 0, rng.choice(boxes), rng.randrange(6)]}
            elif r < 0.2:
                yield {"op": "msg", "n": 5, "body": [105, 5, rng.choice(boxes)]}
            elif r < 0.6 or not world.open():
                yield {"op": "adv", "dt": rng.choice([599, 600, 600, 600, 300, 1, 50])}
            while world.open() and rng.random() < 0.8:
                x = rng.choice(world.open())
                yield {"op": "settle", "n": x[0], "m": x[1], "how": rng.choice(["ok", "ok", "ok", "fail", "raise", "error"])}
    return drive


def hours(rng, n):
    """An entry nobody fetches for hours."""
    h = rng.choice([0, 1, 255])

    def drive(world):
        yield {"op": "msg", "n": 5, "body": [105, 4, 0, h, 1, 2, 3]}
        for _ in range(n):
            while world.open():
                x = world.open()[0]
                yield {"op": "settle", "n": x[0], "m": x[1], "how": "ok" if x[1][1] != 26884 or rng.random() < 0.9 else rng.choice(["fail", "raise", "error"])}
            yield {"op": "adv", "dt": 600}
        yield from drain(world, (h,), 5)
        yield {"op": "adv", "dt": 2000}
    return drive


def crowd(rng, n):
    """A mailbox with very many entries, of one node or several."""
    boxes = rng.choice([(1,), (1, 2)])

    def drive(world):
        for i in range(n):
            yield {"op": "msg", "n": rng.choice([5, 6]), "body": [105, 4, 0, rng.choice(boxes), i // 256, i % 256]}
            while world.open() and rng.random() < 0.95:
                x = world.open()[0]
                yield {"op": "settle", "n": x[0], "m": x[1], "how": "ok"}
        yield {"op": "adv", "dt": 599}
        for h in boxes:
            yield {"op": "msg", "n": 5, "body": [105, 5, h]}
            for _ in range(n + 2):
                if not world.open():
                    return
                x = world.open()[0]
                yield {"op": "settle", "n": x[0], "m": x[1], "how": "ok" if rng.random() < 0.97 else "fail"}
                yield {"op": "msg", "n": 5, "body": [105, 4, 4, h]}
    return drive


def drivers(prop, tier, rng, **_):
    n = 150 if tier == "quick" else 2500
    w = {"C25": dict(push=3, wake=3, ack=3, other=0.4, settle=9, adv=0.5, init=0.2),
         "C26": dict(push=6, wake=1.5, ack=1, other=0.3, settle=7, adv=0.4, init=0.2),
         "C27": dict(push=3, wake=1, ack=0.6, other=0.2, settle=8, adv=5, init=0.1)}[prop]
    q = tier == "quick"
    if prop == "C27":
        for beats_ in (75, 250) if q else (75, 150, 300, 700, 1500):
            yield {"x": 0}, hours(random.Random(rng.random()), beats_)
    for size in (40, 90) if q else (40, 150, 300):
        yield {"x": 0}, crowd(random.Random(rng.random()), size)
    for i in range(n):
        r = random.Random(rng.random())
        if prop == "C27" and i % 2:
            yield {"x": 0}, beats(r, 120)
        else:
            yield {"x": 0}, history(r, 60, w)
