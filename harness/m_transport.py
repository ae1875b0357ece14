"""Drivers for spec/Transport.tla."""
import random

from w_transport import TransportWorld

SPEC = "T_Transport"
WORLD = TransportWorld
ASSUMPTIONS = ["an object either connects or listens, never both", "what a send reports on a socket closed meanwhile is left open; nothing is sent"]


def models(prop, tier, **_):
    cfg = ("INIT Init\nNEXT Next\nVIEW View\nINVARIANT MInv\nCONSTRAINT Limit\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"
           "CONSTANTS Delay=%d MaxId=%d MaxLevel=%d\n")
    q = tier == "quick"
    sizes = [(0, 3 if q else 4, 5 if q else 7), (2, 3 if q else 4, 5 if q else 6)]
    return [dict(module="M_Transport", cfg=cfg % x, tcfg={"n": 2, "delay": x[0]}, suffix=[{"op": "adv", "dt": 5}]) for x in sizes]


def history(rng, n, cfg):
    modes = [rng.choice(["client", "client", "server"]) for _ in range(cfg["n"])]

    def drive(world):
        busy = {}
        now = [0]
        ids = 0

        def data(*more):
            return [rng.randrange(256) for _ in range(rng.choice([1, 1, 2, 7, 300, 1400, *more]))]
        for c in range(1, cfg["n"] + 1):
            if rng.random() < 0.7:
                yield {"op": "onmsg", "c": c, "recv": c, "kind": rng.choice(["plain", "plain", "echo", "raise", "next"])}
        for _ in range(n):
            ids += 1
            c = rng.randrange(1, cfg["n"] + 1)
            live = [x.sid + 1 for x in world.loop.net.socks if not x.closed]
            r = rng.random()
            if r < 0.12 and busy.get(c, -1) <= now[0]:
                busy[c] = now[0] + cfg["delay"]
                client = modes[c - 1] == "client"
                yield {"op": "start", "id": ids, "c": c, "addr": rng.choice([5, 6, 7, 0x1234]) if client else 0, "port": 4123 if client else rng.choice([4123, 4126, 1, 65535]),
                       "fail": int(rng.random() < 0.15)}
            elif r < 0.4:
                to = 0 if modes[c - 1] == "client" else rng.choice([1, 2, 3])
                yield {"op": "send", "id": ids, "c": c, "data": data(), "to": to}
            elif r < 0.75 and live:
                for i in range(rng.choice([1, 1, 2, 4]), 0, -1):
                    i2 = rng.choice(live)
                    x = world.loop.net.socks[i2 - 1]
                    yield {"op": "rx", "sock": i2, "data": data(0, 9000), "from": rng.choice([1, 2, 3]) if x.remote is None else int(x.remote[0][6:], 16), "burst": int(i > 1)}
            elif r < 0.8 and live:
                yield {"op": "error", "sock": rng.choice(live)}
            elif r < 0.84 and live:
                yield {"op": "lost", "sock": rng.choice(live)}
            elif r < 0.88:
                if any(x.sid + 1 in live for x in world.loop.net.socks) and world.cons[c - 1] and c in busy and busy[c] <= now[0] and world.started(c):
                    yield {"op": "stop", "c": c}
            elif r < 0.92:
                num = rng.choice([0, c, c + 10])
                yield {"op": "onmsg", "c": c, "recv": num, "kind": rng.choice(["plain", "plain", "echo", "raise", "next"])}
            else:
                dt = rng.choice([1, 1, 2, 5])
                now[0] += dt
                yield {"op": "adv", "dt": dt}
    return drive


def drivers(prop, tier, rng, **_):
    for _i in range(300 if tier == "quick" else 5000):
        cfg = {"n": rng.choice([1, 2, 4]), "delay": rng.choice([0, 0, 2])}
        yield cfg, history(random.Random(rng.random()), rng.choice([40, 150]), cfg)
