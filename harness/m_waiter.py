"""Drivers for spec/Waiter.tla."""
import random

from w_waiter import WaiterWorld

SPEC = "T_Waiter"
WORLD = WaiterWorld
ASSUMPTIONS = ["a single-threaded asyncio loop with exact timers"]


def models(prop, tier, **_):
    out = []
    q = tier == "quick"
    for mode in ("node", "adapter"):
        cfg = ("INIT Init\nNEXT Next\nVIEW View\nINVARIANT Inv\nCONSTRAINT Limit\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"
               'CONSTANTS Mode="%s" MaxId=%d MaxLevel=%d\n' % (mode, 3 if (prop == "C06" or not q) else 2, (4 if prop == "C06" else 5) + (0 if q else 1)))
        out.append(dict(module="M_Waiter", cfg=cfg, tcfg={"mode": mode}))
    return out


def rand(rng, n, live_max):
    def drive(world):
        tid = 0
        pend = {}
        for k in range(n):
            live = [i for i, t in world.tasks.items() if isinstance(i, int) and not t.done()]
            unsettled = [i for i in live if i in world.sends and not world.sends[i].done()]
            r = rng.random()
            if r < 0.22 and len(live) < live_max:
                tid += 1
                yield {"op": rng.choice(["req", "req", "req", "wait"]), "id": tid, "typ": rng.choice([1, 1, 1, 2, 3]), "to": rng.choice([5, 10, 30, 30, 100])}
            elif r < 0.42 and unsettled:
                how = rng.choice(["ok", "ok", "ok", "ok", "fail", "raise"])
                yield {"op": "settle", "id": rng.choice(unsettled), "how": how, "burst": int(how == "ok" and rng.random() < 0.3)}
            elif r < 0.72:
                ev = {"typ": rng.choice([1, 1, 1, 2, 3]), "val": rng.choice([0, 99, 255, rng.randrange(256)]), "n": k, "wrap": rng.randrange(2)}
                if ev["typ"] == 2:
                    ev["val"] = rng.choice([0, 255])
                nt = world.loop.next_timer()
                if nt is not None and rng.random() < 0.35:
                    yield dict(ev, op="race", dt=int(round((nt - world.loop.time()) * 10)))
                else:
                    yield dict(ev, op="msg", burst=int(rng.random() < 0.3))
            elif r < 0.8 and live:
                yield {"op": "cancel", "id": rng.choice(live)}
            else:
                nt = world.loop.next_timer()
                d = int(round((nt - world.loop.time()) * 10)) if nt is not None else 5
                yield {"op": "adv", "dt": max(1, rng.choice([d, d - 1, d + 1, 1, 3]))}
        yield {"op": "adv", "dt": 200}
        for i in list(world.sends):
            if not world.sends[i].done():
                yield {"op": "settle", "id": i, "how": rng.choice(["ok", "fail"])}
        yield {"op": "adv", "dt": 200}
    return drive


def drivers(prop, tier, rng, **_):
    n = 60 if tier == "quick" else 600
    for mode in ("node", "adapter"):
        for _i in range(n):
            yield {"mode": mode}, rand(random.Random(rng.random()), 80, 2 if prop == "C05" else 6)
