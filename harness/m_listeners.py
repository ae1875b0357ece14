"""Drivers for spec/Listeners.tla."""
import random

from w_listeners import ListenersWorld

SPEC = "T_Listeners"
WORLD = ListenersWorld
ASSUMPTIONS = ["a listener is registered once per object", "whether a listener registered during an announcement hears that one is left open",
               "listeners answer; they do not return exception objects"]
OBJS = ["plain", "plain"], ["adapter", "plain"], ["plain", "adapter"]


def models(prop, tier, **_):
    cfg = ("INIT Init\nNEXT Next\nVIEW View\nINVARIANT MInv\nCONSTRAINT Limit\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"
           "CONSTANTS Kinds=%s MaxReg=%d MaxSay=%d MaxLevel=%d\n")
    q = tier == "quick"
    sizes = [('{"none","val","raise","coro","adds","says"}', 2, 1, 5), ('{"coro"}', 2, 2, 7), ('{"coro","raise"}', 3, 1, 6)]
    if not q:
        sizes = [('{"none","val","raise","coro","adds","says"}', 3, 1, 6), ('{"coro","raise"}', 3, 2, 8), ('{"val","coro"}', 4, 1, 8)]
    return [dict(module="M_Listeners", cfg=cfg % x, tcfg={"objs": list(OBJS[0])}, drain=drain) for x in sizes]


def drain(world):
    for (mid, l), gate in list(world.gates.items()):
        if not gate.done():
            yield {"op": "end", "id": mid, "l": l, "how": "val", "v": l % 12}


def history(rng, n):
    def drive(world):
        num = [0, 0]
        yield {"op": "say", "o": 1, "m": "a", "how": "ask", "id": 99, "v": 0}
        while num[1] < n:
            r = rng.random()
            num[1] += 1
            waiting = [k for k, g in world.gates.items() if not g.done()]
            if num[0] < 12 and r < (0.7 if num[0] < 4 else 0.1):
                num[0] += 1
                yield {"op": "add", "o": rng.choice([1, 1, 2]), "l": num[0], "a": rng.choice(["none", "val", "raise", "coro", "coro", "adds", "says"]),
                       "b": rng.choice(["none", "val", "raise", "coro"]), "x": rng.randrange(12)}
            elif r < 0.5 or not waiting:
                o, m = rng.choice([1, 1, 2]), rng.choice("aab")
                yield {"op": "say", "o": o, "m": m, "how": rng.choice(["speak", "ask", "ask", "wait"]), "id": num[1] + 100, "v": rng.randrange(50)}
            else:
                for i in range(rng.choice([1, 1, 1, 2, 3]), 0, -1):
                    mid, l = rng.choice(waiting)
                    yield {"op": "end", "id": mid, "l": l, "how": rng.choice(["val", "val", "raise", "cancel"]), "v": rng.randrange(12), "burst": int(i > 1)}
                    waiting.remove((mid, l))
                    if not waiting:
                        break
                yield {"op": "end", "id": 0, "l": 0, "how": "val", "v": 0}
        yield from drain(world)
    return drive


def drivers(prop, tier, rng, **_):
    for i in range(200 if tier == "quick" else 4000):
        yield {"objs": list(OBJS[i % 3])}, history(random.Random(rng.random()), rng.choice([20, 60]))
