"""Drivers for spec/Storage.tla."""
import random

import m_node
from w_storage import StorageWorld

SPEC = "T_Storage"
WORLD = StorageWorld
TRACE_LIMIT = 400
ASSUMPTIONS = ["interruptions are the end of the process, failing system calls, a file system that takes no more, and a power failure that loses what was renamed without having been synchronised",
               "one process uses a folder at a time"]


def models(prop, tier, **_):
    cfg = ("INIT Init\nNEXT Next\nVIEW View\nINVARIANT MInv\nCONSTRAINT Limit\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"
           "CONSTANTS Crashes=%d MaxLevel=%d\n")
    q = tier == "quick"
    size = (0, 5 if q else 6) if prop == "C23" else (1, 4 if q else 5)
    return [dict(module="M_Storage", cfg=cfg % size, tcfg={"ctl": 1}, drain=looks)]


def looks(world):
    for n in range(len(world.nodes)):
        yield {"op": "look", "n": n + 1}


NASTY = ["", " ", "~", "null", "yes", "0", "1.5", " lead", "trail ", "a: b", "- x", "#c", "'q'", '"q"', "l1\nl2", "t\tt", "\r\n", "\x00\x1f\x7f", "\x85\u2028\ufeff", "{}", "[a]", "%x", "@", "`", "&a", "*a", "!!int 3",
         "on: off\n", "\U0001F600", "é" * 50, "word " * 12, "\\n", "...", "---", "?", "|", ">", "=", "<<", "1_000", "0x1F", "2020-01-01", "12:30:45"]


# ids that are much alike
LIKE = [(2, 11), (21, 1), (211, 0)]


def net(rng, old, focus):
    if old and rng.random() < 0.45:
        return old
    if old and rng.random() < 0.6:  # the network changed a little
        out = [dict(x) for x in old]
        k = rng.randrange(4)
        x = rng.choice(out)
        if k == 0 and len(out) > 1:
            out = [y for y in out if y["root"] != x["root"]] or out
        elif k == 1:
            x["list"] = relist(x["list"], [c for c in plain(x["list"]) if rng.random() < 0.7 or c == 96])
        elif k == 2:
            more = plain(x["list"]) + [c for c in rng.sample(m_node.ALL, 2) if c not in x["list"] and c != 96]
            x["list"] = relist(x["list"], more)
        else:
            c = [v for v in plain(x["list"]) if v != 96]
            rng.shuffle(c)
            x["list"] = ([96] if 96 in x["list"] else []) + c[:len(c) // 2] + [0xF1, 0] + c[len(c) // 2:]
        return out
    out = []
    for root, eps in rng.choice([[(5, 0)], [(5, 0), (6, 0)], [(5, 2), (6, 0)], [(2, 1), (232, 0), (5, 0)], LIKE if rng.random() < 0.5 else [(5, 1)]]):
        for ep in range(eps + 1):
            lst = [c for c in m_node.node_list(rng, focus) if c != 96]
            if eps and ep == 0:
                lst = [96] + lst
            out.append(dict(root=root, ep=ep, list=lst))
    return out


def plain(lst):
    out = []
    for c in lst:
        if c == 0xEF:
            break
        if c not in (0xF1, 0):
            out.append(c)
    return list(dict.fromkeys(out))


def relist(_old, classes):
    return list(classes)


def conf(rng):
    size = rng.choice([1, 2, 4, 1, 0, 3, 7])
    return [0x70, 6, rng.choice([1, 2, 3, 255]), size] + [rng.choice([0, 255, rng.randrange(256)]) for _ in range(size)]


def agi(rng):
    g = rng.choice([1, 1, 2, 3])
    if rng.random() < 0.6:
        t = list(rng.choice(NASTY).encode("utf-8"))
        return [0x59, 2, g, len(t)] + t
    c = rng.choice([0, 1, 2, 3, 9, 30])
    return [0x59, 6, g, 2 * c] + [rng.randrange(256) for _ in range(2 * c)]


FOCI = ["C18", "C19", "C20", "C21", "C22", "C22"]


def history(rng, segments, n, crash):
    def drive(world):
        cur = None
        focus = rng.choice(FOCI)
        for _ in range(segments):
            cur = net(rng, cur, focus)
            early = []
            if rng.random() < (0.4 if crash else 0.15):
                able = [i + 1 for i, x in enumerate(cur) if 112 in m_node.supported(x["list"])]
                for i in range(rng.choice([1, 1, 2]) if able else 0):
                    at = rng.choice(["info", "nodesAdded", "nodeAdded", "nodeAdded"])
                    early.append(dict(n=rng.choice(able), body=conf(rng), at=at, i=0 if at == "nodesAdded" else rng.randrange(1, 4), live=0))
            yield {"op": "boot", "net": cur, "early": early}
            if any(x is None for x in world.nodes):
                return  # not loaded: judged already
            yield from looks(world)
            focus = rng.choice(FOCI)
            cfg = dict(nodes=cur, ctl=world.cfg["ctl"])
            for lab in m_node.history(random.Random(rng.random()), rng.choice([5, n, n]), focus, cfg)(world):
                yield lab
            ids = 1000
            for _i in range(rng.choice([0, 3, 10])):
                k = rng.randrange(1, len(cur) + 1)
                ids += 1
                sup = m_node.supported(cur[k - 1]["list"])
                body = agi(rng) if 89 in sup and rng.random() < 0.7 else conf(rng)
                if not m_node.decodable(body):
                    continue
                yield {"op": "msg", "id": ids, "n": k, "body": body}
            yield from looks(world)
            if rng.random() < 0.2:
                yield {"op": "path", "d": rng.choice([1, 2])}
            if crash and rng.random() < 0.8:
                ops = []
                k = rng.randrange(1, len(cur) + 1)
                for i in range(rng.choice([1, 1, 2, 3])):
                    if rng.random() < 0.3:
                        k = rng.randrange(1, len(cur) + 1)
                    ids += 1
                    sup = m_node.supported(cur[k - 1]["list"])
                    if 112 in sup:
                        ops.append({"op": "msg", "id": ids, "n": k, "body": conf(rng)})
                    elif sup:
                        ops.append({"op": "upd", "n": k})
                if ops:
                    yield {"op": "crash", "ops": ops, "net": cur, "pts": 24, "seed": rng.randrange(10 ** 6), "final": rng.choice(["kill", "err", "none"])}
        yield {"op": "boot", "net": cur, "early": []}
        yield from looks(world)
    return drive


def drivers(prop, tier, rng, **_):
    q = tier == "quick"
    n = (90 if q else 1200) if prop == "C23" else (24 if q else 300)
    for _i in range(n):
        r = random.Random(rng.random())
        yield {"ctl": 1}, history(r, 3 if prop == "C24" else 4, 60, prop == "C24")
