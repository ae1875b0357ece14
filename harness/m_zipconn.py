"""Drivers for spec/ZipConn.tla."""
import wire
from w_zipconn import ZipConnWorld

SPEC = "T_ZipConn"
WORLD = ZipConnWorld
ASSUMPTIONS = ["a single-threaded asyncio loop with exact timers; datagrams are delivered whole"]

CFG = {"cap": 256}
BODIES = [[0x20, 0x02], [0x20, 0x01, 0xFF], [0x25, 0x02], [0x86, 0x11], [0x70, 0x05, 0x11], [0x86, 0x13, 0x25], [0x85, 0x01, 0x01, 0x01],
          [0x70, 0x04, 0x03, 0x02, 0x01, 0x02], [0x69, 0x04, 0x02, 0x05] + list(range(100, 200)), [0x6C, 0x01, 0x85, 0x03, 0x20, 0x01, 0xFF],
          [0x8E, 0x01, 0x02, 0x07, 0x00, 0x01, 0x00], [0x69, 0x05, 0x09]]
CON = [{"op": "connect"}]
# acknowledgements: flags, end points, then header extension and command
HEADS = [[0x40, 0x00, 0, 0], [0x40, 0x20, 0, 0], [0x40, 0x30, 1, 2], [0x40, 0x50, 0, 0, 0x20, 0x03, 0xFF], [0x40, 0x40, 3, 0, 0x20, 0x02], [0x40, 0x70, 0, 127, 0x71, 0x05],
         [0x40, 0x90, 0, 0, 6, 0x01, 3, 0, 0, 9], [0x40, 0x80, 5, 5, 3, 0x07, 0], [0x40, 0xD0, 0, 0, 1, 0x20, 0x03, 0x00], [0x40, 0x10, 127, 127]]


def models(prop, tier, **_):
    t = {"C01": 6, "C02": 5, "C03": 5, "C04": 5, "C07": 4}[prop] + (1 if tier == "thorough" else 0)
    cfg = ("INIT Init\nNEXT Next\nVIEW View\nINVARIANT Inv\nCONSTRAINT Limit\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n"
           "CONSTANTS Cap=%d MaxId=%d MaxLevel=%d Graph=%s Life=%s\n")
    out = [dict(module="M_ZipConn", cfg=cfg % (256, 3 if tier == "thorough" else 2, t, "TRUE", "TRUE" if prop == "C04" else "FALSE"), tcfg=CFG, prefix=CON)]
    # design only: few numbers, so that exhaustion and reuse are reached
    out.append(dict(module="M_ZipConn", cfg=cfg % (2, 4, 7 if tier == "quick" else 8, "FALSE", "TRUE"), graph=False))
    return out


def pkt(rng, world, kinds):
    """A random inbound packet aimed at outstanding, finished or unused numbers."""
    pk = rng.choice(kinds)
    known = list(world.seq_of)
    live = [i for i in known if i in world.tasks and not world.tasks[i].done()]
    r = rng.random()
    if live and r < 0.65:
        tid = rng.choice(live)
    elif known and r < 0.85:
        tid = rng.choice(known)
    else:
        tid = 0
    ev = {"pk": pk, "id": tid, "seq": rng.randrange(256), "delay": 0, "sep": 0, "body": []}
    if pk == "ack" and rng.random() < 0.4:
        ev["hd"] = rng.choice(HEADS)
    elif pk == "wait":
        ev["delay"] = rng.choice([0, 1, 2, 5, 10, 60, 127, 128, 255, 256, 3600, 65535, 65536, 0x7FFFFF, -1, -2, -60, -128, -129, -32768, -0x800000])
        ev["crit"] = rng.randrange(2)
        if rng.random() < 0.15:
            ev["hdr"], ev["delay"] = 0, 0
        elif rng.random() < 0.4:
            ev["pre"], ev["post"] = options(rng), options(rng)
    elif pk == "nack":
        ev["fl"] = rng.choice([0x20, 0x28, 0x24, 0x2C, 0x00])
    elif pk == "cmd":
        ev["id"] = -1
        ev["sep"] = rng.randrange(128)
        ev["body"] = rng.choice(BODIES)
    elif pk == "junk":
        ev["id"] = -1
        ev["body"] = junk(rng)
    return ev


def options(rng):
    """Other header options: not (yet) known ones that may be ignored, and known ones."""
    out = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        out += rng.choice([[7, 0], [0x7F, 2, 1, 2], [9, 1, 255], [2, 0], [4, 2, 2, 1], [5, 0], [6, 5, 1, 3, 0, 0, 9]])
    return out


def junk(rng):
    r = rng.random()
    if r < 0.2:
        return [0x23, 0x03, rng.choice([0x40, 0x00, 0x80, 0xC0])]
    if r < 0.3:
        return []
    if r < 0.5:
        return [rng.randrange(256) for _ in range(rng.randrange(1, 12))]
    if r < 0.7:  # a Z/IP packet without ack flags and without a command
        return [0x23, 0x02, 0x00, 0x10, rng.randrange(256), 0, 0]
    if r < 0.85:  # truncated
        return [0x23, 0x02, 0x40, 0x90, rng.randrange(256), 0, 0, 6, 1, 3, 0][: rng.randrange(1, 7)]
    return [0x23]


def rand(rng, n, kinds, tos=(1, 10, 30, 50), send=0.3, live_max=12, dts=(1, 5, 9, 10, 11, 29, 30, 31, 249, 250, 251, 600, 601)):
    def drive(world):
        yield {"op": "connect"}
        tid = 0
        for _ in range(n):
            live = [i for i, t in world.tasks.items() if isinstance(i, int) and not t.done()]
            r = rng.random()
            if r < send and len(live) < live_max:
                tid += 1
                yield {"op": "send", "id": tid, "to": rng.choice(tos), "sep": rng.choice([0, 0, 1, 5, 127]), "dep": rng.choice([0, 0, 1, 9, 127]), "body": rng.choice(BODIES)}
            elif r < send + 0.4:
                ev = pkt(rng, world, kinds)
                if rng.random() < 0.3 and ev["id"] >= 0:
                    nt = world.loop.next_timer()
                    dt = int(round((nt - world.loop.time()) * 10)) if nt is not None else 5
                    if 0 < dt < 100000:
                        yield dict(ev, op="race", dt=dt)
                        continue
                burst = 1 if rng.random() < 0.25 else 0
                yield dict(ev, op="rx", burst=burst)
                if burst:
                    yield dict(pkt(rng, world, kinds), op="rx")
            elif r < send + 0.47 and live:
                yield {"op": "cancel", "id": rng.choice(live)}
            else:
                nt = world.loop.next_timer()
                d = int(round((nt - world.loop.time()) * 10)) if nt is not None else 5
                d = rng.choice([d, d - 1, d + 1, rng.choice(dts), rng.choice(dts)])
                yield {"op": "adv", "dt": max(1, min(d, 3000))}
        yield {"op": "adv", "dt": 3000}
        yield {"op": "adv", "dt": 700}
    return drive


def slow(rng, n):
    """Long waiting times, and delays as long as announced, to their very ends."""
    def drive(world):
        yield {"op": "connect"}
        tid = 0
        for _ in range(n):
            tid += 1
            to = rng.choice([600, 601, 900, 1201, 3000, 6100])
            yield {"op": "send", "id": tid, "to": to, "sep": 0, "dep": rng.choice([0, 64, 127]), "body": rng.choice(BODIES)}
            left = to
            for _k in range(rng.choice([0, 1, 1, 2])):
                d = rng.randrange(1, min(left, 1500))
                yield {"op": "adv", "dt": d}
                delay = rng.choice([0, 30, 120, 127, 128, 200, 255, 256, 300, 999, 1800, 3600, -1, -5, -200])
                yield {"op": "rx", "pk": "wait", "id": tid, "seq": 0, "delay": delay, "sep": 0, "body": [], "crit": 0}
                left = 10 * ((120 if delay < 0 else delay) + 60)
            more = rng.choice([-1, 0, 0, 1])
            left += more
            while left > 0:
                yield {"op": "adv", "dt": min(left, 2999)}
                left -= 2999
            if more < 0:
                yield {"op": "rx", "pk": "ack", "id": tid, "seq": 0, "delay": 0, "sep": 0, "body": []}
                yield {"op": "adv", "dt": 2}
    return drive


def patient(rng):
    """Delays of days and months, to their very ends, on a connection stopped meanwhile (no keep-alives)."""
    def drive(world):
        yield {"op": "connect"}
        due = []
        for tid in range(1, 4):
            yield {"op": "send", "id": tid, "to": 30, "sep": 0, "dep": 0, "body": [0x20, 0x02]}
            delay = rng.choice([86400, 100000, 604800, 700000, 2678400, 0x7FFFFF, rng.randrange(0x800000)])
            yield {"op": "rx", "pk": "wait", "id": tid, "seq": 0, "delay": delay, "sep": 0, "body": []}
            due.append(10 * delay + 600)
        yield {"op": "stop"}
        gone = 0
        for d in sorted(set(due)):
            if d - gone > 1:
                yield {"op": "adv", "dt": d - gone - 1}
                gone = d - 1
            yield {"op": "adv", "dt": 1}
            gone += 1
    return drive


def wrap(rng, n, stay):
    """More than 256 sends while some sleep, were cancelled or timed out."""
    def drive(world):
        yield {"op": "connect"}
        tid = 0
        for k in range(n):
            tid += 1
            yield {"op": "send", "id": tid, "to": 30, "sep": 0, "dep": 0, "body": [0x20, 0x02]}
            if tid not in world.seq_of:
                continue
            r = rng.random()
            if r < stay:
                yield {"op": "rx", "pk": "wait", "id": tid, "seq": 0, "delay": 7200, "sep": 0, "body": []}
            elif r < stay + 0.05:
                yield {"op": "cancel", "id": tid}
            elif r < stay + 0.08:
                yield {"op": "adv", "dt": 30}
            else:
                yield {"op": "rx", "pk": "ack", "id": tid, "seq": 0, "delay": 0, "sep": 0, "body": []}
        for i in rng.sample(sorted(i for i in world.seq_of), min(30, len(world.seq_of))):
            yield {"op": "rx", "pk": "ack", "id": i, "seq": 0, "delay": 0, "sep": 0, "body": []}
            if not world.tasks[i].done():
                continue
            tid += 1
            yield {"op": "send", "id": tid, "to": 30, "sep": 0, "dep": 0, "body": [0x20, 0x02]}
    return drive


def exhaust(rng):
    """All numbers taken, after commands that ended in every way there is."""
    def drive(world):
        X = {"seq": 0, "delay": 0, "sep": 0, "body": []}
        send = lambda tid, to=100: {"op": "send", "id": tid, "to": to, "sep": 0, "dep": 0, "body": [0x20, 0x02]}
        rx = lambda pk, tid, delay=0: dict(X, op="rx", pk=pk, id=tid, delay=delay)
        yield {"op": "connect"}
        tid = 1000
        for how in rng.choices(["ack", "out", "cancel", "wack", "wout", "wcancel", "nack", "wwout", "again"], k=rng.choice([9, 20, 40])):
            tid += 1
            yield send(tid, 20)
            if how[0] == "w" or how == "again":
                yield rx("wait", tid, rng.choice([0, 1, -1, 100]))
            if how == "wwout":
                yield rx("wait", tid, 3)
            if how == "nack":
                yield rx("nack", tid)
            if how == "again":  # connecting again changes nothing for outstanding commands
                yield {"op": "connect"}
            if how[-3:] == "ack":
                yield rx("ack", tid)
            elif how[-6:] == "cancel":
                yield {"op": "cancel", "id": tid}
            if rng.random() < 0.1:
                yield {"op": "adv", "dt": 2000}
        yield {"op": "adv", "dt": 2500}
        for tid in range(1, 262):
            yield send(tid, 1000)
        last = 256
        for tid in range(300, 312):  # the one free number is found, wherever it is
            live = [i for i, t in world.tasks.items() if isinstance(i, int) and not t.done()]
            i = rng.choice([rng.choice(live), last if last in live else live[-1]])
            yield rng.choice([rx("ack", i), {"op": "cancel", "id": i}])
            yield send(tid, 1000)
            last = tid
            yield {"op": "adv", "dt": rng.choice([1, 3, 7])}
            if rng.random() < 0.5:
                yield send(tid + 100)
        for i in rng.sample(range(1, 257), 3):
            yield rx("ack", i)
        for tid in range(262, 267):
            yield send(tid, 1000)
        if rng.random() < 0.5:
            yield {"op": "connect"}
            yield send(267)
        for tid in range(500, 506):  # refused sends do not shift the keep-alive
            yield {"op": "adv", "dt": rng.choice([20, 40, 100])}
            yield send(tid)
        yield {"op": "adv", "dt": 1000}
        yield send(270)
    return drive


def idle(rng, n):
    """Long idle stretches with traffic that must not shift the keep-alive."""
    def drive(world):
        yield {"op": "connect"}
        tid = 0
        for _ in range(n):
            r = rng.random()
            if r < 0.25:
                tid += 1
                yield {"op": "send", "id": tid, "to": rng.choice([1, 30, 249, 250, 251, 600]), "sep": 0, "dep": 0, "body": [0x20, 0x02]}
            elif r < 0.55:
                yield dict(pkt(rng, world, ["ack", "nack", "wait", "cmd", "junk"]), op="rx")
            else:
                yield {"op": "adv", "dt": rng.choice([1, 100, 249, 250, 251, 499, 500, 501, 1000, rng.randrange(1, 2000)])}
    return drive


def life(rng, n):
    """Stopping and connecting again, with commands outstanding and refused ones in between."""
    def drive(world):
        yield {"op": "connect"}
        tid, on = 0, True
        for _ in range(n):
            r = rng.random()
            if r < 0.12:
                on = not on or rng.random() < 0.2
                yield {"op": "connect" if on else "stop"}
            elif r < 0.4:
                tid += 1
                yield {"op": "send", "id": tid, "to": rng.choice([1, 30, 249, 250, 251, 600]), "sep": 0, "dep": 0, "body": [0x20, 0x02]}
            elif r < 0.65 and on:
                yield dict(pkt(rng, world, ["ack", "nack", "wait", "cmd", "junk"]), op="rx")
            else:
                yield {"op": "adv", "dt": rng.choice([1, 100, 249, 250, 251, 499, 500, 501, rng.randrange(1, 700)])}
        yield {"op": "adv", "dt": 3000}
    return drive


def datagram(rng, world):
    """Bytes of any kind; sequence numbers of Z/IP packets hit outstanding commands often."""
    r = rng.random()
    if r < 0.6:
        b = wire.gen_bytes(rng, 0x2302)
        fl0 = rng.choice([0x00, 0x00, 0x00, 0x40, 0x30, 0x20, 0x28, 0x24, 0x80, 0x70, rng.randrange(256)])
        b[2] = fl0
        b[3] = b[3] & 0x80 | rng.choice([0x50, 0x50, 0x40, 0x00, 0x10, 0x60]) & 0x7F
        if world.seq_of and rng.random() < 0.6:
            b[4] = world.seq_of[rng.choice(sorted(world.seq_of)[-4:])]
    elif r < 0.7:
        b = wire.gen_bytes(rng, rng.choice([0x2303, 0x5801, 0x5801, 0x5804]))
    elif r < 0.85:
        b = wire.gen_bytes(rng, rng.choice(wire.HIDS))
    else:
        b = [rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 7, 15, 40]))]
        if rng.random() < 0.5:
            b[:2] = [0x23, 0x02]
    r = rng.random()
    if r < 0.25:
        b = b[:rng.randrange(len(b) + 1)]
    elif r < 0.4 and b:
        b[rng.randrange(len(b))] = rng.choice([0, 1, 2, 7, 16, 128, 255, rng.randrange(256)])
    return b if wire.plain_float(b) else [0x23, 0x02]


def packets(rng, n):
    def drive(world):
        yield {"op": "connect"}
        tid = 0
        for _ in range(n):
            live = [i for i, t in world.tasks.items() if isinstance(i, int) and not t.done()]
            r = rng.random()
            if r < 0.15 and len(live) < 6:
                tid += 1
                yield {"op": "send", "id": tid, "to": rng.choice([10, 30, 50, 600]), "sep": 0, "dep": 0, "body": rng.choice(BODIES)}
            elif r < 0.25:
                yield dict(pkt(rng, world, ["ack", "wait", "nack", "cmd"]), op="rx")
            elif r < 0.9:
                yield {"op": "rx", "pk": "raw", "body": datagram(rng, world), "burst": int(rng.random() < 0.2)}
            else:
                yield {"op": "adv", "dt": rng.choice([1, 5, 10, 29, 100, 250])}
        yield {"op": "adv", "dt": 700}
    return drive


def drivers(prop, tier, rng, **_):
    q = tier == "quick"
    new = lambda: __import__("random").Random(rng.random())
    n = 1 if q else 8
    if prop == "C01":
        for _i in range(60 * n):
            yield CFG, rand(new(), 70, ["ack", "ack", "ack", "nack", "wait", "cmd", "junk"], tos=(1, 10, 30, 50) if _i % 4 else (30, 300, 601, 1500))
        for _i in range(4 * n):
            yield CFG, slow(new(), 6)
    if prop in ("C01", "C02"):
        for _i in range(8 * n):
            yield CFG, life(new(), 50)
    if prop == "C02":
        for _i in range(60 * n):
            yield CFG, rand(new(), 60, ["wait", "wait", "wait", "ack", "nack"], live_max=5, dts=(1, 10, 599, 600, 601, 610, 1200, 1800, 1799, 1801, 3000))
        for _i in range(6 * n):
            yield CFG, slow(new(), 6)
        for _i in range(5 * n):
            yield CFG, patient(new())
    if prop == "C03":
        for _i in range(3 * n):
            yield CFG, exhaust(new())
        for _i in range(10 * n):
            yield CFG, life(new(), 60)
        for k in range(6 * n):
            yield CFG, wrap(new(), 330 if q else 900, [0.02, 0.1, 0.3][k % 3])
        for _i in range(15 * n):
            yield CFG, rand(new(), 60, ["ack", "wait", "nack"], send=0.5, live_max=40)
    if prop == "C04":
        for _i in range(2 * n):
            yield CFG, exhaust(new())
        for _i in range(40 * n):
            yield CFG, idle(new(), 60)
            yield CFG, life(new(), 40)
        for _i in range(15 * n):
            yield CFG, rand(new(), 50, ["ack", "wait", "nack", "cmd", "junk"])
    if prop == "C07":
        for _i in range(60 * n):
            yield CFG, packets(new(), 100)
        for _i in range(10 * n):
            yield CFG, rand(new(), 50, ["ack", "wait", "nack", "cmd", "cmd", "junk"])
