"""Drivers for spec/Wire.tla."""
import random

import wire
from w_wire import WireWorld

SPEC = "T_Wire"
WORLD = WireWorld
HEAP = "4g"
ASSUMPTIONS = ["field values are in the range of their field; a sensor value has at most 6 bytes"]


def models(prop, tier, **_):
    cfg = "INIT Init\nNEXT Next\nINVARIANT Inv Told\nCHECK_DEADLOCK FALSE\nCONSTANTS Rich=%s\n" % ("FALSE" if tier == "quick" else "TRUE")
    return [dict(module="M_Wire", cfg=cfg, graph=False)]


def encodings(rng, n):
    """Messages of every encodable class: one all-low, one all-high, random ones, ones lacking a field."""
    evs = []
    for hid in wire.ENCODABLE:
        vis = wire.visible(hid)
        for j in range(n):
            v = wire.gen_vals(rng, hid)
            evs.append({"op": "enc", "hid": hid, "v": v, "via": j % 5})
        # each field alone at its extremes, the others at the opposite one
        for i, (name, k, w) in enumerate(vis):
            if k != "u" or name in ("size", "headerExtIncluded"):
                continue
            for hi in (0, 1):
                v = wire.gen_vals(rng, hid)
                for m, (nm, km, wm) in enumerate(vis):
                    if km == "u" and nm not in ("size", "headerExtIncluded"):
                        v[m] = [1, (1 << wm) - 1 if (m == i) == bool(hi) else 0]
                evs.append({"op": "enc", "hid": hid, "v": v, "via": hi})
        for i in range(len(vis)):
            v = wire.gen_vals(rng, hid)
            v[i] = [0]
            evs.append({"op": "enc", "hid": hid, "v": v, "via": i % 2})
    return evs


def decodings(rng, n, trunc, corrupt):
    evs = []

    def dec(b):
        if wire.plain_float(b):
            evs.append({"op": "dec", "b": list(b)})
    for hid in wire.HIDS:
        heavy = 3 if any(k not in ("u", "r") for _n, k, _w in wire.visible(hid)) else 1
        for j in range(n * heavy):
            b = wire.gen_bytes(rng, hid)
            dec(b)
            if j < trunc * heavy:
                for cut in range(len(b)):
                    dec(b[:cut])
            for _ in range(corrupt):
                c = list(b)
                c[rng.randrange(len(c))] = rng.choice([0, 1, 2, 7, 8, 16, 128, 254, 255, rng.randrange(256)])
                dec(c)
    for _ in range(40 * n):
        dec([rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 5, 9, 20, 50]))])
    return evs


KEYED = [h for h in wire.HIDS if any(k in ("dsk", "dskn") for _n, k, _w in wire.visible(h))]


def via(rng, v):
    """How a message is made: not by receiving it if it contains an empty one, which would not be there again."""
    how = rng.randrange(6)
    return 0 if how == 5 and v and v[-1][-2:] == [6, 0] else how


def pairs(rng, n):
    """Two messages that are the same, differ in one field, in one byte of it, or altogether; and keys as shown."""
    evs = []
    for hid in wire.ENCODABLE:
        for _ in range(n):
            v = wire.gen_vals(rng, hid)
            h2, w = hid, [list(x) for x in v]
            r = rng.random()
            if r < 0.1:
                h2 = rng.choice(wire.ENCODABLE)
                w = wire.gen_vals(rng, h2)
            elif r < 0.6 and w:
                i = rng.randrange(len(w))
                w[i] = wire.gen_vals(rng, hid)[i] if r < 0.4 else w[i]
                k, width = wire.visible(hid)[i][1:]
                if r >= 0.4 and k == "u" and wire.visible(hid)[i][0] not in ("size", "headerExtIncluded", "dskLengthN"):
                    w[i][1] ^= 1 << rng.randrange(width)
                elif r >= 0.4 and k in ("ip", "u32", "dsk", "rest") and len(w[i]) > 1:
                    w[i][rng.randrange(1, len(w[i]))] ^= 1 << rng.randrange(8)
                size = [x[1] for x, f in zip(w, wire.visible(hid)) if f[0] == "size"]
                if size and any(f[1] == "szval" and len(x) - 1 > size[0] for x, f in zip(w, wire.visible(hid))):
                    w = [list(x) for x in v]
            evs.append({"op": "eq", "a": {"hid": hid, "v": v, "via": via(rng, v)}, "b": {"hid": h2, "v": w, "via": via(rng, w)}})
    for hid in KEYED:
        for _ in range(5 * n):
            b = wire.gen_bytes(rng, hid)
            evs.append({"op": "key", "b": b if rng.random() < 0.8 else b[:rng.randrange(2, len(b) + 1)]})
    return evs


def drivers(prop, tier, rng, **_):
    k = 1 if tier == "quick" else 8
    if prop == "C36":
        evs = pairs(rng, 40 * k)
    elif prop == "C28":
        evs = encodings(rng, 80 * k)
    elif prop == "C29":
        evs = decodings(rng, 40 * k, 0, 1) + encodings(rng, 4 * k)
        # what the code encodes is decoded again: the specification ties both directions
    elif prop == "C34":
        evs = [dict(e, op="show") for e in decodings(rng, 16 * k, 1, 1)]
    else:
        evs = decodings(rng, 8 * k, 3 * k, 5)
        wire.LIE = 0.2
        for hid in wire.HIDS:
            if any(kd not in ("u", "r", "ip", "u32", "dsk", "rest", "nodemask") for _n, kd, _w in wire.visible(hid)):
                for _ in range(30 * k):
                    b = wire.gen_bytes(rng, hid)
                    if wire.plain_float(b):
                        evs.append({"op": "dec", "b": b})
        for j in range(700 * k):  # header extensions
            wire.LIE = rng.choice([0.05, 0.1, 0.3])
            ext = wire.gen_ext(rng)
            evs.append({"op": "dec", "b": [0x23, 2, rng.choice([0, 0x40, 0x30]), 0xC0, j & 255, 0, 0] + ext + rng.choice([[], [0x20, 2]])})
        wire.LIE = 0.0
    rng.shuffle(evs)  # nothing depends on earlier messages
    for i in range(0, len(evs), 150):
        yield {}, evs[i:i + 150]
