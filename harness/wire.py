"""Messages of the code under test as values of spec/Wire.tla, and generators of byte strings."""
import decimal
import importlib

import wire_table

TAB = wire_table.table()
ENC_SKIP = {"ext", "str", "nodemask", "sensmask", "float", "cmdlist", "groups", "nif", "meta", "szvalrx"}
HIDS = sorted(TAB)
# what can be built and encoded (a Z/IP packet without header extension)
ENCODABLE = [h for h in HIDS if not ({k for _n, k, _w in TAB[h][1]} & (ENC_SKIP - {"ext"}))]
CONTAINERS = [h for h in HIDS if {k for _n, k, _w in TAB[h][1]} & {"msg", "msgl"}]


def cls_of(hid):
    mod, name = TAB[hid][0].split(".")
    return getattr(importlib.import_module("pyzwave.commandclass." + mod), name)


def visible(hid):
    return [f for f in TAB[hid][1] if f[1] != "r"]


# ---- projection: object -> value ----
def dictval(d):
    out = [7]
    for k in sorted(d):
        out += [k, len(d[k])] + d[k]
    return out


def ime(key, v):
    if key == 2:
        return [4] + [int(getattr(v, n)) for n in ("repeater1", "repeater2", "repeater3", "repeater4", "speed")]
    if key in (0, 1, 4, 5):
        return [1, int(v)]
    return [2] + list(v)


def option(key, v):
    if key == 1:
        return [1, int(v)]
    if key == 3:
        return dictval({int(k): ime(int(k), x) for k, x in v.items()})
    if key == 4:
        return [4, int(v.security2SecurityClass), int(v.crc16)]
    return [0]


def value(kind, v):
    if v is None:
        return [0]
    if kind in ("u", "nfail"):
        return [1, int(v)]
    if kind == "ip":
        return [2] + list(v.packed)
    if kind == "u32":
        return [2] + list(int(v).to_bytes(4, "big"))
    if kind in ("dsk", "dskn"):
        text = repr(v)
        return [2] + [b for w in (text.split("-") if text else []) for b in divmod(int(w), 256)]
    if kind == "rest":
        return [2] + list(bytes(v))
    if kind in ("msg", "msgl"):
        return flat(project(v))
    if kind == "ext":
        return dictval({int(k): option(int(k), x) for k, x in v.items()})
    if kind == "str":
        return [2] + list(v.encode("utf-8"))
    if kind in ("nodemask", "sensmask"):
        return [3] + sorted(int(x) for x in v)
    if kind == "assoc":
        return [4] + [x for n, e in v for x in (int(n), -1 if e is None else int(e))]
    if kind == "float":
        sign, digits, exp = decimal.Decimal(repr(float(v))).normalize().as_tuple()
        if digits == (0,):
            sign = exp = 0
        return [5, sign, exp] + list(digits) + [int(v.scale)]
    if kind in ("szval", "szvalrx"):
        n = int(v)
        return [2] + list(n.to_bytes((n.bit_length() + 7) // 8, "big"))
    if kind == "cmdlist":
        return [4] + [int(x) for pair in v for x in pair]
    if kind == "groups":
        return [4] + [int(getattr(g, n)) for g in v for n in ("groupingIdentifier", "mode", "profile", "eventCode")]
    if kind == "nif":
        return [4] + [int(x) for x in v]
    if kind == "meta":
        return dictval({int(k): [2] + list(x) for k, x in v.items()})
    raise ValueError(kind)


def project(msg):
    """[hid, values] of a message object."""
    hid = msg.hid()
    if hid not in TAB:
        return hid, []
    return hid, [value(k, getattr(msg, n)) for n, k, _w in visible(hid)]


def flat(m):
    hid, f = m
    out = [6, hid]
    for v in f:
        out += [len(v)] + v
    return out


def unflat(v):
    hid, rest, f = v[1], v[2:], []
    while rest:
        f.append(rest[1:1 + rest[0]])
        rest = rest[1 + rest[0]:]
    return hid, f


# ---- construction: value -> object ----
def native(kind, v):
    if kind in ("u", "nfail"):
        return v[1]
    if kind in ("ip", "dsk", "dskn", "rest"):
        return bytes(v[1:])
    if kind in ("u32", "szval"):
        return int.from_bytes(bytes(v[1:]), "big")
    if kind in ("msg", "msgl"):
        hid, f = unflat(v)
        return build(hid, f) if hid else None
    if kind == "assoc":
        return [(v[i], None if v[i + 1] == -1 else v[i + 1]) for i in range(1, len(v), 2)]
    raise ValueError(kind)


def build(hid, vals, how=0):
    """A message object with the given field values: given to the constructor (0), assigned (1), both taken from
    another message (2, 3), keys given as text (4), or a received message (5)."""
    kw = {n: native(k, v) for (n, k, _w), v in zip(visible(hid), vals) if v != [0] and k != "ext"}
    if how == 5:
        return decode(build(hid, vals).compose())
    if how in (2, 3):
        other = build(hid, vals)
        kw = {n: getattr(other, n) for n in kw}
    if how == 4:
        for n, k, _w in visible(hid):
            if k in ("dsk", "dskn") and kw.get(n):
                kw[n] = key_text(kw[n])
    if how in (0, 2, 4) or any(x is None for x in kw.values()):
        return cls_of(hid)(**kw)
    msg = cls_of(hid)()
    for n, v in kw.items():
        setattr(msg, n, v)
    return msg


def key_text(b):
    """A key as it is printed on devices: numbers of five digits for two bytes each."""
    return "-".join("%05d" % (b[i] * 256 + b[i + 1]) for i in range(0, len(b), 2))


def decode(b):
    from pyzwave.message import Message
    return Message.decode(b)


# ---- generators ----
def num(rng, w):
    top = (1 << w) - 1
    return rng.choice([0, top, 1, top - 1, 1 << (w - 1), rng.randrange(top + 1), rng.randrange(top + 1)])


def blob(rng, n):
    return [num(rng, 8) for _ in range(n)]


def gen_vals(rng, hid, depth=0):
    """Random in-range field values of an encodable message."""
    out = []
    size = 0
    for n, k, w in visible(hid):
        if k in ("u", "nfail"):
            x = num(rng, w or 8)
            if n == "size":
                x = size = rng.choice([1, 2, 4])
            if n == "headerExtIncluded":
                x = 0
            if n == "dskLengthN":
                x = 16
            out.append([1, x])
        elif k in ("ip", "u32"):
            out.append([2] + blob(rng, w))
        elif k in ("dsk", "dskn"):
            out.append([2] + blob(rng, 16))
        elif k == "rest":
            out.append([2] + blob(rng, rng.choice([0, 1, 2, 5, 16, 40])))
        elif k == "ext":
            out.append([0])
        elif k == "szval":
            b = blob(rng, rng.randrange(size + 1))
            while b and b[0] == 0:
                b = b[1:]
            out.append([2] + b)
        elif k == "assoc":
            a = [x for _ in range(rng.randrange(4)) for x in (rng.randrange(1, 233), -1)]
            b = [x for _ in range(rng.randrange(3)) for x in (rng.randrange(1, 233), rng.randrange(256))]
            if rng.random() < 0.2:
                a, b = b, a
            out.append([4] + a + b)
        else:
            if depth > 2 or rng.random() < 0.1:
                out.append([6, 0])
            else:
                h = rng.choice([c for c in CONTAINERS if c in ENCODABLE] if rng.random() < 0.3 else ENCODABLE)
                out.append(flat((h, gen_vals(rng, h, depth + 1))))
    return out


LIE = 0.0  # how often a contained length is wrong


def ln(rng, n):
    """A length of n bytes, sometimes a wrong one."""
    if LIE and rng.random() < LIE:
        return rng.choice([n + 1, n + 2, max(0, n - 1), 0, 1, 255, rng.randrange(256)])
    return n


def gen_ext(rng):
    opts = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        t = rng.choice([1, 1, 2, 3, 3, 4, 5, 6, 0, 127])
        crit = rng.randrange(2) if 1 <= t <= 5 else rng.choice([0, 0, 0, 1])
        if t == 1:
            d = rng.choice([[0, 0, 0], [255, 255, 255], [128, 0, 0], [127, 255, 255], blob(rng, 3), blob(rng, 4)])
        elif t == 3:
            d = []
            for _i in range(rng.randrange(4)):
                i = rng.choice([0, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 200])
                v = blob(rng, {0: 1, 1: 2, 2: rng.choice([5, 5, 3, 0]), 4: 1, 5: 1}.get(i, rng.randrange(5)))
                d += [i, ln(rng, len(v))] + v
        else:
            d = blob(rng, rng.choice([0, 1, 2, 3]))
        opts += [crit << 7 | t, ln(rng, len(d))] + d
    return [ln(rng, 1 + len(opts))] + opts


def gen_bytes(rng, hid, depth=0):
    """A well-formed byte string of a command."""
    out = [hid >> 8, hid & 255]
    bits = nbits = 0
    last = gov = 0
    for n, k, w in TAB[hid][1]:
        if k in ("r", "u") and w <= 8:
            v = num(rng, w) if k == "u" else rng.choice([0, 0, num(rng, w)])
            if n == "size":
                v = rng.choice([1, 2, 4, 1, 2, 4, 0, 3, 7])
            if n == "groupCount":
                v = rng.choice([0, 1, 1, 2, 3])
            if n == "dskLengthN":
                v = rng.choice([16, 16, 0, 16, 1])
            if n == "nodeInfoLength":
                v = rng.choice([7, 9, 12, 7, 8, 0, 3, 255])
            if n in ("headerExtIncluded", "nodeInfoLength"):
                gov = v
            bits, nbits = bits << w | v, nbits + w
            if k == "u":
                last = v
            if nbits == 8:
                out.append(bits)
                bits = nbits = 0
        elif k == "u":
            out += blob(rng, 2)
        elif k in ("ip", "u32", "dsk"):
            out += blob(rng, w)
        elif k in ("rest", "sensmask"):
            out += blob(rng, rng.choice([0, 1, 2, 3, 6, 20]))
        elif k in ("msg", "msgl"):
            r = rng.random()
            if depth > 2 or r < 0.1:
                inner = blob(rng, rng.choice([0, 1]))
            elif r < 0.2:
                inner = [rng.choice([0, 33, 255, 0x5A]), rng.randrange(256)] + blob(rng, 3)
            else:
                inner = gen_bytes(rng, rng.choice(CONTAINERS if rng.random() < 0.3 else HIDS), depth + 1)
            out += ([ln(rng, len(inner))] if k == "msgl" else []) + inner
        elif k == "ext":
            if gov:
                out += gen_ext(rng)
        elif k == "str":
            t = rng.choice(["", "Lifeline", "Gr\u00fcppe", "\u20ac\U0001F600", "a" * 30]).encode("utf-8")
            out += [ln(rng, len(t))] + list(t)
        elif k == "nodemask":
            out += [rng.choice([0, 0, 0, 1, 128, 255, rng.randrange(256)]) for _ in range(29)]
        elif k == "assoc":
            out += [rng.randrange(1, 233) for _ in range(rng.randrange(4))]
            if rng.random() < 0.6:
                out += [0] + [x for _ in range(rng.randrange(3)) for x in (rng.randrange(1, 233), rng.randrange(256))]
        elif k == "float":
            size = rng.choice([1, 2, 4, 1, 2, 4, 0, 3, 5, 6])
            out += [rng.randrange(8) << 5 | rng.randrange(4) << 3 | size] + blob(rng, size)
        elif k in ("szval", "szvalrx"):
            out += blob(rng, last)
        elif k == "cmdlist":
            c = rng.randrange(4)
            out += [ln(rng, 2 * c)] + blob(rng, 2 * c)
        elif k == "groups":
            out += blob(rng, 7 * last)
        elif k == "nif":
            out += blob(rng, max(0, gov - 7) if gov < 100 else 6)
        elif k == "nfail":
            out += blob(rng, rng.choice([1, 16, 1, 2, 17]))
        elif k == "dskn":
            out += blob(rng, 16 if last else 0)
        elif k == "meta":
            for _ in range(rng.randrange(3)):
                t = rng.choice([0, 1, 2, 3, 50, 51, 52, 53, 54, 55, 9, 99])
                v = blob(rng, rng.randrange(5))
                out += [t << 1 | int(rng.random() < 0.2), ln(rng, len(v))] + v
    if rng.random() < 0.1:
        out += blob(rng, rng.randrange(1, 4))
    return out


def plain_float(b):
    """True unless the bytes could hold a 7 byte number, which a float cannot represent exactly."""
    for i in range(len(b) - 1):
        if (b[i], b[i + 1]) in ((0x31, 0x05), (0x32, 0x02)) and i + 3 < len(b) and b[i + 3] & 7 == 7:
            return False
    return True


def decodable(b):
    from pyzwave.message import Message
    try:
        Message.decode(bytes(b))
        return True
    except Exception:  # pylint: disable=broad-except
        return False
