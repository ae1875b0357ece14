"""Adapter: encoding and decoding of single messages (spec/Wire.tla)."""
import re

from world import World

import wire
from pyzwave.commandclass import cmdClasses
from pyzwave.message import Message

FIELDS = {n for hid in wire.HIDS for n, _k, _w in wire.visible(hid)}


class WireWorld(World):
    def setup(self):
        pass

    def step(self, label):
        ev = dict(label)
        ev["burst"] = 0
        self.obs = []
        getattr(self, "op_" + ev["op"])(ev)
        ev["obs"] = self.obs
        return ev

    def op_enc(self, ev):
        msg = wire.build(ev["hid"], ev["v"], ev.get("via", 0))
        before = wire.project(msg)
        try:
            b = msg.compose()
            again = msg.compose()
        except Exception:  # refused
            self.obs.append(dict(k="enc", ok=False, b=[], stable=wire.project(msg) == before))
            return
        self.obs.append(dict(k="enc", ok=True, b=list(b), stable=b == again and wire.project(msg) == before))

    def op_dec(self, ev):
        try:
            msg = Message.decode(bytes(ev["b"]))
        except Exception:  # refused
            self.obs.append(dict(k="dec", ok=False, hid=0, f=[], x=[]))
            return
        hid, f = wire.project(msg)
        x = [int(msg.scale)] if hid == 0x3202 and msg.meterValue is not None else []
        self.obs.append(dict(k="dec", ok=True, hid=hid, f=f, x=x))

    def op_eq(self, ev):
        a, b = (wire.build(m["hid"], m["v"], m["via"]) for m in (ev["a"], ev["b"]))
        eqs = {bool(a == b), bool(b == a), not a != b, not b != a}
        none = bool(a == a.compose()) or bool(a == None) or a == 7 or a in ([], [None])  # pylint: disable=singleton-comparison
        fs = [n for n, k, _w in wire.visible(ev["a"]["hid"]) if k in ("u", "u32", "ip", "dsk")] if ev["a"]["hid"] == ev["b"]["hid"] else []
        values = [(getattr(a, n), getattr(b, n)) for n in fs]
        fields = [bool(x == y) for x, y in values]
        sure = len(eqs) == 1 and fields == [bool(y == x) for x, y in values] == [not x != y for x, y in values]
        self.obs.append(dict(k="eq", eq=eqs == {True}, sure=sure, none=none, f=fields))

    def op_key(self, ev):
        try:
            key = Message.decode(bytes(ev["b"])).dsk
        except Exception:  # refused
            self.obs.append(dict(k="key", ok=False, words=[], like=False))
            return
        key = "" if key is None else key
        text = str(key)
        words = [int(w) for w in text.split("-")] if re.fullmatch(r"\d{5}(-\d{5}){7}", text) else [] if text == "" else [-1]
        bad = text[:-1] + str((int(text[-1]) + 1) % 10) if text else "00000"
        self.obs.append(dict(k="key", ok=True, words=words, like=bool(key == text) and not key == bad))

    def op_show(self, ev):
        try:
            msg = Message.decode(bytes(ev["b"]))
        except Exception:  # refused
            self.obs.append(dict(k="show", ok=False, named=False, same=False, lines=[]))
            return
        before = wire.project(msg)
        head, *rest = msg.debugString().split("\n")
        lines, stack = [], []
        for line in rest:
            m = re.match(r"(\s*)(.+?) = ", line)
            if not m:
                continue
            while stack and stack[-1] >= len(m[1]):
                stack.pop()
            stack.append(len(m[1]))
            if m[2] in FIELDS:  # not a reserved one, nor an entry of a field's dictionary
                lines.append(dict(d=len(stack), n=m[2]))
        hid = before[0]
        name = lambda text: all(w in text for w in (cmdClasses.get(hid >> 8, "%02X" % (hid >> 8)), msg.NAME or "%02X" % (hid & 255)))
        self.obs.append(dict(k="show", ok=True, named=name(head) and name(str(msg)), same=wire.project(msg) == before, lines=lines))
