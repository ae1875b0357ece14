"""Adapter: objects with listeners of every kind (spec/Listeners.tla)."""
import asyncio

from fakes import FakeAdapter
from world import World

from pyzwave.util import Listenable

ANSWERS = {0: None, 1: False, 2: True, 3: "", 4: [], 5: {}, 6: b"\x00", 7: (), 8: 0.0}


def answer(v):
    return ANSWERS.get(v, v)


def number(value):
    for k, x in ANSWERS.items():
        if type(x) is type(value) and x == value:
            return k
    return value if type(value) is int else -99


class ListenersWorld(World):
    def setup(self):
        def make(name):
            return self.loop.call({"plain": Listenable, "adapter": lambda: FakeAdapter(None)}[name])
        self.objs = [make(x) for x in self.cfg["objs"]]
        self.known = {}  # listener number -> object
        self.gates = {}
        self.count = {}

    def who(self, speaker):
        return next((i for i, o in enumerate(self.objs, 1) if o is speaker), 0)

    def listener(self, o, l, a, b, x):
        """An object with methods a and b as told; one object per listener, on whatever it is registered."""
        world, space = self, {}

        def note(speaker, m, args, co):
            if len(args) != 2:
                world.rec(k="call", id=-1, l=l, o=world.who(speaker), m=m, v=len(args), ord=0, co=co)
                return -1, 0
            mid, v = args
            k = world.count[mid, co] = world.count.get((mid, co), 0) + 1
            world.rec(k="call", id=mid, l=l, o=world.who(speaker), m=m, v=v, ord=k, co=co)
            return mid, v

        def method(m, kind):
            def val(self, speaker, *args):
                note(speaker, m, args, 0)
                return answer(x)

            def fail(self, speaker, *args):
                note(speaker, m, args, 0)
                raise [ValueError, KeyError, OSError, asyncio.TimeoutError, AssertionError][l % 5]("listener")

            async def coro(self, speaker, *args):
                mid, _v = note(speaker, m, args, 1)
                gate = world.gates[mid, l] = world.loop.create_future()
                return await gate

            def adds(self, speaker, *args):
                note(speaker, m, args, 0)
                if l + 50 not in world.known:
                    world.add(o, l + 50, b, b, x + 50)
                return answer(x)

            def says(self, speaker, *args):
                mid, v = note(speaker, m, args, 0)
                speaker.speak("onB", mid * 100 + l, v + 1)
                return answer(x)
            return {"val": val, "raise": fail, "coro": coro, "adds": adds, "says": says}[kind]
        for m, kind in (("a", a), ("b", b)):
            if kind != "none":
                space["on" + m.upper()] = method(m, kind)
        if l % 3 == 2:  # equal to others, yet a listener of its own
            space["__eq__"], space["__hash__"] = lambda self, other: type(other).__name__.startswith("L"), lambda self: 7
        return type("L%d" % l, (), space)()

    def add(self, o, l, a, b, x):
        obj = self.listener(o, l, a, b, x)
        self.known[l] = obj
        self.objs[o - 1].addListener(obj)

    def op_add(self, ev):
        self.loop.call(lambda: self.add(ev["o"], ev["l"], ev["a"], ev["b"], ev["x"]))

    def op_say(self, ev):
        obj, name, args = self.objs[ev["o"] - 1], "on" + ev["m"].upper(), (ev["id"], ev["v"])
        if ev["how"] == "speak":
            self.loop.call(lambda: obj.speak(name, *args))
        elif ev["how"] == "wait":
            async def wait():
                return [x for x in await asyncio.gather(*obj.speak(name, *args), return_exceptions=True) if not isinstance(x, BaseException)]
            self.spawn(ev["id"], wait, conv)
        else:
            self.spawn(ev["id"], lambda: obj.ask(name, *args), conv)

    def op_end(self, ev):
        gate = self.gates.get((ev["id"], ev["l"]))
        if gate is None or gate.done():
            return
        if ev["how"] == "val":
            self.loop.call(lambda: gate.set_result(answer(ev["v"])))
        elif ev["how"] == "raise":
            self.loop.call(lambda: gate.set_exception([ValueError, asyncio.TimeoutError, OSError][ev["l"] % 3]("later")))
        else:
            self.loop.call(gate.cancel)

    def rec(self, **kw):
        if kw.get("k") == "ret":
            kw.setdefault("ans", [])
        super().rec(**kw)


def conv(v):
    return dict(res="val", ans=[number(x) for x in v]) if isinstance(v, list) else dict(res="type")
