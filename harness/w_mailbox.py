"""Adapter: a MailboxService over a stand-in adapter whose sends are settled by the driver (spec/Mailbox.tla)."""
import asyncio
import ipaddress

from fakes import FakeAdapter
from world import World
import wire

from pyzwave.mailbox import MailboxService
from pyzwave.message import Message


class MailboxWorld(World):
    def setup(self):
        self.pending = []  # sends not settled: (node, flat, future)
        self.adapter = self.loop.call(lambda: FakeAdapter(self.on_send))
        self.service = self.loop.call(lambda: MailboxService(self.adapter))

    def on_send(self, dest, cmd, kw):
        fut = self.loop.create_future()
        flat = wire.flat(wire.project(Message.decode(cmd.compose())))
        self.rec(k="send", n=int(dest), m=flat)
        self.pending.append((int(dest), flat, fut))
        return fut

    def open(self):
        """Sends that are still waited for."""
        self.pending = [x for x in self.pending if not x[2].done()]
        return self.pending

    def op_msg(self, ev):
        msg = Message.decode(bytes(ev["body"]))
        self.loop.call(lambda: self.adapter.speak("messageReceived", ev["n"], 0, msg, 0))

    def op_settle(self, ev):
        for n, flat, fut in self.open():
            if (n, flat) == (ev["n"], ev["m"]):
                if ev["how"] == "raise":
                    self.loop.call(lambda: fut.set_exception(asyncio.TimeoutError()))
                elif ev["how"] == "error":
                    self.loop.call(lambda: fut.set_exception(OSError("no route")))
                else:
                    self.loop.call(lambda: fut.set_result(ev["how"] == "ok"))
                return

    def op_init(self, ev):
        ip = ipaddress.IPv6Address(bytes(ev["ip"]))
        self.spawn(ev["id"], lambda: self.service.initialize(ip, ev["port"]))

    def op_look(self, ev):
        pass
