"""Stand-ins for the radio side: an adapter whose sends are settled by the driver."""
import asyncio

import world  # noqa: F401  (sets the path of the code under test)

from pyzwave.adapter import Adapter


def _stub(name):
    async def method(self, *a, **kw):
        return await self.on_call(name, a, kw)
    method.__name__ = name
    return method


class FakeAdapter(Adapter):
    """on_send(dest, cmd, kwargs) -> awaitable giving the delivery result.
    on_call(name, args, kwargs) -> coroutine for the network management calls."""

    def __init__(self, on_send, on_call=None):
        super().__init__()
        self.on_send = on_send
        self.on_call = on_call

    async def connect(self):
        pass

    async def send(self, cmd, sourceEP=0, destEP=0, timeout=3):
        return await self.on_send(0, cmd, dict(sourceEP=sourceEP, destEP=destEP))

    async def sendToNode(self, nodeId, cmd, **kw):
        return await self.on_send(nodeId, cmd, kw)


for _n in list(Adapter.__abstractmethods__):
    if _n not in ("connect", "send", "sendToNode"):
        setattr(FakeAdapter, _n, _stub(_n))
FakeAdapter.__abstractmethods__ = frozenset()
