"""Deterministic virtual-time asyncio event loop.

Time only moves when the driver says so, callbacks run in FIFO order exactly as in the real
BaseEventLoop (whose _run_once is reused), and UDP endpoints are in-memory objects that record what
the code under test sends.  Unit of the public clock: deciseconds (int).
"""
import asyncio
import heapq
from asyncio import base_events, events

EPS = 1e-6


class _Selector:
    def select(self, timeout):
        return []

    def get_map(self):
        return {}

    def close(self):
        pass


class FakeTransport(asyncio.DatagramTransport):
    """One datagram socket.  Everything sent is handed to loop.net.sent()."""

    def __init__(self, loop, protocol, local, remote, sid):
        super().__init__()
        self.loop, self.protocol, self.local, self.remote, self.sid = loop, protocol, local, remote, sid
        self.closed = False

    def sendto(self, data, addr=None):
        self.loop.net.sent(self, bytes(data), addr)

    def close(self):
        if not self.closed:
            self.closed = True
            self.loop.net.closed(self)
            self.loop.call_soon(self.protocol.connection_lost, None)

    def abort(self):
        self.close()

    def is_closing(self):
        return self.closed

    def get_extra_info(self, name, default=None):
        if name == "peername":
            return self.remote
        if name == "sockname":
            return self.local
        return default


class Net:
    """Records sockets and traffic; drivers subclass or set the hooks."""

    def __init__(self, loop):
        self.loop = loop
        self.socks = []
        self.on_sent = None
        self.on_open = None
        self.on_closed = None
        self.on_exc = None
        self.open_delay = None  # optional coroutine factory awaited while opening a socket

    def sent(self, sock, data, addr):
        if self.on_sent:
            self.on_sent(sock, data, addr)

    def opened(self, sock):
        self.socks.append(sock)
        if self.on_open:
            self.on_open(sock)

    def closed(self, sock):
        if self.on_closed:
            self.on_closed(sock)

    def inject(self, sock, data, addr):
        """A datagram arrives (called from inside the loop)."""
        try:
            sock.protocol.datagram_received(data, addr)
        except Exception as exc:  # the code under test raised out of its receive callback
            if self.on_exc:
                self.on_exc(sock, exc)


class VLoop(base_events.BaseEventLoop):
    def __init__(self):
        super().__init__()
        self._now = 1000.0
        self._selector = _Selector()
        self._clock_resolution = EPS
        self.net = Net(self)
        self.base = self._now
        self.errors = []
        self.set_exception_handler(self._on_error)
        self.steps = 0

    # -- plumbing required by BaseEventLoop
    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        pass

    def is_running(self):
        return events._get_running_loop() is self

    def time(self):
        return self._now

    def _on_error(self, loop, context):
        self.errors.append(context)

    # -- time
    def ds(self):
        """Deciseconds since the start."""
        return int(round((self._now - self.base) * 10))

    def _once(self):
        self.steps += 1
        if self.steps > 2_000_000:
            raise RuntimeError("event loop does not come to rest")
        old = events._get_running_loop()
        events._set_running_loop(self)
        try:
            self._run_once()
        finally:
            events._set_running_loop(old)

    def call(self, func, *args):
        """Run func as if called from a loop callback."""
        old = events._get_running_loop()
        events._set_running_loop(self)
        try:
            return func(*args)
        finally:
            events._set_running_loop(old)

    def settle(self, limit=20000):
        n = 0
        while self._ready:
            self._once()
            n += 1
            if n > limit:
                raise RuntimeError("livelock: event loop does not come to rest")

    def next_timer(self):
        while self._scheduled and self._scheduled[0]._cancelled:
            self._timer_cancelled_count -= 1
            h = heapq.heappop(self._scheduled)
            h._scheduled = False
        return self._scheduled[0]._when if self._scheduled else None

    def advance(self, dsec, final=None):
        """Advance by dsec deciseconds, firing every timer on the way.  `final` (a list of
        callables) is run at the target instant *before* the timers due at exactly that instant."""
        target = round(self._now + dsec / 10.0, 6)
        self.settle()
        while True:
            when = self.next_timer()
            lim = target - EPS if final else target + EPS
            if when is None or when > lim:
                break
            self._now = max(self._now, round(when, 6))
            self._once()
            self.settle()
        self._now = target
        if final:
            for f in final:
                self.call_soon(f)
            # one iteration: the datagram callbacks precede the due timers, like in the real loop
            self._once()
        while True:
            when = self.next_timer()
            if when is None or when > target + EPS:
                break
            self._once()
            self.settle()
        self.settle()

    # -- sockets
    async def create_datagram_endpoint(self, protocol_factory, local_addr=None, remote_addr=None, **kw):
        if self.net.open_delay is not None:
            await self.net.open_delay(local_addr, remote_addr)
        protocol = protocol_factory()
        tr = FakeTransport(self, protocol, local_addr, remote_addr, len(self.net.socks))
        self.net.opened(tr)
        protocol.connection_made(tr)
        await asyncio.sleep(0)
        return tr, protocol


def new_loop():
    loop = VLoop()
    asyncio.set_event_loop(loop)
    return loop
