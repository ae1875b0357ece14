"""Base of the adapters that drive the real code and record traces."""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import asyncio
import logging

logging.disable(logging.CRITICAL)
sys.unraisablehook = lambda *_a: None  # garbage-collected coroutines of abandoned loops

import pyzwave.commandclass  # noqa: E402,F401  (first: import order of the package)
from vloop import new_loop  # noqa: E402

if not os.path.abspath(pyzwave.commandclass.__file__).startswith(os.path.abspath(REPO) + os.sep):
    raise SystemExit("harness error: pyzwave comes from %s" % pyzwave.commandclass.__file__)


class World:
    """One instance of the system under test in a fresh virtual loop."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.loop = new_loop()
        self.obs = []
        self.t0 = 0
        self.tasks = {}
        self.setup()
        self.loop.settle()

    def setup(self):
        pass

    def rec(self, **kw):
        if "at" not in kw:
            kw["at"] = self.loop.ds() - self.t0
        self.obs.append(kw)

    def step(self, label):
        """Apply one stimulus and return the trace event."""
        ev = dict(label)
        ev.setdefault("burst", 0)
        self.t0 = self.loop.ds()
        self.apply(ev)
        if ev["burst"]:
            ev["obs"] = []
        else:
            self.loop.settle()
            self.finish(ev)
            ev["obs"], self.obs = self.obs, []
        return ev

    def apply(self, ev):
        getattr(self, "op_" + ev["op"])(ev)

    def finish(self, ev):
        """Called after the loop has settled; may fill in resolved fields of the event."""

    def op_adv(self, ev):
        self.loop.advance(ev["dt"])

    # -- calls into the code under test whose outcome is recorded
    def spawn(self, key, make, conv=None, kind="ret"):
        """Start coroutine make() as a task; record its outcome as an observation."""

        async def runner():
            return await make()

        task = asyncio.Task(runner(), loop=self.loop)
        self.tasks[key] = task

        def done(tk):
            if tk.cancelled():
                res = "cancelled"
            elif tk.exception() is not None:
                exc = tk.exception()
                res = "timeout" if isinstance(exc, asyncio.TimeoutError) else "exc:" + type(exc).__name__
            else:
                res = conv(tk.result()) if conv else boolres(tk.result())
            if isinstance(res, dict):
                self.rec(k=kind, id=key, **res)
            else:
                self.rec(k=kind, id=key, res=res)

        task.add_done_callback(done)
        return task

    def close(self):
        for task in list(self.tasks.values()):
            if not task.done():
                task.cancel()
        try:
            self.loop.settle()
        except Exception:
            pass
        self.loop._ready.clear()
        self.loop._scheduled.clear()


def boolres(value):
    if value is True:
        return "true"
    if value is False:
        return "false"
    if value is None:
        return "none"
    return "val:" + repr(value)


def run_trace(world_cls, cfg, labels):
    """labels: list of labels, or a callable(world) -> iterator (adaptive driver)."""
    world = world_cls(cfg)
    ev = []
    try:
        it = labels(world) if callable(labels) else iter(labels)
        for label in it:
            ev.append(world.step(label))
    finally:
        world.close()
    return {"cfg": cfg, "ev": ev}
