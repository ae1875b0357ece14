"""Adapter: an Application with a YamlStorage in a scratch folder; saves are interrupted in forked children (spec/Storage.tla)."""
import asyncio
import json
import os
import random
import resource
import shutil
import signal
import sys
import tempfile

from fakes import FakeAdapter
from vloop import new_loop
from w_node import NodeListener, NodeWorld, state
from world import REPO
import wire  # noqa: F401

from pyzwave.application import Application
from pyzwave.message import Message
from pyzwave.persistantstorage import YamlStorage


class Listener:
    """Hears of nodes after the storage has."""

    def __init__(self, world):
        self.world = world

    def nodeAdded(self, app, node):
        self.world.added(node)


class Slow:
    """A listener that takes its time; updates arrive meanwhile."""

    def __init__(self, world):
        self.world, self.count = world, 0

    async def nodesAdded(self, app, nodes):
        await self.world.meanwhile("nodesAdded", 0)

    async def nodeAdded(self, app, node):
        self.count += 1
        await self.world.meanwhile("nodeAdded", self.count)


class StorageWorld(NodeWorld):
    snap = True

    def setup(self):
        # not on the disk of the temporary files, where there is another one
        self.base = tempfile.mkdtemp(prefix="vstore", dir=SHM if os.access(SHM, os.W_OK) else None)
        self.run = 0
        self.dir = 1
        self.root = os.path.join(self.base, "0")
        for d in (1, 2):
            os.makedirs(os.path.join(self.root, str(d)))
        self.reset()

    def reset(self):
        self.pending, self.asked, self.waiting, self.locks, self.kinds, self.tasks = [], [], [], {}, {}, {}
        self.cur, self.net, self.early, self.infos, self.nodes, self.known = {}, [], [], 0, [], set()
        self.snaps = []

    def close(self):
        super().close()
        shutil.rmtree(self.base, ignore_errors=True)

    def folder(self):
        return os.path.join(self.root, str(self.dir))

    # -- start
    def op_boot(self, ev):
        """A new process: nothing of the previous one is left but its files."""
        old, self.run = self.root, self.run + 1
        self.root = os.path.join(self.base, str(self.run))
        shutil.copytree(old, self.root)  # whatever is left of the old objects writes elsewhere
        self.loop._ready.clear()
        self.loop._scheduled.clear()
        self.loop = new_loop()
        self.t0 = self.loop.ds()
        self.reset()
        self.cur = ev
        self.net, self.early = ev["net"], list(ev["early"])
        for x in self.early:
            x["live"] = 0
        self.begin()
        self.loop.settle()
        for path in self.snaps:
            self.found(self.load(path), None)
            shutil.rmtree(path)
        self.cfg = dict(self.cfg, nodes=[dict(root=x["root"], ep=x["ep"]) for x in self.net])

    def begin(self):
        self.adapter = self.loop.call(lambda: FakeAdapter(self.on_send, self.on_call))
        self.adapter.nodeId = self.cfg["ctl"]
        self.storage = YamlStorage(self.folder())
        self.app = self.loop.call(lambda: Application(self.adapter, self.storage))
        self.app.addListener(Listener(self))
        if self.early:
            self.app.addListener(Slow(self))
        self.nodes = [None] * len(self.net)
        self.spawn(0, self.app.startup, lambda _x: "none")

    async def on_call(self, name, args, kw):
        args = [int(x) for x in args] + [int(x) for x in kw.values()]
        if name == "getNodeList":
            return [1] + [x["root"] for x in self.net if x["ep"] == 0]
        if name == "getNodeInfo":
            self.infos += 1
            await self.meanwhile("info", self.infos)
            lst = next(x["list"] for x in self.net if x["root"] == args[0] and x["ep"] == 0)
            return Message.decode(bytes([0x52, 4, 0, 15, 0x80, 0, 0, 4, 16, 1] + lst))
        if name == "getMultiChannelEndPoints":
            return len([x for x in self.net if x["root"] == args[0] and x["ep"]])
        if name == "getMultiChannelCapability":
            lst = next(x["list"] for x in self.net if (x["root"], x["ep"]) == tuple(args[:2]))
            return Message.decode(bytes([0x52, 8, 0, 0, 0, args[1], 16, 1] + lst))
        if name == "getFailedNodeList":
            return []
        return None

    def added(self, node):
        root, ep = (int(x) for x in str(node.nodeId).split(":"))
        n = next((i for i, x in enumerate(self.net, 1) if (x["root"], x["ep"]) == (root, ep)), 0)
        if n:
            self.nodes[n - 1] = node
            self.known.add(n)
            node.addListener(NodeListener(self, n))
        self.rec(k="restored", id=root * 1000 + ep, cls=state(node))

    async def meanwhile(self, at, i):
        todo = [x for x in self.early if x["at"] == at and x["i"] == i]
        for x in todo:
            self.early.remove(x)
            x["live"] = int(x["n"] in self.known)
            nd = self.net[x["n"] - 1]
            self.adapter.speak("messageReceived", nd["root"], nd["ep"], Message.decode(bytes(x["body"])), 0)
        for _ in range(30):
            await asyncio.sleep(0)
        if todo:
            path = tempfile.mkdtemp(prefix="snap", dir=self.base)
            shutil.copytree(self.folder(), os.path.join(path, "s"))
            self.snaps.append(path)

    # -- what a start would find
    def load(self, path):
        """Node states after a start with the folder in path."""
        def child():
            self.loop = new_loop()
            self.reset_for(path)
            self.begin()
            self.loop.settle()
            out = [o for o in self.obs if o["k"] == "restored"]
            ok = any(o["k"] == "ret" and o["res"] == "none" for o in self.obs)
            return [[o["id"], o["cls"]] for o in out] if ok else [[0, []]]
        out = forked(child)
        return out if out is not None else [[0, []]]

    def reset_for(self, path):
        net = self.net
        self.reset()
        self.net, self.obs = net, []
        self.dir = 3
        self.root = path
        os.rename(os.path.join(path, "s"), os.path.join(path, "3"))

    def look_at(self, path):
        """As load, of a copy of the folder."""
        tmp = tempfile.mkdtemp(prefix="look", dir=self.base)
        try:
            shutil.copytree(path, os.path.join(tmp, "s"))
            return self.load(tmp)
        finally:
            shutil.rmtree(tmp)

    def found(self, nodes, mode):
        for nid, cls in nodes:
            o = dict(k="found", id=nid, cls=cls)
            if mode is not None:
                o["mode"] = mode
            o["at"] = 0
            if o not in self.obs:
                self.obs.append(o)

    # -- interruptions
    def op_crash(self, ev):
        keep = tempfile.mkdtemp(prefix="keep", dir=self.base)
        orig = os.path.join(keep, "o")
        shutil.copytree(self.folder(), orig)

        def restore():
            shutil.rmtree(self.folder())
            shutil.copytree(orig, self.folder())
        net = ev["net"]
        self.net = net
        count = forked(lambda: self.interrupted(ev["ops"], None, 0))
        self.found(self.look_at(self.folder()), "none")
        if count is None:
            self.rec(k="died")
        else:
            rng = random.Random(ev["seed"])
            size = max([1] + [os.path.getsize(os.path.join(d, f)) for d, _, fs in os.walk(self.folder()) for f in fs])
            points = [("line", k) for k in range(1, count["line"] + 1)]
            points = rng.sample(points, min(len(points), ev["pts"]))
            # the lines that follow each change of the files
            points += [("line", k) for k in sorted(set(count["after"])) if k <= count["line"] and ("line", k) not in points]
            points += [("other", rng.randrange(1, count["other"] + 1)) for _ in range(ev["pts"] // 2)]
            points += [("power", 0)]
            points += [("ev", k) for k in range(1, count["ev"] + 1)]
            points += [("everr", k) for k in range(1, count["ev"] + 1)]
            for _ in range(ev["pts"] // 2):
                n = rng.choice([0, 1, rng.randrange(size), size - 1])
                points += [("size", n), ("sizeerr", n)]
            want = [p for p in points if p[0].endswith("err") == (ev["final"] == "err")]
            for what, k in points if ev["final"] == "none" else points + [rng.choice(want or points)]:
                restore()
                forked(lambda what=what, k=k: self.interrupted(ev["ops"], what, k))
                self.found(self.look_at(self.folder()), "err" if what.endswith("err") else "kill")
            if ev["final"] == "none":
                restore()
                forked(lambda: self.interrupted(ev["ops"], None, 0))
        shutil.rmtree(keep)
        self.nodes = []

    def interrupted(self, ops, what, k):
        """In the child: the operations, the first of them with an interruption."""
        count = dict(line=0, other=0, ev=0, after=[])
        on = [True]

        synced = {}
        sync = os.fsync

        def fsync(fd):
            sync(fd)
            st = os.fstat(fd)
            synced[st.st_ino] = st.st_size

        def power_cut(src, dst):
            """The name reaches the disc, the content only if it was asked for."""
            st = os.stat(src)
            if synced.get(st.st_ino) != st.st_size:
                on[0] = False
                os.rename(src, dst)
                os.truncate(dst, 0)
                os._exit(9)

        def hit(kind):
            count[kind] += 1
            return what is not None and what.startswith(kind) and count[kind] == k

        def local(frame, event, _arg):
            if event == "line" and hit("line"):
                os._exit(9)
            return local

        def other(frame, event, _arg):
            if event == "line" and hit("other"):
                os._exit(9)
            return other

        def trace(frame, _event, _arg):
            return local if frame.f_code.co_filename.startswith(REPO) else other

        def audit(event, args):
            if not on[0] or event not in EVENTS or event == "open" and not isinstance(args[0], (str, bytes)):
                return
            if what == "power" and event == "os.rename":
                power_cut(args[0], args[1])
            count["after"] += [count["line"] + 1, count["line"] + 2]
            if hit("ev"):
                if what == "everr":
                    raise OSError(28, "No space left on device")
                os._exit(9)
        os.fsync = os.fdatasync = fsync
        sys.addaudithook(audit)
        if what in (None, "line", "other"):
            sys.settrace(trace)
        if what in ("size", "sizeerr"):
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if what == "size" else signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (k, resource.RLIM_INFINITY))
        self.step(dict(ops[0]))
        sys.settrace(None)
        on[0] = False
        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        if what is not None and not what.endswith("err"):
            os._exit(9)
        for op in ops[1:]:
            self.step(dict(op))
        return count

    def op_path(self, ev):
        self.dir = ev["d"]
        self.storage.path = self.folder()


SHM = "/dev/shm"
EVENTS = {"open", "os.rename", "os.remove", "os.mkdir", "os.link", "os.truncate", "os.rmdir", "os.symlink", "os.chmod", "os.utime", "tempfile.mkstemp", "shutil.move",
          "shutil.copyfile"}


def forked(work):
    """Run work() in a forked child and return its result; None if the child died."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.alarm(0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(30)
            asyncio.events._set_running_loop(None)
            data = json.dumps(work()).encode()
            while data:
                data = data[os.write(w, data):]
            code = 0
        except BaseException:  # pylint: disable=broad-except
            if os.environ.get("VERIF_DEBUG"):
                import traceback
                traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    out = b""
    while True:
        d = os.read(r, 65536)
        if not d:
            break
        out += d
    os.close(r)
    _, status = os.waitpid(pid, 0)
    return json.loads(out) if status == 0 and out else None
