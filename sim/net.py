"""Simulated lossy network and remote procedure calls on the scheduler's virtual clock."""
from .core import HarnessError
from . import sched as S


class RpcError(Exception):
    """A remote call failed for good: no answer in time, or the server refused it."""


class RpcTimeout(RpcError, TimeoutError):
    pass


class RpcRefused(RpcError, ConnectionError):
    pass


class RpcMissing(RpcError, KeyError):
    pass


class RpcValue(RpcError, ValueError):
    pass


class RpcAttr(RpcError, AttributeError):
    pass


class Net:
    """conf: loss, dup (probabilities), delay [lo, hi], parts [[client, start, end], ...], stalls [[start, end], ...]"""

    def __init__(self, sched, run, rng, conf):
        self.sched, self.run, self.rng, self.conf = sched, run, rng, conf
        self.off = False  # faults have stopped

    def cut(self, client):
        return any((c == client or c == -1) and a <= self.sched.now < b for c, a, b in self.conf.get("parts", ()))

    def send(self, client, fn):
        """Deliver fn() zero, one or two times after a delay."""
        c = self.conf
        if not self.off:
            if self.cut(client):
                self.run.fault("partition_drop")
                return
            if self.rng.random() < c.get("loss", 0):
                self.run.fault("message_lost")
                return
        n = 1
        if not self.off and self.rng.random() < c.get("dup", 0):
            self.run.fault("message_duplicated")
            n = 2
        for _ in range(n):
            lo, hi = c.get("delay", [0.01, 0.01])
            d = lo + (hi - lo) * self.rng.random()
            if not self.off:
                for a, b in c.get("stalls", ()):
                    if a <= self.sched.now < b:
                        d += b - self.sched.now
                        self.run.fault("slow_server")
                        break
            self.sched.after(d, fn)


class Server:
    """Executes each request once; duplicates get the recorded answer."""

    def __init__(self, net, run, rng, handle, errors=0.0):
        self.net, self.run, self.rng, self.handle, self.errors = net, run, rng, handle, errors
        self.answers = {}

    def receive(self, client, rid, req, reply):
        key = (client, rid)
        if key in self.answers:
            self.run.probe("duplicate_request_seen")
        else:
            if not self.net.off and self.rng.random() < self.errors:
                self.run.fault("server_error")
                self.answers[key] = ("error", "server error")
            else:
                self.answers[key] = ("ok", self.handle(client, req))
        ans = self.answers[key]
        self.net.send(client, lambda: reply(rid, ans))


ERRORS = [RpcError, RpcRefused, RpcMissing, RpcValue, RpcTimeout, RpcAttr]


class Client:
    def __init__(self, sched, net, server, run, name, timeout=1.0, attempts=4):
        self.sched, self.net, self.server, self.run, self.name = sched, net, server, run, name
        self.timeout, self.attempts = timeout, attempts
        self.rid = 0
        self.replies = {}

    def _reply(self, rid, ans):
        if rid in self.replies and self.replies[rid] is None:
            self.replies[rid] = ans

    def call(self, req):
        if S.current() is None:
            raise HarnessError("remote call outside a simulated thread")
        self.rid += 1
        rid = self.rid
        self.replies[rid] = None
        attempt = 0
        while attempt < self.attempts or self.net.off:
            attempt += 1
            if attempt > 1:
                self.run.probe("rpc_retries")
            self.net.send(self.name, lambda: self.server.receive(self.name, rid, req, self._reply))
            late = []
            self.sched.after(self.timeout, lambda: late.append(1))
            self.sched.block_until(lambda: late or self.replies[rid] is not None)
            if self.replies[rid] is not None:
                kind, val = self.replies.pop(rid)
                if kind == "error":
                    raise ERRORS[rid % len(ERRORS)](val)
                return val
        self.replies.pop(rid)
        self.run.probe("rpc_timeouts")
        raise (RpcTimeout if rid % 2 else RpcError)("no answer")
