"""A second simulation process with another environment (hash seed, allocator fill pattern).

Runs functions `props.<mod>:<func>(case)` on request and sends back the pickled result."""
import os
import pickle
import struct
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def read(f, n):
    out = b""
    while len(out) < n:
        b = f.read(n - len(out))
        if not b:
            raise EOFError("the other process ended")
        out += b
    return out


def send(f, obj):
    data = pickle.dumps(obj)
    f.write(struct.pack("<Q", len(data)) + data)
    f.flush()


def recv(f):
    return pickle.loads(read(f, struct.unpack("<Q", read(f, 8))[0]))


class Child:
    def __init__(self, env):
        e = {**os.environ, **env}
        self.p = subprocess.Popen([sys.executable, "-m", "sim.child"], cwd=HERE, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def call(self, mod, func, *args, fresh=False):
        """`fresh`: `args` are argument tuples; each call runs in a fork of this process, which itself never runs any."""
        send(self.p.stdin, (mod, func, args, fresh))
        return recv(self.p.stdout)

    def close(self):
        self.p.kill()
        self.p.wait()


def forked(fn, args):
    from sim import core
    rd, wr = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(rd)
            try:
                res = ("ok", fn(*args))
            except core.Violation as v:
                res = ("violation", v.msg)
            except BaseException as e:
                res = ("error", f"{type(e).__name__}: {e}\n" + core.fmt_exc(e))
            with os.fdopen(wr, "wb") as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("error", "the process died")


def main():
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    inp = sys.stdin.buffer
    from sim import worker
    loaded = {}
    while True:
        try:
            mod, func, args, fresh = recv(inp)
        except EOFError:
            os._exit(0)
        if mod not in loaded:
            loaded[mod] = worker.load(mod)
        if fresh:
            send(out, [forked(getattr(loaded[mod], func), a) for a in args])
            continue
        try:
            res = ("ok", getattr(loaded[mod], func)(*args))
        except Exception as e:
            from sim import core
            res = ("error", f"{type(e).__name__}: {e}\n" + core.fmt_exc(e))
        send(out, res)


if __name__ == "__main__":
    main()
