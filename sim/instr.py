"""Instruction-level hook on the code under test (sys.monitoring), the seam for preemption and for injected
exceptions.  Only code objects whose file lies under /repo/thinc are instrumented; the harness, numpy, torch and
compiled extensions run without interruption."""
import gc
import sys
import types
from _thread import get_ident

from .core import THINC

_TOOL = 3
_by_ident = {}  # thread ident -> object with .count, .next_stop, .stop(code, offset)
_on = False


def _callback(code, offset):
    t = _by_ident.get(get_ident())
    if t is None:
        return
    t.count += 1
    if t.count >= t.next_stop:
        t.stop(code, offset)


def _collect(code, seen):
    if code in seen or not code.co_filename.startswith(THINC):
        return
    seen[code] = True
    for const in code.co_consts:
        if isinstance(const, types.CodeType):
            _collect(const, seen)


def thinc_codes():
    seen = {}
    for obj in gc.get_objects():
        if isinstance(obj, types.FunctionType):
            _collect(obj.__code__, seen)
    return [c for c in seen if "/tests/" not in c.co_filename]


def enable():
    """Instrument everything that is imported now.  Idempotent."""
    global _on
    if _on:
        return
    mon = sys.monitoring
    mon.use_tool_id(_TOOL, "thinc-sim")
    mon.register_callback(_TOOL, mon.events.INSTRUCTION, _callback)
    codes = thinc_codes()
    for c in codes:
        mon.set_local_events(_TOOL, c, mon.events.INSTRUCTION)
    _on = True
    return len(codes)


def register(obj):
    _by_ident[get_ident()] = obj


def unregister():
    _by_ident.pop(get_ident(), None)


NEVER = 1 << 60


class Counter:
    """Counts the instructions of the code under test that the calling thread executes inside the block."""

    def __init__(self):
        self.count = 0
        self.next_stop = NEVER

    def stop(self, code, offset):  # pragma: no cover
        pass

    def __enter__(self):
        register(self)
        return self

    def __exit__(self, *exc):
        unregister()
        return False


class RaiseAt(Counter):
    """Raises `exc` once, when the n-th instruction is about to execute."""

    def __init__(self, n, exc):
        super().__init__()
        self.next_stop = max(1, n)
        self.exc = exc
        self.fired = None

    def stop(self, code, offset):
        self.next_stop = NEVER
        self.fired = (code.co_qualname, offset)
        raise self.exc


_FAIL = {"CALL", "CALL_FUNCTION_EX", "BINARY_OP", "BINARY_SUBSCR", "BINARY_SLICE", "STORE_SUBSCR", "LOAD_ATTR", "GET_ITER", "FOR_ITER",
         "RESUME", "JUMP_BACKWARD", "COMPARE_OP", "CONTAINS_OP", "UNPACK_SEQUENCE", "BUILD_LIST", "BUILD_TUPLE", "BUILD_MAP",
         "LIST_EXTEND", "LIST_APPEND", "MAKE_FUNCTION", "SEND", "MAP_ADD", "FORMAT_VALUE", "BUILD_STRING"}
_points = {}


def fail_points(code):
    """Offsets of the instructions at which Python can raise (failed allocation, interrupt, failing callee).

    The implicit call of __exit__ at the regular end of a with block is left out: nothing can fail just before it."""
    pts = _points.get(code)
    if pts is None:
        import dis
        pts, prev = set(), []
        for ins in dis.get_instructions(code):
            if ins.opname in _FAIL:
                none3 = len(prev) >= 3 and all(p.opname == "LOAD_CONST" and p.argval is None for p in prev[-3:])
                if not (ins.opname == "CALL" and ins.arg == 2 and none3):
                    pts.add(ins.offset)
            prev.append(ins)
        _points[code] = pts
    return pts


class FailAt(RaiseAt):
    """As RaiseAt, at the first instruction from the n-th on that can fail in reality."""

    def stop(self, code, offset):
        if offset not in fail_points(code):
            return
        self.next_stop = NEVER
        self.fired = (code.co_qualname, offset)
        raise self.exc
