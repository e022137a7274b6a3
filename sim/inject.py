"""Faults from the host: exceptions at chosen instants inside the library, clocks and progress output under control."""

import dis
import errno

from . import points

# instructions at which the interpreter can really deliver an interrupt or run out of memory
OPS = {"CALL", "CALL_FUNCTION_EX", "CALL_KW", "JUMP_BACKWARD", "BINARY_OP", "BINARY_SUBSCR", "STORE_SUBSCR", "STORE_ATTR",
       "LOAD_ATTR", "FOR_ITER", "COMPARE_OP", "BUILD_LIST", "BUILD_TUPLE", "BUILD_MAP", "BUILD_SET", "LIST_APPEND",
       "BUILD_STRING", "LIST_EXTEND", "MAP_ADD", "SET_ADD", "BINARY_SLICE", "STORE_SLICE"}
_allowed = {}


def allowed(code):
    """Offsets of such instructions, except those that belong to leaving a with block or handling an exception:
    no Python code can protect itself there."""
    got = _allowed.get(code)
    if got is None:
        ins = list(dis.get_instructions(code))
        got = set()
        for i, x in enumerate(ins):
            if x.opname not in OPS:
                continue
            if x.opname == "CALL" and i >= 3 and all(y.opname == "LOAD_CONST" and y.argval is None
                                                     for y in ins[i - 3:i]):
                continue
            got.add(x.offset)
        # cleanup code: everything from PUSH_EXC_INFO up to the end of that handler region is left alone
        skip = False
        for x in ins:
            if x.opname == "PUSH_EXC_INFO":
                skip = True
            if skip:
                got.discard(x.offset)
            if x.opname in ("POP_EXCEPT", "RERAISE"):
                skip = False
        _allowed[code] = got
    return got


_writes = {}


def attribute_writes(code):
    got = _writes.get(code)
    if got is None:
        got = _writes[code] = {x.offset for x in dis.get_instructions(code) if x.opname == "STORE_ATTR"}
    return got


class Instants:
    """Counts the instants of an operation (at None), or raises at the n-th.

    A counting pass also remembers, in order of first execution, every distinct place (with the counts of its first,
    second and last passage) and the instants that follow writes to attributes."""

    def __init__(self, at=None, exc=KeyboardInterrupt):
        self.at, self.exc, self.count, self.where = at, exc, 0, None
        self.places, self.writes = {}, []

    def __call__(self, code, offset):
        if offset not in allowed(code):
            return
        self.count += 1
        if self.at is None:
            got = self.places.get((code, offset))
            if got is None:
                self.places[(code, offset)] = [self.count] * 3
                if offset in attribute_writes(code):
                    self.writes.append(self.count)
            else:
                if got[1] == got[0]:
                    got[1] = self.count
                got[2] = self.count
        elif self.count == self.at:
            self.where = f"{code.co_qualname}+{offset}"
            raise self.exc("injected")

    def __enter__(self):
        points.install(self, fine=True)
        return self

    def __exit__(self, *exc):
        points.remove()


class Clock:
    """The clock progress bars look at."""

    def __init__(self, style, seed):
        import random

        self.style, self.rng, self.t, self.calls = style, random.Random(seed), 1000.0, 0

    def __call__(self):
        self.calls += 1
        s = self.style
        if s == "jumping":
            self.t += self.rng.choice([0.01, 3.0, 60.0, 86400.0])
        elif s == "backwards":
            self.t += self.rng.choice([5.0, -4.0, -100.0, 200.0])
        elif s == "slow":
            self.t += 2.6
        elif s == "stalled":
            self.t += 1e6 if self.calls % 7 == 0 else 0.0
        elif s == "nan":
            return float("nan")
        return self.t  # "frozen": as is


class Stream:
    """The stream progress bars are written to."""

    encoding = "utf-8"

    def __init__(self, mode, first, clock):
        self.mode, self.first, self.clock, self.writes, self.fired = mode, first, clock, 0, 0

    def _maybe(self, op):
        if op == "write":
            self.writes += 1
        if self.mode == "ok" or self.writes < self.first:
            return
        if self.mode == "flush" and op != "flush":
            return
        if self.mode == "slow":
            self.clock.t += 30.0
            return
        self.fired += 1
        if self.mode in ("epipe", "flush"):
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        if self.mode == "enospc":
            raise OSError(errno.ENOSPC, "No space left on device")
        if self.mode == "eio":
            raise OSError(errno.EIO, "Input/output error")
        if self.mode == "closed":
            raise ValueError("I/O operation on closed file")
        if self.mode == "encode":
            raise UnicodeEncodeError("ascii", "x", 0, 1, "ordinal not in range")

    def write(self, s):
        self._maybe("write")
        return len(s)

    def flush(self):
        self._maybe("flush")

    def isatty(self):
        return False
