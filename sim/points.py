"""Scheduling and injection points: the lines (or bytecodes) of the library, reported by the interpreter's monitor."""

import gc
import sys
import types

CODES = []  # every code object of the library, collected in the pristine image
HOST = []  # code it runs in its callers' threads and whose state all of them share: progress bars, weak sets
TOOL = 4
mon = sys.monitoring


def collect(prefix, into=None):
    seen = set()
    into = CODES if into is None else into

    def walk(code):
        if code in seen:
            return
        seen.add(code)
        if code.co_filename.startswith(prefix):
            into.append(code)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                walk(c)

    for o in gc.get_objects():
        if isinstance(o, types.FunctionType) and o.__code__.co_filename.startswith(prefix):
            walk(o.__code__)
    into.sort(key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))


def install(callback, fine=False, host=False):
    """callback(code, where) runs before every line (or bytecode, if fine) of the library (and, if host, before every line
    of the host code it shares between threads), in any thread.
    It may raise: the exception then appears in the library at that point."""
    mon.use_tool_id(TOOL, "sim")
    ev = mon.events.INSTRUCTION if fine else mon.events.LINE
    mon.register_callback(TOOL, ev, callback)
    for c in CODES:
        mon.set_local_events(TOOL, c, ev)
    if host:
        mon.register_callback(TOOL, mon.events.LINE, callback)
        for c in HOST:
            mon.set_local_events(TOOL, c, mon.events.LINE)


def remove():
    for c in CODES + HOST:
        mon.set_local_events(TOOL, c, 0)
    mon.register_callback(TOOL, mon.events.INSTRUCTION, None)
    mon.register_callback(TOOL, mon.events.LINE, None)
    mon.free_tool_id(TOOL)
