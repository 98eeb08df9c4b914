"""Interception points inside the library, through ``sys.monitoring``.

Only code objects of the library are instrumented.  Three jobs share the
callback: counting points, scheduling threads, raising injected interrupts.
"""
import gc
import sys
import types

from . import sched

mon = sys.monitoring
EV = mon.events
TOOL = 3
CODES = []
CODE_ID = {}
MODE = None

# At these events CPython itself checks for pending signals and for requests
# to give up the interpreter lock: function entry, return from a C call and
# backward jumps.
BREAKER = EV.PY_START | EV.CALL | EV.JUMP | EV.PY_RESUME
MODES = {
    'off': 0,
    'call': BREAKER,
    'line': BREAKER | EV.LINE,
    'instr': BREAKER | EV.INSTRUCTION,
}

HOOK = None        # callable(kind, code, offset) or None


def _cb1(kind):
    def cb(code, off, *rest):
        h = HOOK
        if h is not None:
            h(kind, code, off)
    return cb


def _jump(code, off, dest):
    h = HOOK
    if h is not None and dest <= off:
        h('J', code, off)


def _line(code, line):
    # told apart from offsets by the sign
    h = HOOK
    if h is not None:
        h('L', code, -line)


def _call(code, off, fn, arg0):
    pass


def install(src):
    global CODES
    seen = set()

    def add(code):
        if code in seen:
            return
        seen.add(code)
        CODES.append(code)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                add(c)

    for o in gc.get_objects():
        if isinstance(o, types.FunctionType) \
                and o.__code__.co_filename.startswith(src):
            add(o.__code__)
    CODES.sort(key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))
    for i, c in enumerate(CODES):
        CODE_ID[c] = i
    mon.use_tool_id(TOOL, 'dst')
    mon.register_callback(TOOL, EV.PY_START, _cb1('S'))
    mon.register_callback(TOOL, EV.PY_RESUME, _cb1('S'))
    mon.register_callback(TOOL, EV.C_RETURN, _cb1('R'))
    mon.register_callback(TOOL, EV.C_RAISE, None)
    mon.register_callback(TOOL, EV.CALL, _call)
    mon.register_callback(TOOL, EV.JUMP, _jump)
    mon.register_callback(TOOL, EV.LINE, _line)
    mon.register_callback(TOOL, EV.INSTRUCTION, _cb1('I'))


def set_mode(mode):
    global MODE
    if mode == MODE:
        return
    for c in CODES:
        mon.set_local_events(TOOL, c, MODES[mode])
    MODE = mode


def where(code, off):
    """file:line of an instruction"""
    line = max(0, -off)
    for start, end, ln in code.co_lines():
        if start <= off < end:
            line = ln
            break
    return f'{code.co_filename.rsplit("/", 1)[-1]}:{line}({code.co_qualname})'
