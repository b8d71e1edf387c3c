"""Execution points inside the code under test.

sys.monitoring reports calls and lines of melodist's own code objects, and of
nothing else. A callback may raise (an injected failure of the callee) or block
(the scheduler hands the processor to another simulated thread).
"""
import sys
import types

from . import core

_TOOL = 4
_mon = sys.monitoring
_codes = None


def _collect():
    global _codes
    if _codes is not None:
        return _codes
    seen = {}

    def walk(code):
        if code.co_filename.startswith(core.PKG) and id(code) not in seen:
            seen[id(code)] = code
            for c in code.co_consts:
                if isinstance(c, types.CodeType):
                    walk(c)

    def visit(obj, depth=0):
        if isinstance(obj, types.FunctionType):
            walk(obj.__code__)
            for c in obj.__closure__ or ():
                try:
                    visit(c.cell_contents, depth + 1)
                except ValueError:
                    pass
            if hasattr(obj, '__wrapped__'):
                visit(obj.__wrapped__, depth + 1)
        elif isinstance(obj, (classmethod, staticmethod)):
            visit(obj.__func__, depth)
        elif isinstance(obj, property):
            for f in (obj.fget, obj.fset, obj.fdel):
                if f is not None:
                    visit(f, depth)
        elif isinstance(obj, type) and depth < 3:
            if (sys.modules.get(obj.__module__) is not None) and obj.__module__.startswith('melodist'):
                for v in list(vars(obj).values()):
                    visit(v, depth + 1)
        elif hasattr(obj, '__wrapped__') and depth < 3:  # lru_cache and friends
            visit(obj.__wrapped__, depth + 1)

    for name, mod in sorted(sys.modules.items()):
        if (name == 'melodist' or name.startswith('melodist.')) and mod is not None:
            for v in list(vars(mod).values()):
                visit(v)
    _codes = list(seen.values())
    return _codes


def install(on_call=None, on_line=None):
    """on_call(code, offset, callee) before each call; on_line(code, line)."""
    events = 0
    if _mon.get_tool(_TOOL) is None:
        _mon.use_tool_id(_TOOL, 'sim')
    E = _mon.events
    if on_call is not None:
        events |= E.CALL
        _mon.register_callback(
            _TOOL, E.CALL, lambda code, off, fn, arg0: on_call(code, off, fn)
        )
    if on_line is not None:
        events |= E.LINE
        _mon.register_callback(_TOOL, E.LINE, lambda code, line: on_line(code, line))
    for code in _collect():
        _mon.set_local_events(_TOOL, code, events)


def uninstall():
    for code in _collect():
        _mon.set_local_events(_TOOL, code, 0)
    _mon.register_callback(_TOOL, _mon.events.CALL, None)
    _mon.register_callback(_TOOL, _mon.events.LINE, None)
    _mon.free_tool_id(_TOOL)


class CallFault:
    """Counts outgoing calls of melodist code and fails chosen ones."""

    def __init__(self):
        self.sites = []
        self.record = False
        self.nth = None
        self.exc = None
        self.count = 0
        self.fired = None

    def __call__(self, code, offset, fn):
        n = self.count
        self.count += 1
        if self.record:
            self.sites.append((code.co_qualname, offset))
        if self.nth is not None and n == self.nth:
            self.nth = None
            self.fired = '%s -> %s' % (code.co_qualname, getattr(fn, '__name__', type(fn).__name__))
            raise self.exc


class LineFault:
    """Counts lines of melodist code and interrupts before a chosen one."""

    def __init__(self):
        self.sites = []
        self.record = False
        self.nth = None
        self.exc = None
        self.count = 0
        self.fired = None

    def __call__(self, code, line):
        n = self.count
        self.count += 1
        if self.record:
            self.sites.append((code.co_qualname, line - code.co_firstlineno))
        if self.nth is not None and n == self.nth:
            self.nth = None
            self.fired = '%s, line %d' % (code.co_qualname, line)
            raise self.exc
