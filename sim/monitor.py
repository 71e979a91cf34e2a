"""Event hooks on the library's code objects (sys.monitoring)."""
import gc
import sys
import types

TOOL = 3
QNET_PREFIX = '/repo/src/qnet/'
_codes = None


def sympy_printing_codes():
    """code objects of the printers that those of qnet inherit from"""
    global _sympy
    if _sympy is None:
        import os
        import sympy
        d = os.path.join(os.path.dirname(sympy.__file__), 'printing')
        _sympy = _find(tuple(
            os.path.join(d, n + '.py')
            for n in ('printer', 'str', 'latex', 'repr')))
    return _sympy


_sympy = None


def qnet_codes():
    """every code object defined in qnet, outermost first"""
    global _codes
    if _codes is None:
        _codes = _find(QNET_PREFIX)
    return _codes


def _find(prefix):
    seen = {}

    def add(code):
        if code in seen_ids:
            return
        seen_ids.add(code)
        seen[id(code)] = code
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                add(c)
    seen_ids = set()
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            if o.__code__.co_filename.startswith(prefix):
                add(o.__code__)
    res = list(seen.values())
    res.sort(key=lambda c: (c.co_filename, c.co_firstlineno, c.co_name))
    return res


class Events:
    """subscribe callbacks for events in qnet code"""

    def __init__(self, exclude=()):
        self.exclude = exclude
        self.mon = sys.monitoring
        self.on = False

    def start(self, handlers, only=None, extra=()):
        mon = self.mon
        mon.use_tool_id(TOOL, 'qnetsim')
        mask = 0
        for ev, fn in handlers.items():
            mon.register_callback(TOOL, ev, fn)
            mask |= ev
        self.codes = [c for c in qnet_codes()
                      if (c.co_filename[len(QNET_PREFIX):], c.co_name)
                      not in self.exclude
                      and (only is None or only(c))] + list(extra)
        self.handlers = handlers
        for c in self.codes:
            mon.set_local_events(TOOL, c, mask)
        self.on = True

    def stop(self):
        if not self.on:
            return
        mon = self.mon
        for c in self.codes:
            mon.set_local_events(TOOL, c, 0)
        for ev in self.handlers:
            mon.register_callback(TOOL, ev, None)
        mon.free_tool_id(TOOL)
        self.on = False


class Coverage:
    """append the lines of the library that were executed to a file"""
    tool = 4

    def __init__(self, directory):
        self.dir = directory

    def __enter__(self):
        mon = sys.monitoring
        self.lines = set()

        def hit(code, line):
            self.lines.add((code.co_filename[len(QNET_PREFIX):], line))
            return mon.DISABLE
        mon.use_tool_id(self.tool, 'cover')
        mon.register_callback(self.tool, mon.events.LINE, hit)
        for c in qnet_codes():
            mon.set_local_events(self.tool, c, mon.events.LINE)

    def __exit__(self, *exc):
        import os
        with open(os.path.join(self.dir, '%d' % (os.getpid() % 64)),
                  'a') as f:
            f.write(''.join('%s:%d\n' % x for x in self.lines))
