"""Logical step counting of library code (sys.monitoring): function starts,
generator resumptions and backward jumps, plus the deepest Python call depth.

Verdicts about termination and work are taken on these counts, never on wall
time."""
import sys

mon = sys.monitoring
TOOLS = (3, 4)


class StepLimit(BaseException):
    pass


class Steps:
    """with Steps(limit) as s: ...; s.n steps were executed in code whose file
    name starts with one of ``roots`` (library and, if asked, user code)."""

    def __init__(self, limit, roots=None, depth=False):
        from .env import SRC
        self.limit = limit
        self.roots = tuple(roots or (SRC,))
        self.n = 0
        self.depth = depth
        self.max_depth = 0
        self.base = 0

    def __enter__(self):
        E = mon.events
        # a second one counts inside the first
        TOOL = TOOLS[mon.get_tool(TOOLS[0]) is not None]
        mon.use_tool_id(TOOL, "steps")
        self.tool = TOOL
        f = sys._getframe(1)
        while f is not None:
            self.base += 1
            f = f.f_back

        def hit(code, *_):
            if not code.co_filename.startswith(self.roots):
                return mon.DISABLE
            self.n += 1
            if self.n > self.limit:
                raise StepLimit()

        def start(code, off):
            if not code.co_filename.startswith(self.roots):
                return mon.DISABLE
            self.n += 1
            if self.depth:
                d = 0
                f = sys._getframe(1)
                while f is not None:
                    d += 1
                    f = f.f_back
                d -= self.base
                if d > self.max_depth:
                    self.max_depth = d
            if self.n > self.limit:
                raise StepLimit()

        mon.register_callback(TOOL, E.PY_START, start)
        mon.register_callback(TOOL, E.PY_RESUME, start)
        mon.register_callback(TOOL, E.JUMP, hit)
        mon.restart_events()
        mon.set_events(TOOL, E.PY_START | E.PY_RESUME | E.JUMP)
        return self

    def __exit__(self, *a):
        TOOL = self.tool
        mon.set_events(TOOL, 0)
        for e in (mon.events.PY_START, mon.events.PY_RESUME,
                  mon.events.JUMP):
            mon.register_callback(TOOL, e, None)
        mon.free_tool_id(TOOL)
        return False


class Interrupt:
    """with Interrupt(k, exc) as i: ...; raises exc() at the k-th line of
    library code that is executed (never if k is 0); i.n counts the lines."""

    def __init__(self, k, exc):
        self.k = k
        self.exc = exc
        self.n = 0

    def __enter__(self):
        from .env import SRC
        E = mon.events
        TOOL = self.tool = TOOLS[mon.get_tool(TOOLS[0]) is not None]
        mon.use_tool_id(TOOL, "interrupt")

        def line(code, no):
            if not code.co_filename.startswith(SRC):
                return mon.DISABLE
            self.n += 1
            if self.n == self.k:
                raise self.exc()

        mon.register_callback(TOOL, E.LINE, line)
        mon.restart_events()
        mon.set_events(TOOL, E.LINE)
        return self

    def __exit__(self, *a):
        mon.set_events(self.tool, 0)
        mon.register_callback(self.tool, mon.events.LINE, None)
        mon.free_tool_id(self.tool)
        return False
