"""Global state a library could disturb, as a comparable snapshot; and what an
audit hook saw while it was watching."""
import _signal
import abc
import atexit
import collections
import contextvars
import copyreg
import decimal
import faulthandler
import functools
import gc
import io
import itertools
import locale
import logging
import operator
import os
import random
import re
import resource
import signal
import sys
import threading
import tracemalloc
import typing
import warnings

SEEN = []
_on = [False, None]
_installed = False
# introspection the interpreter does by itself
QUIET = {"object.__getattr__", "object.__setattr__", "object.__delattr__",
         "sys._getframe", "sys._current_frames", "gc.get_objects",
         "builtins.id", "code.__new__", "function.__new__"}


def _hook(name, args):
    if _on[0] and name not in QUIET and \
            threading.get_ident() == _on[1]:
        SEEN.append(name)


def install():
    global _installed
    if not _installed:
        _installed = True
        sys.addaudithook(_hook)


class Logs(logging.Handler):
    def __init__(self):
        super().__init__(1)
        self.seen = []

    def handle(self, record):
        self.seen.append(record.name)


class Watch:
    """Records audit events, output, log records and warnings while it is
    active."""

    def __enter__(self):
        install()
        del SEEN[:]
        self.out = io.StringIO()
        self.old = sys.stdout, sys.stderr
        self.w = warnings.catch_warnings(record=True)
        self.warned = self.w.__enter__()
        warnings.simplefilter("always")
        sys.stdout = sys.stderr = self.out
        self.logs = Logs()
        self.level = logging.root.level
        logging.root.addHandler(self.logs)
        logging.root.setLevel(1)
        _on[1] = threading.get_ident()
        self.before = snapshot()
        _on[0] = True
        return self

    def pause(self):
        _on[0] = False

    def resume(self):
        _on[0] = True

    def __exit__(self, *a):
        _on[0] = False
        after = snapshot()
        sys.stdout, sys.stderr = self.old
        self.w.__exit__(None, None, None)
        logging.root.setLevel(self.level)
        logging.root.removeHandler(self.logs)
        self.events = list(SEEN)
        self.changed = {
            k: (self.before[k], after[k]) for k in after
            if self.before[k] != after[k]}
        return False

    def report(self):
        out = []
        if self.events:
            out.append("audit events: {}".format(self.events[:10]))
        if self.out.getvalue():
            out.append("output: {!r}".format(self.out.getvalue()[:200]))
        if self.logs.seen:
            out.append("log records: {}".format(self.logs.seen[:5]))
        if self.warned:
            out.append("warnings: {}".format(
                [str(w.message) for w in self.warned][:5]))
        if self.changed:
            out.append("changed: {}".format(self.changed)[:500])
        return "; ".join(out)


MODULES = [os, re, typing, functools, itertools, collections, operator,
           collections.abc]
SIGNALS = sorted(signal.valid_signals())


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def snapshot():
    return {
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "gc": (gc.isenabled(), gc.get_threshold(), gc.get_debug(),
               gc.get_freeze_count(), len(gc.callbacks)),
        "random": hash(random.getstate()),
        "warning filters": [f[:4] for f in warnings.filters],
        "threads": threading.active_count(),
        "trace": (id(sys.gettrace()), id(sys.getprofile()),
                  id(threading.gettrace()), id(threading.getprofile())),
        "hooks": (id(sys.excepthook), id(sys.displayhook),
                  id(sys.unraisablehook), id(threading.excepthook)),
        "environment": dict(os.environ),
        "directory": os.getcwd(),
        "umask": umask(),
        "files": len(os.listdir("/proc/self/fd"))
        if os.path.isdir("/proc/self/fd") else 0,
        "locale": locale.setlocale(locale.LC_ALL),
        "signals": [id(_signal.getsignal(s)) for s in SIGNALS],
        "limits": [resource.getrlimit(r) for r in (
            resource.RLIMIT_STACK, resource.RLIMIT_NOFILE,
            resource.RLIMIT_AS, resource.RLIMIT_CPU)],
        "priority": (os.getpriority(os.PRIO_PROCESS, 0),
                     len(os.sched_getaffinity(0))),
        "stack size": threading.stack_size(),
        "debugging": (tracemalloc.is_tracing(), faulthandler.is_enabled(),
                      getattr(sys, "tracebacklimit", None),
                      sys.dont_write_bytecode, hasattr(sys, "ps1")),
        "registries": (abc.get_cache_token(), len(copyreg.dispatch_table)),
        "library": [tuple(map(id, vars(m).values())) for m in MODULES],
        "logging": (logging.root.manager.disable, len(logging.root.handlers),
                    len(logging.root.manager.loggerDict),
                    logging.lastResort is None),
        "timer": signal.getitimer(signal.ITIMER_REAL)[1],
        "streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "modules": len(sys.modules),
        "path": list(sys.path),
        "meta path": len(sys.meta_path),
        "builtins": {k: id(v) for k, v in vars(
            sys.modules["builtins"]).items() if k != "_"},
        "decimal": str(decimal.getcontext()),
        "context": len(contextvars.copy_context()),
        "int digits": getattr(sys, "get_int_max_str_digits", int)(),
        "atexit": atexit._ncallbacks(),
        "children": len(getattr(
            sys.modules.get("subprocess"), "_active", ())),
        "monitoring": [sys.monitoring.get_tool(i) for i in range(6)]
        if hasattr(sys, "monitoring") else None,
        "async hooks": tuple(map(id, sys.get_asyncgen_hooks())),
    }
