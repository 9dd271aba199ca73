"""child.py SEED N: outcomes of N random cases, one JSON line each, for
comparison between interpreters with different settings."""
import json
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main(seed, n, how=()):
    lines = {}
    from vlib.common import (
        Cfg, Input, dense, enlarge, gen_grammar, all_inputs, kinds, observe,
        parse, reference, str_input)
    from vlib.build import build
    from vlib.model import Skip
    from vlib.checks import c10
    from reparsec.lexer import LexError, split_tokens
    import re
    out = []
    order = list(range(n))
    if "reverse" in how:
        order.reverse()
    if "twice" in how:
        order = order + order
    for i in order:
        start = len(out)
        rng = random.Random("{}/{}".format(seed, i))
        if rng.random() < .2:
            g = dense(rng, True)
            inps = [str_input(g, rng.choice(list(all_inputs("abc", 3))))]
        else:
            g = gen_grammar(rng, Cfg(recovery=True,
                                     layout=rng.random() < .3))
            g, take = enlarge(rng, g, .05, None, 300)
            inps = [Input(g, rng, take(fuel=30)) for _ in range(2)]
        log = []

        def event(name, *a):
            log.append(name)
        p = build(g, rng, event)
        for inp in inps:
            for recover in (False, True):
                try:
                    reference(g, inp, recover, 5, None, 4000)
                except Skip:
                    continue
                del log[:]
                o = observe(parse(p, inp.stream, recover, inp.how), recover)
                out.append([repr(g)[:300], repr(inp)[:200], recover, str(o),
                            len(log)])
        try:
            pat, flags, ex = c10.spec(rng)
            sp = re.compile(pat, flags)
        except re.error:
            pass
        else:
            src = c10.source(rng, ex, sp)[:500]
            try:
                o = [(repr(t), t.start, t.end)
                     for t in split_tokens(src, sp)]
            except LexError as e:
                o = str(e)
            out.append([pat, src, repr(o)])
        lines[i] = out[start:]
    if "quiet" in how:
        return
    write("".join(json.dumps(line) + "\n" for i in range(n)
                  for line in lines[i]))


def write(text):
    with open(1, "w", closefd=False) as f:
        f.write(text)


class Everything(dict):
    """An environment in which every variable is set."""

    def __missing__(self, k):
        return "1"

    def get(self, k, d=None):
        return self[k]

    def __contains__(self, k):
        return True


def clocks():
    """Clocks that jump."""
    import time
    now = [1e9]

    def jump():
        now[0] += 86400 * 365.25 / 2
        return now[0]
    for f in ("time", "monotonic", "perf_counter", "process_time",
              "thread_time"):
        setattr(time, f, jump)
        setattr(time, f + "_ns", lambda: int(jump() * 1e9))


def tick():
    """Signals all the time."""
    import atexit
    import signal
    signal.signal(signal.SIGALRM, lambda *a: None)
    signal.setitimer(signal.ITIMER_REAL, .001, .001)
    atexit.register(signal.setitimer, signal.ITIMER_REAL, 0)


def zipped():
    """The library from an archive."""
    import shutil
    import tempfile
    import zipfile
    d = tempfile.mkdtemp()
    repo = os.environ.get("REPARSEC_REPO", "/repo")
    with zipfile.ZipFile(os.path.join(d, "src"), "w") as z:
        src = os.path.join(repo, "src")
        for top, _, files in os.walk(os.path.join(src, "reparsec")):
            for f in files:
                if f.endswith((".py", ".typed")):
                    x = os.path.join(top, f)
                    z.write(x, os.path.relpath(x, src))
    os.environ["REPARSEC_REPO"] = d
    import vlib.env as e
    assert type(e.reparsec.__loader__).__name__ == "zipimporter"
    os.environ["REPARSEC_REPO"] = repo
    shutil.rmtree(d)


def trace(frame, event, arg):
    return trace


def sub(seed, n):
    """In a subinterpreter."""
    import _xxsubinterpreters as x
    i = x.create(isolated=False)
    x.run_string(i, "import sys; sys.path[:0] = [{!r}, {!r}]\n"
                 "from vlib.child import main; main({!r}, {!r})".format(
                     os.path.dirname(os.path.dirname(os.path.abspath(
                         __file__))), sys.path[1], seed, n))
    x.destroy(i)


async def amain(seed, n):
    main(seed, n)


if __name__ == "__main__":
    import gc
    how = sys.argv[3:]
    args = sys.argv[1], int(sys.argv[2])
    if "nogc" in how:
        gc.disable()
    if "gc" in how:
        gc.set_threshold(3, 2, 2)
    if "deep" in how:
        sys.setrecursionlimit(20000)
    if "trace" in how:
        sys.settrace(trace)
    if "profile" in how:
        sys.setprofile(lambda *a: None)
    if "random" in how:
        random.seed(os.urandom(8))
    if "environment" in how:
        os.environ = os.environb = Everything(os.environ)
        os.getenv = os.getenvb = os.environ.get
    if "clocks" in how:
        clocks()
    if "digits" in how:
        sys.set_int_max_str_digits(640)
    if "streams" in how:
        sys.stdin = sys.stdout = sys.stderr = None
    if "argv" in how:
        del sys.argv[:]
    if "signals" in how:
        tick()
    if "archive" in how:
        zipped()
    if "monitoring" in how:
        mo = sys.monitoring
        mo.use_tool_id(3, "x")
        mo.register_callback(3, mo.events.PY_START, lambda *a: None)
        mo.set_events(3, mo.events.PY_START)
    if "thread" in how:
        import threading
        threading.stack_size(256 << 20)
        t = threading.Thread(target=main, args=args)
        t.start()
        t.join()
    elif "sub" in how:
        sub(*args)
    elif "async" in how:
        import asyncio
        asyncio.run(amain(*args))
    elif "context" in how:
        import contextvars
        contextvars.copy_context().run(main, *args)
    elif "fork" in how:
        main("0", 5, ["quiet"])
        pid = os.fork()
        if not pid:
            main(*args)
            os._exit(0)
        os.waitpid(pid, 0)
    else:
        main(*args, how)
