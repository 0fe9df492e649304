"""A stateless explorer: enumerates every sequence of choices a scenario can make, exactly once.

A scenario is a function `scenario(ch, ctx)`. It runs the real code and asks `ch` whenever something is open: which
input, which operation next, does this interaction fail, who runs next. The explorer re-executes the scenario for
every choice sequence (default choice 0 first), so the number of executions is the number of distinct complete
behaviours within the scenario's own bounds. Nothing is sampled.
"""
import hashlib
import multiprocessing
import os
import signal
import sys
import time
import traceback

WORKERS = int(os.environ.get("VF_WORKERS", "8"))


class Violation(Exception):
    """The property does not hold on the current execution."""

    def __init__(self, message, sig=None):
        super().__init__(message)
        self.message = message
        self.sig = sig


class Pruned(Exception):
    """The rest of this execution was already explored from an equal state."""


class Divergence(Exception):
    """A replayed prefix did not offer the recorded choice again: some nondeterminism is not controlled."""


class Watchdog(BaseException):
    pass


def _alarm(_sig, _frm):
    raise Watchdog()


class Chooser:
    def __init__(self, prefix=(), labels=False):
        self.prefix = list(prefix)
        self.trace = []
        self.sizes = []
        self.labels = [] if labels else None

    def choose(self, n, label=""):
        i = len(self.trace)
        if n <= 0:
            raise AssertionError("nothing to choose from")
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise Divergence(f"choice {c} of {n} at {i} ({label})")
        else:
            c = 0
        self.trace.append(c)
        self.sizes.append(n)
        if self.labels is not None:
            self.labels.append(f"{label}#{c}/{n}")
        return c

    def pick(self, options, label=""):
        options = list(options)
        c = self.choose(len(options), label)
        if self.labels is not None:
            self.labels[-1] = f"{label}={options[c]!r}"
        return options[c]

    def flag(self, label=""):
        return bool(self.pick((False, True), label))

    @property
    def replaying(self):
        return len(self.trace) < len(self.prefix)


class Ctx:
    """Counts what an exploration covers. One per worker, merged at the end."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.executions = 0
        self.pruned = 0
        self.outcomes = {}
        self.counters = {}
        self.known = {}
        self.violation = None
        self.divergences = 0
        self.samples = []
        self.seen = {}
        self.note = None
        self._first_new = 0

    def state(self, obj):
        h = int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big")
        self.states.add(h)
        return h

    def step(self, n=1):
        self.transitions += n

    def outcome(self, key):
        self.outcomes[key] = self.outcomes.get(key, 0) + 1

    def count(self, key, n=1):
        self.counters[key] = self.counters.get(key, 0) + n

    def prune(self, ch, key, remaining):
        """Stop here if a state with an equal key was explored with at least as many steps left."""
        if ch.replaying:
            return
        h = hashlib.blake2b(repr(key).encode(), digest_size=16).digest()
        if self.seen.get(h, -1) >= remaining:
            raise Pruned()
        self.seen[h] = remaining

    def merge(self, other):
        self.states |= other.states
        self.transitions += other.transitions
        self.executions += other.executions
        self.pruned += other.pruned
        self.divergences += other.divergences
        for mine, theirs in ((self.outcomes, other.outcomes), (self.counters, other.counters)):
            for k, v in theirs.items():
                mine[k] = mine.get(k, 0) + v
        for k, v in other.known.items():
            self.known.setdefault(k, v)
        if self.violation is None:
            self.violation = other.violation
        self.samples = (self.samples + other.samples)[:6]


def run_path(scenario, prefix, ctx, known, labels=False, limit_s=120):
    """One execution. Returns the chooser; records a violation in ctx."""
    ch = Chooser(prefix, labels)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit_s)
    failure = None
    try:
        try:
            scenario(ch, ctx)
        finally:
            signal.alarm(0)
    except Pruned:
        ctx.pruned += 1
    except Divergence as e:
        ctx.divergences += 1
        ch.sizes = ch.sizes[:0]
        ch.trace = ch.trace[:0]
        if os.environ.get("VF_DEBUG"):
            print("DIVERGENCE", e, file=sys.stderr)
        return ch, None
    except Violation as e:
        failure = (e.message, e.sig)
    except Watchdog:
        failure = (f"an operation did not terminate within {limit_s} s", None)
    except RecursionError:
        failure = ("unbounded recursion", None)
    except Exception:  # the code under test handed back something no correct implementation can
        failure = ("unexpected behaviour:\n" + traceback.format_exc(), None)
    ctx.executions += 1
    if failure is not None:
        message, sig = failure
        if sig is not None and sig in known:
            ctx.known.setdefault(sig, list(ch.trace))
        elif ctx.violation is None:
            ctx.violation = {"message": message, "sig": sig, "choices": list(ch.trace)}
    elif len(ctx.samples) < 2 and not labels:
        ctx.samples.append(list(ch.trace))
    return ch, failure


def children(ch, start):
    out = []
    for i in range(start, len(ch.trace)):
        for alt in range(1, ch.sizes[i]):
            out.append(ch.trace[:i] + [alt])
    return out


def _subtree(args):
    scenario, prefix, known, deadline = args
    ctx = Ctx()
    stack = [prefix]
    while stack:
        if time.time() > deadline:
            ctx.count("cut_short")
            break
        p = stack.pop()
        ch, _ = run_path(scenario, p, ctx, known)
        if ctx.violation is not None:
            break
        stack.extend(reversed(children(ch, len(p))))
    ctx.seen = {}
    return ctx


_JOB = {}


def _job(i):
    return _subtree(_JOB["args"][i])


def explore(scenario, known=frozenset(), workers=None, split=None, deadline_s=780):
    """Run every execution of `scenario`. Stops at the first violation whose signature is not known."""
    workers = WORKERS if workers is None else workers
    split = split or getattr(scenario, "split", 200)
    deadline = time.time() + deadline_s
    ctx = Ctx()
    frontier = [[]]
    # Expand breadth first until there is enough independent work for the workers.
    while frontier and len(frontier) < split and ctx.executions < 2 * split:
        p = frontier.pop(0)
        ch, _ = run_path(scenario, p, ctx, known)
        if ctx.violation is not None:
            return ctx
        frontier.extend(children(ch, len(p)))
    ctx.seen = {}
    if not frontier:
        return ctx
    _JOB["args"] = [(scenario, p, known, deadline) for p in frontier]
    if workers <= 1:
        for i in range(len(frontier)):
            ctx.merge(_job(i))
            if ctx.violation is not None:
                return ctx
        return ctx
    mp = multiprocessing.get_context("fork")
    with mp.Pool(workers) as pool:
        for part in pool.imap_unordered(_job, range(len(frontier)), chunksize=1):
            ctx.merge(part)
            if ctx.violation is not None:
                pool.terminate()
                break
    return ctx
