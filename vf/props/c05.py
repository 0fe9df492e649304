"""C05: every delivered message decrypts, under any order, loss, repetition, restart."""
from ..duo import Duo
from ..env import scenario, World, _W
from .. import boot
from ..explore import Violation

PROP = "C05"
BOUNDS = {
    "quick": "two devices running the library, every sequence of 6 operations (either sends, any message in flight is "
             "delivered in any order or never, one repetition, one restart, two changes between catch-up and live); "
             "every sequence of 4 replayed on twomemo and oldmemo with real cryptography and compared step by step",
    "thorough": "the same with 7 operations, two repetitions and restarts; 5 on the real backends"
}
ASSUMPTIONS = ["within one chain fewer than 1000 messages are skipped", "device lists and bundles do not change "
               "meanwhile, other than by the two devices themselves"]


# A session that both sides have confirmed, either side having started it
ESTABLISHED = [("send", "a@x"), ("deliver", 0), ("send", "a@x.b"), ("deliver", 1)]


def schedule(depth, repeats, restarts, syncs, cache=True, kind="fake", renewals=0, prefix=()):
    @scenario
    def run(w, ch, ctx):
        duo = Duo(w, kind, cache)
        play(duo, ch, ctx, depth, repeats, restarts, syncs, renewals, prefix)
        # Replacing a session in use may lose messages in flight, as documented; the reference model says which.
        if duo.crossed and not renewals:
            raise Violation("after both sides initiated a session, messages no longer decrypt", "crossing-initiations")
    return run


def play(duo, ch, ctx, depth, repeats, restarts, syncs, renewals=0, prefix=()):
    done = list(prefix)
    for op in prefix:
        duo.do(*op)
    for i in range(depth):
        ops = duo.ops(repeats, restarts, syncs, renewals)
        op = ch.pick(ops, f"op {i}")
        done.append(op)
        if op[0] == "repeat":
            repeats -= 1
        elif op[0] == "restart":
            restarts -= 1
        elif op[0] in ("live", "catch-up"):
            syncs -= 1
        elif op[0] == "replace":
            renewals -= 1
        duo.do(*op)
    ctx.outcome("delivered %d of %d" % (sum(1 for f in duo.net if f["done"]), len(duo.net)))
    # Whatever is still in flight arrives after all, in one order or its reverse.
    rest = [f["no"] for f in duo.net if not f["done"]]
    if len(rest) > 1 and ch.flag("late arrivals reversed"):
        rest.reverse()
    for no in rest:
        done.append(("deliver", no))
        duo.do("deliver", no)
    for j in duo.nodes:
        done.append(("send", j))
        duo.do("send", j)
        done.append(("deliver", duo.net[-1]["no"]))
        duo.do("deliver", duo.net[-1]["no"])
    return done


def conformance(depth, real, renewals=0, prefix=()):
    """The same schedule on the symbolic and on a real backend: same results, same replies, same key exchanges."""
    @scenario
    def run(w, ch, ctx):
        duo = Duo(w)
        done = play(duo, ch, ctx, depth, 0 if renewals else 1, 1, 1, renewals, prefix)
        w2 = World(None, None)
        try:
            duo2 = Duo(w2, real)
            for op in done:
                duo2.do(*op)
            if duo2.log != duo.log:
                raise Violation(f"{real} behaves differently: {duo2.log} instead of {duo.log}")
            ctx.count("real_backend_traces")
            if duo.crossed:
                ctx.count("real_backend_traces_with_crossing")
        finally:
            w2.close()
            _W[0] = w
            boot.reactor_proxy.__class__.current = w.clock
    run.split = 24
    return run


def scenarios(tier):
    if tier == "quick":
        return [("schedules", schedule(6, 1, 1, 2)), ("no-cache", schedule(5, 1, 1, 1, cache=False)),
                ("renewed", schedule(5, 0, 0, 1, renewals=2, prefix=ESTABLISHED)),
                ("renewed-twomemo", conformance(2, "twomemo", 1, ESTABLISHED)),
                ("twomemo", conformance(4, "twomemo")), ("oldmemo", conformance(4, "oldmemo"))]
    return [("schedules", schedule(7, 2, 2, 2)), ("no-cache", schedule(5, 1, 1, 2, cache=False)),
                ("renewed", schedule(6, 0, 1, 1, renewals=2, prefix=ESTABLISHED)),
                ("renewed-twomemo", conformance(4, "twomemo", 1, ESTABLISHED)),
                ("renewed-oldmemo", conformance(4, "oldmemo", 1, ESTABLISHED)),
            ("twomemo", conformance(5, "twomemo")), ("oldmemo", conformance(5, "oldmemo"))]
