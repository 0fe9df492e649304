"""C15: signed pre keys rotate on schedule and every rotation is published."""
import omemo

from ..env import Node, Peer, scenario, ik_of
from ..enc import OWN
from ..explore import Violation
from .. import boot

PROP = "C15"
PERIOD = 7200
BOUNDS = {
    "quick": "one and two backends, rotation periods of two hours and (without failures) a week, ages at start of 0, one "
             "second below, at and above the period and far above, under asyncio and Twisted; every pattern of up to 2 "
             "failing uploads anywhere and every run of up to 10 in a row, each failing before or after the fact; a "
             "purge of either backend, or a key exchange that changes a bundle, after any wake-up; three periods of virtual time",
    "thorough": "up to 4 failures, five periods"
}
ASSUMPTIONS = ["no restart while a publication is being retried", "backend and storage do not fail during a rotation"]


class Watch:
    def __init__(self, w, node, period):
        self.w, self.node, self.period = w, node, period
        self.open = {}          # ns -> [time of next attempt, delay]
        self.blocked = []       # intervals in which some rotation was unpublished
        self.purged = set()
        self.rotations = {}
        self.begin = w.now()
        w.monitor = self.before
        w.after = self.done

    def now(self):
        return self.w.now()

    def before(self, node, op, args):
        w = self.w
        ns = args.get("ns")
        if op == "be.rotate":
            d = self.node.disk.backends.get(ns)
            if ns in self.purged or d is None:
                w.flag(f"the signed pre key of the purged backend {ns} is rotated")
                return
            age = self.now() - d["spk_t"]
            if age < self.period:
                w.flag(f"{ns}: rotated at age {age}, the period is {self.period}")
            if self.open:
                w.flag(f"{ns}: rotated while the rotation of {sorted(self.open)} is not published")
            late = self.late(d)
            if late > 61:
                w.flag(f"{ns}: rotated {late} s after it became due")
        elif op == "up_bundle":
            if ns in self.purged:
                w.flag(f"the bundle of the purged backend {ns} is published again")
                return
            if ns not in self.open:
                w.flag(f"the bundle of {ns} is published without a rotation")
                return
            t, delay = self.open[ns]
            if abs(self.now() - t) > 1:
                w.flag(f"{ns}: publication attempted at {self.now()} instead of {t}")
            if args["bundle"] != self.node.bundle(ns):
                w.flag(f"{ns}: an outdated bundle is published")

    def done(self, node, op, args, result):
        ns = args.get("ns")
        if op == "be.rotate":
            self.open[ns] = [self.now(), 60]
            self.blocked.append([self.now(), None])
            self.rotations[ns] = self.rotations.get(ns, 0) + 1

    def late(self, d):
        """Seconds by which a rotation is overdue, counting neither time before the start of the process nor time
        spent on publishing another rotation."""
        return self.now() - max(d["spk_t"] + self.period, self.begin) - self.slack(d["spk_t"])

    def uploaded(self, ns, ok):
        if ok:
            self.open.pop(ns, None)
            self.blocked[-1][1] = self.now()
        else:
            e = self.open[ns]
            e[0], e[1] = e[0] + e[1], min(3600, 2 * e[1])

    def slack(self, since):
        return sum((b if b is not None else self.now()) - max(a, since) for a, b in self.blocked
                   if (b if b is not None else self.now()) > since)

    def end(self):
        for ns in self.node.namespaces:
            if ns in self.purged:
                if ns in self.node.disk.backends:
                    raise Violation(f"{ns} was purged and has data again")
                continue
            d = self.node.disk.backends[ns]
            late = self.late(d)
            if late > 61:
                raise Violation(f"{ns}: rotation is overdue for {late} s")
            if ns in self.open:
                if self.open[ns][0] < self.now() - 1:
                    raise Violation(f"{ns}: publication is not retried")
            elif self.w.bundles.get((ns, OWN, self.node.device_id)) != self.node.bundle(ns):
                raise Violation(f"{ns}: published bundle differs from the local one")


def rotation(nss, ages, fails, row, purges, periods, period=PERIOD, frameworks=("asyncio", "twisted"), uses=0):
    """fails: failures allowed anywhere; row: length of an initial run of failures to choose from."""
    @scenario
    def run(w, ch, ctx):
        fw = ch.pick([f for f in frameworks if f == "asyncio" or boot.HAVE_TWISTED], "framework")
        node = Node(w, OWN, list(nss), period=period, framework=omemo.AsyncFramework.ASYNCIO).must_start()
        if uses:
            p = Peer(w, "a@x.b", 1, ik_of(1), nss).publish()
            node.ok(node.sm.refresh_device_lists("a@x.b"))
            node.ok(node.sm.get_device_information("a@x.b"))
        node.kill()
        for ns in nss:
            node.disk.backends[ns]["spk_t"] = w.now() - ch.pick(ages, f"age of {ns}")
        node.framework = omemo.AsyncFramework.TWISTED if fw == "twisted" else omemo.AsyncFramework.ASYNCIO
        watch = Watch(w, node, period)
        state = {"fails": fails, "row": ch.pick(row, "failures in a row")}

        def fault(n, op, args, write):
            if op != "up_bundle":
                return None
            what = None
            if state["row"] > 0:
                state["row"] -= 1
                what = "fail"
            elif state["fails"] > 0:
                what = ch.pick((None, "fail", "late"), f"upload of {args['ns']}")
                if what:
                    state["fails"] -= 1
            if args["ns"] in watch.open:
                watch.uploaded(args["ns"], what is None)
            return what
        w.fault = fault
        out = node.start()
        if out.kind != "ok":
            raise Violation(f"start failed: {out.exc!r}")
        w.spin()
        horizon = w.now() + periods * period
        if uses or ch.flag("live"):
            w.monitor = w.after = w.fault = None
            node.ok(node.sm.after_history_sync())
            w.monitor, w.after, w.fault = watch.before, watch.done, fault
        budget, wakes, use = purges, 0, uses
        while w.now() < horizon:
            if fw == "twisted":
                calls = [c.getTime() for c in w.clock.getDelayedCalls()]
                nxt = min(calls) - w.clock.seconds() if calls else None
            else:
                sched = [h._when for h in w.loop._scheduled if not h._cancelled]
                nxt = min(sched) - w.loop.time() if sched else None
            if nxt is None:
                if len(watch.purged) < len(nss):
                    raise Violation("nothing is scheduled any more: no rotation will ever happen")
                break
            if budget > 0:
                what = ch.pick((None,) + tuple(n for n in nss if n not in watch.purged), f"purge after wake-up {wakes}")
                if what is not None:
                    budget -= 1
                    watch.purged.add(what)
                    if what in watch.open:
                        # the background task notices at its next attempt
                        watch.blocked[-1][1] = watch.open.pop(what)[0]
                    mon, w.monitor = w.monitor, None
                    node.ok(node.sm.purge_backend(what), "purge_backend")
                    w.monitor = mon
            if use > 0:
                # somebody uses a pre key, which changes the bundle
                ns = ch.pick((None,) + tuple(nss), f"key exchange after wake-up {wakes}")
                if ns is not None:
                    use -= 1
                    hooks = w.monitor, w.after, w.fault
                    w.monitor = w.after = w.fault = None
                    node.ok(node.sm.decrypt(p.message(ns, OWN, node.device_id, b"hi", fresh_session=True)), "decrypt")
                    w.monitor, w.after, w.fault = hooks
            wakes += 1
            if wakes > 400:
                raise Violation("the background task wakes up far too often")
            w.advance(min(nxt, horizon - w.now()) + 0.001)
            w.spin()
        # At the end, let a pending publication succeed.
        state["fails"] = 0
        for _ in range(2):
            if watch.open:
                w.advance(3601)
                w.spin()
        watch.end()
        ctx.outcome(f"{fw} rotations {sum(watch.rotations.values())} purged {len(watch.purged)}")
    return run


AGES = (0, PERIOD - 1, PERIOD, PERIOD + 1, 5 * PERIOD)
WEEK = 7 * 24 * 3600


def scenarios(tier):
    if tier == "quick":
        return [("one", rotation(("n1",), AGES, 2, (0,), 0, 3)),
                ("two", rotation(("n1", "n2"), AGES, 2, (0,), 0, 3)),
                ("three", rotation(("n1", "n2", "n3"), (0, PERIOD - 1, PERIOD + 1), 1, (0, 2), 0, 3)),
                ("outage", rotation(("n1", "n2"), (0, PERIOD + 1), 0, tuple(range(1, 11)), 0, 6)),
                ("purge", rotation(("n1", "n2"), (0, PERIOD + 1), 2, (0, 3), 1, 3)),
                ("in use", rotation(("n1", "n2"), (0, PERIOD + 1), 1, (0, 3), 0, 3, uses=1)),
                ("week", rotation(("n1", "n2"), (0, WEEK - 1, WEEK, WEEK + 1, 3 * WEEK), 1, (0,), 0, 4, WEEK))]
    return [("one", rotation(("n1",), AGES, 4, (0,), 0, 5)), ("two", rotation(("n1", "n2"), AGES, 4, (0,), 0, 5)),
            ("three", rotation(("n1", "n2", "n3"), AGES, 2, (0, 2), 0, 4)),
            ("outage", rotation(("n1", "n2"), (0, PERIOD + 1), 1, tuple(range(1, 16)), 0, 12)),
            ("purge", rotation(("n1", "n2"), AGES, 2, (0, 1, 3, 8), 2, 3)),
            ("in use", rotation(("n1", "n2"), (0, PERIOD, PERIOD + 1), 2, (0, 1, 3), 0, 3, uses=2)),
            ("week", rotation(("n1", "n2"), (0, WEEK - 1, WEEK, WEEK + 1, 3 * WEEK), 2, (0,), 0, 8, WEEK))]
