"""C06: pre keys are one-time, held back in catch-up, refilled and republished."""
import json

from ..env import Node, Peer, scenario, ik_of, exc_name
from ..enc import OWN
from ..explore import Violation
from omemo.backend import KeyExchangeFailed
from omemo.session_manager import MessageSendingFailed

PROP = "C06"
BOUNDS = {
    "quick": "every sequence of 4 operations (3 with both namespaces) out of: key exchange of a contact or another own device in one of two namespaces with "
             "a fresh pre key or the first one ever offered (possibly used, held back or gone), follow-up message "
             "repeating the key exchange, tampered key exchange, own encryption, catch-up, live (replies can be sent or not), restart; thresholds 25, "
             "50, 98, 99 with 100 pre keys or with exactly one or two above the threshold left; setup of a backend that comes back with any number of pre keys "
             "around the threshold, 0, 1, 99 or 100",
    "thorough": "the same with 5 operations (4 with both namespaces) and more thresholds"
}
ASSUMPTIONS = ["the refill threshold stays the same over restarts unless the backend is added", "the backend keeps held-back pre keys over a restart "
               "(the ones of the real backends are dropped then, which only makes more key exchanges fail)"]


class Keys:
    """Reference: offered and held-back pre keys per namespace."""

    def __init__(self, node, threshold):
        self.node, self.threshold = node, threshold
        self.vis = {ns: set(node.disk.backends[ns]["vis"]) for ns in node.namespaces}
        self.hid = {ns: set() for ns in node.namespaces}
        self.live = False

    def available(self, ns, pk):
        return pk in self.vis[ns] or pk in self.hid[ns]

    def use(self, ns, pk):
        changed = pk in self.vis[ns] or (self.live and pk in self.hid[ns])
        self.vis[ns].discard(pk)
        if not self.live:
            self.hid[ns].add(pk)
        else:
            self.hid[ns].discard(pk)
        return changed

    def check(self, w, op, refill=None):
        for ns in self.node.namespaces:
            got = set(self.node.disk.backends[ns]["vis"])
            if not self.vis[ns] <= got:
                raise Violation(f"after {op}: offered pre keys of {ns} disappeared: {sorted(self.vis[ns] - got)[:5]}")
            new = got - self.vis[ns]
            want = 100 if ns == refill and len(self.vis[ns]) <= self.threshold else len(self.vis[ns])
            if len(got) != want:
                raise Violation(f"after {op}: {len(got)} pre keys offered in {ns} instead of {want} (threshold "
                                f"{self.threshold}, {len(self.vis[ns])} left)")
            self.vis[ns] |= new
            self.hid[ns] &= set(self.node.disk.backends[ns]["hid"]) if op == "restart" else self.hid[ns]
            pub = w.bundles.get((ns, OWN, self.node.device_id))
            if pub != self.node.bundle(ns):
                raise Violation(f"after {op}: the published bundle of {ns} differs from the local one")


def history(depth, namespaces, thresholds, counts):
    @scenario
    def run(w, ch, ctx):
        threshold = ch.pick(thresholds, "threshold")
        left = ch.pick(counts, "pre keys left")
        node = Node(w, OWN, list(namespaces), threshold=threshold).must_start()
        own = (OWN, node.device_id)
        keys = Keys(node, threshold)
        keys.check(w, "setup")
        if any(len(v) != 100 for v in keys.vis.values()):
            raise Violation("setup did not offer 100 pre keys")
        if left is not None:
            for ns in namespaces:
                d = node.disk.backends[ns]
                d["vis"] = frozenset(sorted(d["vis"])[:threshold + left])
                w.bundles[(ns,) + own] = node.bundle(ns)
            keys = Keys(node, threshold)
        first = {ns: min(keys.vis[ns]) for ns in namespaces}
        ps = [Peer(w, jid, 1, ik_of(i), namespaces).publish() for i, jid in enumerate(("a@x.b", OWN))]
        for p in ps:
            node.ok(node.sm.refresh_device_lists(p.jid))
            node.ok(node.sm.get_device_information(p.jid))
            node.ok(node.sm.set_trust(p.jid, p.ik, "TRUSTED"))
        sent = {}
        for i in range(depth):
            ops = [("live",), ("live, sending fails",), ("catch-up",), ("restart",), ("encrypt",)]
            for j, p in enumerate(ps):
                for ns in namespaces:
                    ops += [("kex", j, ns, "offered"), ("kex", j, ns, "first"), ("bad", j, ns)]
                    if (j, ns) in sent:
                        ops.append(("follow", j, ns))
            op = ch.pick(ops, f"op {i}")
            if op[0].startswith("live"):
                if op[0] != "live":
                    w.fault = lambda node, op, args, write: "fail" if op == "send" else None
                out = node.call(node.sm.after_history_sync())
                w.fault = None
                if out.kind != "ok" and (op[0] == "live" or not isinstance(out.exc, MessageSendingFailed)):
                    raise Violation(f"{op[0]}: {out.exc!r}")
                keys.live = True
                keys.hid = {ns: set() for ns in namespaces}
            elif op[0] == "catch-up":
                node.sm.before_history_sync()
                keys.live = False
            elif op[0] == "restart":
                node.must_start()
                keys.live = False
            elif op[0] == "encrypt":
                node.ok(node.sm.encrypt(frozenset({"a@x.b"}), {ns: b"x" for ns in namespaces}), "encrypt")
            else:
                p, ns = ps[op[1]], op[2]
                follow = op[0] == "follow"
                pk = None
                if not follow:
                    pk = first[ns] if op[0] == "kex" and op[3] == "first" else min(w.bundles[(ns,) + own].pks)
                m = p.message(ns, *own, b"hi", pk=pk, fresh_session=not follow)
                (ekm, kex), = m.keys
                refill = None
                if op[0] == "bad":
                    m = m._replace(keys=frozenset({(ekm.replace(bad=True), kex)}))
                out = node.call(node.sm.decrypt(m))
                if op[0] == "bad":
                    if out.kind == "ok":
                        raise Violation("tampered key exchange accepted")
                elif follow:
                    # The key exchange again (if the initiator is not confirmed), of the session in use or a lost one
                    cur = sent[(op[1], ns)]
                    if cur != ekm.sid:
                        raise AssertionError
                    if out.kind != "ok":
                        raise Violation(f"follow-up message refused: {out.exc!r}")
                else:
                    if keys.available(ns, kex.pk):
                        if out.kind != "ok":
                            raise Violation(f"key exchange with an {'offered' if kex.pk in keys.vis[ns] else 'held-back'}"
                                            f" pre key refused: {out.exc!r}")
                        if keys.use(ns, kex.pk):
                            refill = ns
                        sent[(op[1], ns)] = ekm.sid
                    else:
                        if out.kind == "ok":
                            raise Violation("key exchange with a used up pre key accepted")
                        if not isinstance(out.exc, KeyExchangeFailed):
                            raise Violation(f"key exchange with a used up pre key: {out.exc!r}")
                        # The sender's attempt is lost; it goes on with what it had.
                        p.cores[ns].d["sessions"] = {}
                        sent.pop((op[1], ns), None)
                if op[0] == "bad":
                    p.cores[ns].d["sessions"] = {}
                    sent.pop((op[1], ns), None)
                keys.check(w, op, refill)
                ctx.outcome(f"{op[0]} {exc_name(out)} live={keys.live} refill={refill is not None}")
                continue
            keys.check(w, op[0])
        # End of catch-up: everything held back is gone for good.
        node.ok(node.sm.after_history_sync(), "after_history_sync")
        for ns in namespaces:
            gone = set(first.values()) - keys.vis[ns]
            if first[ns] in gone:
                m = ps[1].message(ns, *own, b"hi", pk=first[ns], fresh_session=True)
                out = node.call(node.sm.decrypt(m))
                if out.kind == "ok":
                    raise Violation(f"a pre key of {ns} could be used again after the end of catch-up")
    return run


def added(thresholds):
    """A backend that comes (back) with pre keys of its own."""
    @scenario
    def run(w, ch, ctx):
        t = ch.pick(thresholds, "threshold")
        node = Node(w, OWN, ["n1", "n2"], threshold=ch.pick((25, 99), "earlier threshold")).must_start()
        ns = ch.pick(("n1", "n2"), "backend")
        other = "n2" if ns == "n1" else "n1"
        fresh = ch.flag("removed before")
        if fresh:
            node.must_start([other])
        else:
            # never finished being set up: the device does not count it as active yet
            for what in ("namespaces", "active"):
                k = f"/devices/{OWN}/{node.device_id}/{what}"
                v = node.disk.get(k)
                node.disk.kv[k] = json.dumps([x for x in v if x != ns] if isinstance(v, list) else
                                                           {a: b for a, b in v.items() if a != ns})
            w.lists[(ns, OWN)].pop(node.device_id)
        left = ch.pick(sorted({0, 1, t - 1, t, t + 1, 99, 100}), "pre keys left")
        d = node.disk.backends[ns]
        d["vis"] = frozenset(sorted(d["vis"])[:left])
        kept, untouched = set(d["vis"]), set(node.disk.backends[other]["vis"])
        node.threshold = t
        node.must_start(ch.pick((["n1", "n2"], ["n2", "n1"]), "order"))
        vis = set(node.disk.backends[ns]["vis"])
        want = 100 if left <= t else left
        if not kept <= vis or len(vis) != want:
            raise Violation(f"setup with {left} pre keys and threshold {t} leaves {len(vis)} offered instead of {want}")
        if set(node.disk.backends[other]["vis"]) != untouched:
            raise Violation("setup of a backend changed the pre keys of another one")
        for n in ("n1", "n2"):
            if w.bundles.get((n, OWN, node.device_id)) != node.bundle(n):
                raise Violation(f"after setup: the published bundle of {n} differs from the local one")
        ctx.outcome(f"{len(vis) - left} added")
    return run


def scenarios(tier):
    if tier == "quick":
        return [("added", added((25, 26, 50, 98, 99))), ("one-namespace", history(4, ("n1",), (25, 99), (None, 1))),
                ("three-namespaces", history(2, ("n1", "n2", "n3"), (99,), (None, 1))),
                ("two-namespaces", history(3, ("n1", "n2"), (99, 98, 50), (None, 1, 2)))]
    return [("added", added(range(25, 100))), ("one-namespace", history(5, ("n1",), (25, 50, 98, 99), (None, 1, 2))),
            ("three-namespaces", history(3, ("n1", "n2", "n3"), (99,), (None, 1))),
            ("two-namespaces", history(4, ("n1", "n2"), (25, 99, 98), (None, 1, 2)))]
