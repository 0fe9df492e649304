"""C03: no ratchet key position is released twice, whatever fails or crashes."""
import omemo

from ..env import Node, Peer, scenario, ik_of, Faults, ekms, exc_name, BundleDownloadFailed
from ..enc import snapshot_sessions, OWN
from ..explore import Violation

PROP = "C03"
BOUNDS = {"quick": "histories of 3 operations (encrypt, incoming key exchange, incoming message, end of catch-up, "
                   "session replacement, restart) with two remote accounts, one fault (failure, failure after the "
                   "effect, crash) at any interaction of any of them, then a fault-free tail that releases once more "
                   "on every session", "thorough": "the same with 4 operations, and two faults for 3 operations"}
ASSUMPTIONS = ["the symbolic ratchet hands out positions exactly like the real one (validated in C05)",
               "a backend method is atomic"]


class Releases:
    def __init__(self, w, node):
        self.w, self.node, self.seen = w, node, {}
        self.op = None
        w.monitor = self.on_env

    def on_env(self, node, op, args):
        if op == "send":
            for ekm, kex in args["message"].keys:
                self.release(ekm, args["ns"], "handed to the transport")
                if self.op != "replace":
                    self.persisted(ekm, args["ns"])

    def release(self, ekm, ns, how):
        if ekm.pos in self.seen:
            self.w.flag(f"position {ekm.pos} of the session with {ekm.bare_jid}/{ekm.device_id} is released twice: "
                        f"{self.seen[ekm.pos]}, now {how} by {self.op}")
        self.seen[ekm.pos] = f"{how} by {self.op}"

    def persisted(self, ekm, ns):
        s = self.node.sessions(ns).get((ekm.bare_jid, ekm.device_id))
        if s is None or s["sid"] != ekm.sid or s["cid"] == ekm.cid and s["sn"] <= ekm.n:
            self.w.flag(f"position {ekm.pos} of the session with {ekm.bare_jid}/{ekm.device_id} is released by "
                        f"{self.op} although the advanced session is not stored")


def storage_failed(out):
    e = out.exc
    while e is not None:
        if isinstance(e, omemo.StorageException):
            return True
        e = e.__cause__ or e.__context__
    return False


def history(tier, depth, budget, ops, kinds=("fail", "late", "crash"), two=True):
    @scenario
    def run(w, ch, ctx):
        node = Node(w, OWN, ["n1"]).must_start()
        node.trust_log = {}
        b = Peer(w, "a@x.b", 1, ik_of(1)).publish()
        c = Peer(w, "a@x.bc", 1, ik_of(2)).publish() if two else None
        peers = [p for p in (b, c) if p]
        for p in peers:
            node.ok(node.sm.refresh_device_lists(p.jid))
            node.ok(node.sm.set_trust(p.jid, p.ik, "TRUSTED"))
        rel = Releases(w, node)
        start = ch.pick(("fresh", "active", "passive"), "session with b")
        if start == "active":
            msgs, _ = node.ok(node.sm.encrypt(frozenset({"a@x.b"}), {"n1": b"0"}))
            take(rel, node, msgs)
        elif start == "passive":
            rel.op = "setup"
            node.ok(node.sm.decrypt(b.message("n1", OWN, node.device_id)))
        if ch.flag("live"):
            rel.op = "end of catch-up"
            node.ok(node.sm.after_history_sync())
        faults = Faults(w, node, budget, kinds)

        def alive():
            if node.sm is None:
                saved, w.fault = w.fault, None
                rel.op = "restart"
                node.must_start()
                w.fault = saved

        def do(op):
            alive()
            rel.op = op
            before = snapshot_sessions(node)
            if op == "encrypt b" or op == "encrypt both":
                to = {"a@x.b"} if op == "encrypt b" else {"a@x.b", "a@x.bc"}
                out = node.call(node.sm.encrypt(frozenset(to), {"n1": b"p"}))
                if out.kind == "ok":
                    take(rel, node, out.value[0])
                elif out.kind == "exc" and not storage_failed(out):
                    if snapshot_sessions(node) != before:
                        raise Violation(f"an encryption that failed with {exc_name(out)} changed a stored session")
            elif op == "kex":
                out = node.call(node.sm.decrypt(b.message("n1", OWN, node.device_id, fresh_session=True)))
            elif op == "message":
                out = node.call(node.sm.decrypt(b.message("n1", OWN, node.device_id)))
            elif op == "catch-up":
                node.sm.before_history_sync()
                return
            elif op == "live":
                out = node.call(node.sm.after_history_sync())
            elif op == "replace":
                saved, w.fault = w.fault, None
                d = list(node.ok(node.sm.get_device_information("a@x.b")))
                w.fault = saved
                if not d:
                    return
                out = node.call(node.sm.replace_sessions(d[0]))
            elif op == "restart":
                out = node.start()
            else:
                raise AssertionError(op)
            ctx.outcome(f"{op} {exc_name(out)}")

        for i in range(depth):
            do(ch.pick(ops, f"op {i}"))
        faults.stop()
        # Release once more, in every way, on what is stored now: twice, with and without a restart in between.
        for op in ("encrypt b", "live", "encrypt both" if two else "encrypt b"):
            do(op)
        alive()
        rel.op = "restart"
        node.must_start()
        do("encrypt b")
        do("live")
    return run


def take(rel, node, messages):
    for m in messages:
        for ekm, kex in m.keys:
            rel.release(ekm, m.namespace, "returned")
            rel.persisted(ekm, m.namespace)
    rel.w.raise_flags()


OPS = ("encrypt b", "encrypt both", "kex", "message", "live", "replace", "restart", "catch-up")


def scenarios(tier):
    s = [("one-fault", history(tier, 2, 1, OPS)), ("no-fault", history(tier, 4, 0, OPS))]
    if tier == "thorough":
        s += [("one-fault-3", history(tier, 3, 1, OPS)), ("two-faults", history(tier, 2, 2, OPS)),
              ("no-fault-5", history(tier, 5, 0, OPS))]
    else:
        s += [("one-fault-3", history(tier, 3, 1, ("encrypt both", "kex", "message", "live"), two=True))]
    return s
