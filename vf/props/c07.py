"""C07: automatic empty replies go out exactly when needed, once per session."""
from omemo.session_manager import MessageSendingFailed
from ..env import Faults, Node, Peer, scenario, ik_of, exc_name, PKM, spread
from ..enc import OWN
from ..explore import Violation

PROP = "C07"
BOUNDS = {
    "quick": "every sequence of 4 operations out of: key exchange, next message, message 51..54 of the chain, of three "
             "devices of a contact and the own account (one of them in two namespaces); replies reach the sender; catch-up, live, restart, "
             "purge of an account, replacement of a session, distrusting a sender; messages are empty or not; 3 operations from established sessions; up to 140 sessions due at once; "
             "the end of catch-up with every subset of four sessions due and every combination of failing sends, or one "
             "storage failure or crash at any point",
    "thorough": "the same with 5 operations; 6 without the second namespace"
}
ASSUMPTIONS = ["no failures other than at the end of catch-up (C03, C21)"]
LIMIT = 53


class Model:
    def __init__(self, w, node, peers):
        self.w, self.node, self.peers = w, node, peers
        self.live = False
        self.due, self.maybe = set(), set()
        self.taken = 0
        self.inbox = {k: [] for k in peers}

    def replies(self):
        new = self.w.sent[self.taken:]
        self.taken = len(self.w.sent)
        out = {}
        for src, m, to in new:
            if src != OWN or m.bare_jid != OWN or m.device_id != self.node.device_id or not m.content.empty:
                raise Violation(f"an automatic message that is not an empty message of this device: {m}")
            if len(m.keys) != 1:
                raise Violation(f"automatic message with {len(m.keys)} keys")
            (ekm, kex), = m.keys
            key = (m.namespace, ekm.bare_jid, ekm.device_id)
            if to != ekm.bare_jid:
                raise Violation(f"empty message for {ekm.bare_jid} is sent to {to}")
            if key in out:
                raise Violation(f"two empty messages to {key}")
            s = self.node.sessions(m.namespace).get(key[1:])
            if s is None or s["sid"] != ekm.sid:
                raise Violation(f"empty message to {key} is not part of the stored session")
            want = s["role"] == "I" and not s["conf"]
            if (kex is not None) != want or want and kex != s["kex"]:
                raise Violation(f"empty message to {key}: key exchange {kex}, session is {s['role']}, "
                                f"confirmed {s['conf']}")
            if ekm.key != m.content._t[1]:
                raise Violation("the key of an empty message does not open it")
            out[key] = m
            if key in self.inbox:
                self.inbox[key].append(m)
        return out

    def none(self, op):
        got = self.replies()
        if got:
            raise Violation(f"{op} sent an empty message to {sorted(got)}")

    def exactly(self, op, must, may=frozenset()):
        got = set(self.replies())
        if not must <= got or got - must - may:
            raise Violation(f"{op} sent empty messages to {sorted(got)} instead of {sorted(must)}")


def history(depth, devices, extra, script=()):
    @scenario
    def run(w, ch, ctx):
        nss = tuple(sorted({d[0] for d in devices}))
        node = Node(w, OWN, list(nss)).must_start()
        own = (OWN, node.device_id)
        phys = {}
        for ns, jid, dev in devices:
            if (jid, dev) not in phys:
                phys[(jid, dev)] = Peer(w, jid, dev, ik_of(len(phys) + 1),
                                        tuple(n for n, j, d in devices if (j, d) == (jid, dev))).publish()
        peers = {d: phys[d[1:]] for d in devices}
        for jid in sorted({d[1] for d in devices}):
            node.ok(node.sm.refresh_device_lists(jid))
            node.ok(node.sm.get_device_information(jid))
        mo = Model(w, node, peers)
        text = ch.pick((b"text", None), "content")
        distrusted = set()
        for i in range(len(script) + depth):
            ops = [("live",), ("catch-up",), ("restart",)]
            for d, p in peers.items():
                ops.append(("kex", d))
                s = p.cores[d[0]].load(*own)
                if s is not None and d in node_sessions(node):
                    ops.append(("next", d))
                    for n in (51, 52, 53, 54):
                        if s.sn <= n and (n in (52, 53) or d == devices[0] and not script):
                            ops.append(("jump", d, n))
                    if mo.inbox[d]:
                        ops.append(("receive", d))
                    if s.sn > 53:
                        ops.append(("old", d))
            for e in extra:
                if e == "purge":
                    ops.append(("purge", devices[0][1]))
                elif e == "replace" and devices[0] in node_sessions(node):
                    ops.append(("replace", devices[0]))
                elif e == "distrust":
                    ops.append(("distrust", devices[0]))
            op = script[i] if i < len(script) else ch.pick(ops, f"op {i - len(script)}")
            name = op[0]
            if name == "live":
                have = node_sessions(node)
                node.ok(node.sm.after_history_sync(), "after_history_sync")
                mo.exactly("the end of catch-up", mo.due & have, mo.maybe & have)
                mo.due, mo.maybe, mo.live = set(), set(), True
            elif name == "catch-up":
                node.sm.before_history_sync()
                mo.live = False
                mo.none(name)
            elif name == "restart":
                node.must_start()
                mo.live = False
                mo.none(name)
            elif name == "purge":
                node.ok(node.sm.purge_bare_jid(op[1]), "purge_bare_jid")
                gone = {d for d in mo.due if d[1] == op[1]}
                mo.due -= gone
                mo.maybe |= gone
                node.ok(node.sm.refresh_device_lists(op[1]))
                node.ok(node.sm.get_device_information(op[1]))
                distrusted.clear()
                mo.none(name)
            elif name == "replace":
                d = op[1]
                info = next(x for x in node.ok(node.sm.get_device_information(d[1])) if x.device_id == d[2])
                if node.ok(node.sm.replace_sessions(info), "replace_sessions"):
                    raise Violation("session replacement failed without any fault")
                mo.taken = len(w.sent)
                for x in devices:
                    mo.inbox[x] = []
                    if x[1:] == d[1:] and x in mo.due:
                        mo.due.discard(x)
                        mo.maybe.add(x)
                        peers[x].cores[x[0]].d["sessions"] = {}
            elif name == "distrust":
                d = op[1]
                node.ok(node.sm.set_trust(d[1], peers[d].ik, "DISTRUSTED"))
                distrusted.add(d[1:])
                mo.none(name)
            elif name == "receive":
                d = op[1]
                for m in mo.inbox[d]:
                    try:
                        peers[d].receive(m)
                    except Exception as e:
                        raise Violation(f"an empty message cannot be read by {d}: {e!r}")
                mo.inbox[d] = []
            else:
                d = op[1]
                p = peers[d]
                c = p.cores[d[0]]
                if name == "jump":
                    s = c.load(*own)
                    s.sn = op[2]
                    c.save(s)
                if name == "old":
                    s = c.load(*own)
                    used = {k[1] for k in node.sessions(d[0])[d[1:]]["used"] if k[0] == s.cid}
                    n = min(k for k in range(60) if k not in used)
                    back = s.sn
                    s.sn = n
                    c.save(s)
                m = p.message(d[0], *own, text, fresh_session=name == "kex")
                if name == "kex":
                    mo.inbox[d] = []  # replies to an earlier session are lost with it
                if name == "old":
                    s = c.load(*own)
                    s.sn = max(back, n + 1)
                    c.save(s)
                (ekm, kex), = m.keys
                before = node.sessions(d[0]).get(d[1:])
                out = node.call(node.sm.decrypt(m))
                ctx.outcome(f"{name} {exc_name(out)} live={mo.live}")
                if d[1:] in distrusted or out.kind != "ok":
                    ok = d[1:] in distrusted or before is None or before["sid"] != ekm.sid
                    if out.kind == "ok" or not ok:
                        raise Violation(f"{op}: {out}")
                    mo.none(op)
                    c.d["sessions"] = {}
                    mo.inbox[d] = []
                    continue
                s = node.sessions(d[0])[d[1:]]
                due = kex is not None or s["rn"] > LIMIT
                if due and mo.live:
                    mo.exactly(f"{op}, chain length {s['rn']},", {d})
                elif due:
                    mo.none(f"{op} during catch-up")
                    mo.due.add(d)
                    mo.maybe.discard(d)
                else:
                    mo.none(f"{op}, chain length {s['rn']},")
        have = node_sessions(node)
        if ch.flag("restart before the end"):
            node.must_start()
        node.ok(node.sm.after_history_sync(), "after_history_sync")
        mo.exactly("the end of catch-up", mo.due & have, mo.maybe & have)
        node.ok(node.sm.after_history_sync(), "after_history_sync")
        mo.exactly("a second end of catch-up", set())
        node.must_start()
        node.ok(node.sm.after_history_sync(), "after_history_sync")
        mo.exactly("the end of catch-up after another restart", set())
    return run


def crowd(sizes):
    """Many sessions due at once."""
    M = ("n1", "n2", "n3")

    @scenario
    def run(w, ch, ctx):
        node = Node(w, OWN, list(M)).must_start()
        own = (OWN, node.device_id)
        n = ch.pick(sizes, "devices")
        ids = spread(n)
        peers = {(ns, jid, d): None for ns in M for jid in ("a@x.b", "a@x.bc") for d in ids}
        phys = {k[1:]: Peer(w, k[1], k[2], ik_of(ids.index(k[2]) + (100 if k[1] == "a@x.bc" else 0)), M).publish()
                for k in peers}
        peers = {k: phys[k[1:]] for k in peers}
        for jid in ("a@x.b", "a@x.bc"):
            node.ok(node.sm.refresh_device_lists(jid))
        mo = Model(w, node, peers)
        for k, p in peers.items():
            node.ok(node.sm.decrypt(p.message(k[0], *own, b"hi")), "decrypt")
        mo.none("catch-up")
        if ch.flag("restart"):
            node.must_start()
        node.ok(node.sm.after_history_sync(), "after_history_sync")
        mo.exactly("the end of catch-up", set(peers))
        node.ok(node.sm.after_history_sync(), "after_history_sync")
        mo.none("a second end of catch-up")
        ctx.outcome(f"{len(peers)} sessions")
    return run


def ending(devices, kinds):
    """The end of catch-up with failing sends, failing storage or a crash at any point."""
    @scenario
    def run(w, ch, ctx):
        nss = tuple(sorted({d[0] for d in devices}))
        node = Node(w, OWN, list(nss)).must_start()
        own = (OWN, node.device_id)
        phys = {}
        for ns, jid, dev in devices:
            if (jid, dev) not in phys:
                phys[(jid, dev)] = Peer(w, jid, dev, ik_of(len(phys) + 1),
                                        tuple(n for n, j, d in devices if (j, d) == (jid, dev))).publish()
        for jid in sorted({d[1] for d in devices}):
            node.ok(node.sm.refresh_device_lists(jid))
            node.ok(node.sm.get_device_information(jid))
        due = {d for d in devices if ch.flag(f"message of {d}")}
        for d in devices:
            if d in due:
                node.ok(node.sm.decrypt(phys[d[1:]].message(d[0], *own, b"hi", fresh_session=True)))
        failed, total = set(), {}

        def count():
            out = {}
            for _, m, _ in w.sent:
                (ekm, _), = m.keys
                k = (m.namespace, ekm.bare_jid, ekm.device_id)
                out[k] = out.get(k, 0) + 1
            return out

        if kinds == "send":
            def fault(n, op, args, write):
                if op != "send":
                    return None
                what = ch.pick((None, "fail", "late"), "send")
                if what is not None:
                    (ekm, _), = args["message"].keys
                    failed.add((args["message"].namespace, ekm.bare_jid, ekm.device_id, what))
                return what
            w.fault = fault
            out = node.call(node.sm.after_history_sync())
            w.fault = None
            if (out.kind == "ok") != (not failed) or failed and not isinstance(out.exc, MessageSendingFailed):
                raise Violation(f"the end of catch-up with failing sends {sorted(failed)}: {out}")
            missing = due - {d[:3] for d in failed if d[3] == "fail"} - set(count())
            if missing:
                raise Violation(f"no empty message to {sorted(missing)} because sending to {sorted(failed)} failed")
        else:
            faults = Faults(w, node, 1, ("fail", "crash"))
            node.call(node.sm.after_history_sync())
            faults.stop()
            ctx.outcome(f"{faults.hits}")
        if node.sm is None or ch.flag("restart"):
            node.must_start()
        node.ok(node.sm.after_history_sync(), "after_history_sync")
        total = count()
        if any(n > 1 for n in total.values()) or not set(total) <= due:
            raise Violation(f"empty messages sent: {total}, due: {sorted(due)}")
        # and the sessions are as good as before
        for d in sorted(due):
            text, _, _ = node.ok(node.sm.decrypt(phys[d[1:]].message(d[0], *own, b"more")), "decrypt")
            if text != b"more":
                raise Violation(f"{text!r}")
    return run


def node_sessions(node):
    return {(ns,) + k for ns, d in node.disk.backends.items() for k in d["sessions"]}


TWO = (("n1", "a@x.b", 1), ("n2", "a@x.b", 1), ("n1", "a@x.b", 2), ("n1", OWN, 1))
ONE = (("n1", "a@x.b", 1), ("n1", "a@x.b", 2))


# sessions that are confirmed on both sides, live
OWN_TOO = (("n1", "a@x.b", 1), ("n1", OWN, 1))
ESTABLISHED = (("kex", OWN_TOO[0]), ("kex", OWN_TOO[1]), ("live",), ("receive", OWN_TOO[0]), ("receive", OWN_TOO[1]))


def scenarios(tier):
    if tier == "quick":
        return [("crowd", crowd((9, 35))), ("established", history(3, OWN_TOO, (), ESTABLISHED)), ("ending-sends", ending(TWO, "send")), ("ending-interrupted", ending(TWO[:3], "any")),
                ("devices", history(4, TWO, ())), ("removal", history(4, ONE, ("purge", "replace", "distrust")))]
    return [("crowd", crowd((9, 35, 80))), ("established", history(5, OWN_TOO, ("purge", "replace"), ESTABLISHED)),
            ("ending-sends", ending(TWO, "send")), ("ending-interrupted", ending(TWO, "any")),
            ("devices", history(5, TWO, ())), ("removal", history(5, ONE, ("purge", "replace", "distrust"))),
            ("deep", history(6, ONE[:1], ("purge", "replace")))]
