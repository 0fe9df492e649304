"""C21: a decryption that fails on the network can be repeated."""
import copy

from ..env import Node, Peer, scenario, ik_of, exc_name, Faults, FAULTS, DecryptionFailed
from ..enc import OWN
from ..explore import Violation

PROP = "C21"
BOUNDS = {
    "quick": "9 kinds of messages (first and second message of a session from known, unlisted and unfetched devices, session "
             "replacement, established, out of order, empty, far along a chain), in both history modes, with the cache on and "
             "off, with a failure before or after the fact at every server interaction and a failure at every interaction "
             "that precedes the decryption taking effect; repeated at once, or after a restart",
    "thorough": "two failures, three contents"
}
ASSUMPTIONS = ["a backend method is atomic",
               "failures of local storage after the session was stored are outside of the claim"]
B = "a@x.b"
KINDS = ("first", "second", "unlisted", "unfetched", "replace", "established", "out of order", "empty", "stale")
# local bookkeeping once the message key is used up
AFTER = {"be.hide", "be.delete_pk", "be.num_visible", "be.generate", "be.get_bundle", "be.encrypt_empty", "be.encrypt_km"}


def retry(budget, kinds, caches=(True, False), contents=(b"text",), key_kinds=("fail", "late")):
    @scenario
    def run(w, ch, ctx):
        kind = ch.pick(kinds, "message")
        live = ch.flag("live")
        ns = ch.pick(("n1", "n2") if kind in ("unlisted", "unfetched", "first") else ("n1",), "namespace")
        node = Node(w, OWN, ["n1", "n2"], cache=ch.pick(caches, "cache")).must_start()
        if live:
            node.ok(node.sm.after_history_sync())
        me = node.device_id
        p = Peer(w, B, 1, ik_of(1), (ns,)).publish()
        text = None if kind == "empty" else ch.pick(contents, "content")
        if kind not in ("unlisted", "unfetched"):
            node.ok(node.sm.refresh_device_lists(B))
            node.ok(node.sm.get_device_information(B))
            node.ok(node.sm.set_trust(B, p.ik, ch.pick(("TRUSTED", "UNDECIDED"), "trust")))
        elif kind == "unfetched":
            node.ok(node.sm.refresh_device_lists(B))
        if kind not in ("first", "unlisted", "unfetched", "empty"):
            node.ok(node.sm.decrypt(p.message(ns, OWN, me, b"0")))
            if kind in ("established", "out of order", "stale"):
                node.ok(node.sm.set_trust(B, p.ik, "TRUSTED"))
                ms, _ = node.ok(node.sm.encrypt(frozenset({B}), {ns: b"1"}, [ns]))
                for m in [m for _, m, _ in w.sent] + list(ms):
                    p.receive(m)
        if kind == "out of order":
            later = p.message(ns, OWN, me, text)
            node.ok(node.sm.decrypt(p.message(ns, OWN, me, b"2")))
            msg = later
        elif kind == "stale":
            for i in range(53):
                node.ok(node.sm.decrypt(p.message(ns, OWN, me, b"%d" % i)))
            msg = p.message(ns, OWN, me, text)
        elif kind == "replace":
            msg = p.message(ns, OWN, me, text, fresh_session=True)
        else:
            msg = p.message(ns, OWN, me, text)

        used = []

        def only(op, args, write):
            if op in AFTER:
                return False
            if op in ("load", "store", "delete") and args["key"].startswith("/queue/"):
                return False
            if op == "be.store_session" and used:
                return False
            return True

        def after(n, op, args, result):
            if op == "be.store_session":
                used.append(1)
        w.after = after
        faults = Faults(w, node, budget, key_kinds, only)
        sent = len(w.sent)
        while True:
            hits = len(faults.hits)
            out = node.call(node.sm.decrypt(msg))
            new = faults.hits[hits:]
            if out.kind == "ok":
                break
            if not new:
                # Nothing went wrong this time, so this is the repetition.
                op, what = faults.hits[-1] if faults.hits else (None, None)
                sig = None
                if op in ("up_bundle", "send") and isinstance(out.exc, DecryptionFailed):
                    sig = f"{op}-after-decryption"
                raise Violation(f"{kind} message: {out.exc!r} when repeated after {op} failed ({what}), the content is lost",
                                sig)
            if not isinstance(out.exc, tuple(FAULTS.get(op, FAULTS["load"]) for op, _ in new)) and not (
                    exc_name(out) == "SenderNotFound" and any(op == "dn_bundle" for op, _ in new)):
                raise Violation(f"{out.exc!r} after {new}")
            if ch.flag("restart"):
                saved, w.fault = w.fault, None
                node.must_start()
                if live:
                    node.ok(node.sm.after_history_sync())
                w.fault = saved
        if any(op not in ("dn_bundle",) for op, _ in new):
            raise Violation(f"decryption reports success although {new} happened")
        faults.stop()
        ctx.outcome(f"{kind} {faults.hits}")
        pt, d, pkm = out.value
        if pt != text or (d.bare_jid, d.device_id, d.identity_key) != (B, 1, p.ik):
            raise Violation(f"{kind} message: {pt!r} from {d.bare_jid}/{d.device_id}")
        if pkm.key != msg.content._t[1]:
            raise Violation("wrong key material returned")
        # The conversation goes on.
        pt, _, _ = node.ok(node.sm.decrypt(p.message(ns, OWN, me, b"next")), "the next message")
        if pt != b"next":
            raise Violation("wrong content")
        out = node.call(node.sm.decrypt(msg))
        if out.kind == "ok":
            raise Violation("the same message decrypts twice")
    return run


def scenarios(tier):
    if tier == "quick":
        return [("kinds", retry(1, KINDS[:-1])), ("stale", retry(1, KINDS[-1:], (True,)))]
    return [("kinds", retry(2, KINDS[:-1], (True, False), (b"text", b"", bytes(range(256))))), ("stale", retry(2, KINDS[-1:]))]
