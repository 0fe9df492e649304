"""C04: decryption only accepts content from known, non-distrusted, matching senders."""
import omemo
from omemo.session_manager import (
    UnknownNamespace, MessageNotForUs, SenderNotFound, SenderDistrusted, NoSession, PublicDataInconsistency,
    UnknownTrustLevel, XMPPInteractionFailed
)
from omemo.backend import DecryptionFailed, KeyExchangeFailed

from ..env import (
    Node, Peer, scenario, ik_of, exc_name, Content, KEX, BundleDownloadFailed, EKM, PKM, DeviceListDownloadFailed
)
from ..dec import observe, pending_replies
from ..enc import OWN
from ..explore import Violation

PROP = "C04"
BOUNDS = {"quick": "one incoming message in every combination of: first or second namespace or one that is not loaded, key material for this "
                   "device, others only, both or none; sender of another or the own account, known, no longer listed, listed, listed without bundle, unlisted, list "
                   "download failing; trust level of the sender; key exchange absent, genuine, with a foreign "
                   "identity key, with unknown pre key or signed pre key; existing session none, in another namespace only, same, another "
                   "passive, active; tampered key material or content, replayed, empty; catch-up or live; 3 messages of senders "
                   "whose level means something else for each device and each time"}
ASSUMPTIONS = ["the double ratchet and the key exchange are symbolic (validated against twomemo/oldmemo in C05)"]

WHO = ("known", "left", "listed", "no bundle", "bundle fails", "unlisted", "list fails")


def message(tier):
    quick = tier == "quick"

    @scenario
    def run(w, ch, ctx):
        node = Node(w, OWN, ["n1", "n2"]).must_start()
        jid = ch.pick(("a@x.b", OWN), "account of the sender")
        p = Peer(w, jid, 1, ik_of(1), ("n1", "n2")).publish()
        other = Peer(w, jid, 2, ik_of(2), ("n1", "n2")).publish()
        mine = {node.device_id: node.label} if jid == OWN else {}
        twin = Peer(w, "a@x.bc", 1, ik_of(3), ("n1", "n2")).publish()
        who = ch.pick(WHO, "sender")
        mns = ch.pick(("n1", "n2"), "namespace of the sender")     # the only one the sender is listed in
        known = who in ("known", "left")
        w.lists[("n1", jid)] = {2: None, **mine}
        w.lists[("n2", jid)] = {2: None, **mine}
        node.ok(node.sm.refresh_device_lists("a@x.bc"))
        for ns in ("n1", "n2"):
            node.ok(node.sm.update_device_list(ns, jid, {2: None, **mine, **({1: None} if known and ns == mns else {})}))
        node.ok(node.sm.get_device_information(jid))
        node.ok(node.sm.get_device_information("a@x.bc"))
        own = (OWN, node.device_id)
        session = ch.pick(("none", "passive", "active", "elsewhere") if known else ("none",), "existing session")
        owed = {"passive": mns, "elsewhere": "n2" if mns == "n1" else "n1"}.get(session)
        if session == "passive":
            node.ok(node.sm.decrypt(p.message(mns, *own, b"first")))
        elif session == "elsewhere":
            # only in the other namespace, where it is of no use
            node.ok(node.sm.decrypt(p.message(owed, *own, b"first")))
            session = "none"
        elif session == "active":
            node.ok(node.sm.set_trust(jid, p.ik, "TRUSTED"))
            node.ok(node.sm.set_trust(jid, other.ik, "DISTRUSTED"))
            msgs, _ = node.ok(node.sm.encrypt(frozenset({jid}), {"n1": b"x", "n2": b"y"}))
            m, = msgs
            p.receive(m)
        trust = ch.pick((None, "TRUSTED", "DISTRUSTED", "NEW", "NONSENSE"), "trust")
        if trust is not None:
            node.ok(node.sm.set_trust(jid, p.ik, trust))
        elif session == "active":
            trust = "TRUSTED"
        # Trust of the same key under another account, and of another key, must not matter.
        node.ok(node.sm.set_trust("a@x.bc", p.ik, "DISTRUSTED" if trust != "DISTRUSTED" else "TRUSTED"))
        live = ch.flag("live")
        if live:
            node.ok(node.sm.after_history_sync())
        kind = ch.pick(("continue", "new", "foreign ik", "bad pk", "bad spk", "no kex", "replay"), "message")
        if kind == "replay" and session != "passive":
            kind = "continue"
        text = ch.pick((b"secret", None), "content")
        # A message of the current session, or of a new one
        if kind == "replay":
            m0 = p.message(mns, *own, text)
            node.ok(node.sm.set_trust(jid, p.ik, "TRUSTED"))
            node.ok(node.sm.decrypt(m0))
            if trust is not None:
                node.ok(node.sm.set_trust(jid, p.ik, trust))
            elif trust is None:
                trust = "TRUSTED"
        else:
            m0 = p.message(mns, *own, text, fresh_session=kind not in ("continue",))
        (ekm, kex), = m0.keys
        if kind == "foreign ik":
            kex = kex.replace(ik=ik_of(2)) if kex is not None else None
        elif kind == "bad pk":
            kex = kex.replace(pk=5)
        elif kind == "bad spk":
            kex = kex.replace(spk=5)
            ekm = ekm.replace(parent=("spk", 5))
        elif kind == "no kex":
            kex = None
        tamper = ch.pick((None, "key", "content"), "tampered")
        content = m0.content
        if tamper == "key":
            ekm = ekm.replace(bad=True)
        elif tamper == "content":
            content = Content(content._t[0], -1, content._t[2])
        ns = mns if quick and kind != "new" else ch.pick((mns, "n3"), "namespace")
        keys = {(ekm, kex)}
        decoys = {(ekm.replace(dev=own[1] + 1, bad=True), kex), (ekm.replace(jid="a@x.b", bad=True), None)}
        addressed = ch.pick(("us", "us and others", "others", "nobody") if kind in ("new", "continue") else
                            ("us and others",), "addressed to")
        keys = {"us": keys, "us and others": keys | decoys, "others": decoys, "nobody": set()}[addressed]
        m = omemo.Message(ns, jid, 1, content, frozenset(keys))
        # What the server says about the sender from now on
        if not known and who != "unlisted":
            w.lists[(mns, jid)] = {2: None, 1: "label", **mine}
        if who == "left":
            # not listed any more, with session or without
            node.ok(node.sm.update_device_list(mns, jid, {2: None, **mine}))
        if who == "no bundle" or known:
            # the identity key of a known device is known already
            del w.bundles[("n1", jid, 1)], w.bundles[("n2", jid, 1)]
        elif who == "bundle fails":
            w.bundles[("n1", jid, 1)] = w.bundles[("n2", jid, 1)] = BundleDownloadFailed
        if who == "list fails" or known:
            w.fault = lambda n, op, a, wr: "fail" if op == "dn_list" else None

        before = observe(w, node)
        out = node.call(node.sm.decrypt(m))
        w.fault = None

        # ---- what may happen
        allowed = []
        if ns != mns:
            allowed.append(UnknownNamespace)
        if addressed in ("others", "nobody"):
            allowed.append(MessageNotForUs)
        if who in ("unlisted", "no bundle", "bundle fails"):
            allowed.append(SenderNotFound)
        if who == "list fails":
            allowed.append(XMPPInteractionFailed)
        found = known or who == "listed"
        if found and trust == "DISTRUSTED":
            allowed.append(SenderDistrusted)
        if found and trust == "NONSENSE":
            allowed.append(UnknownTrustLevel)
        if found:
            if kex is not None and kex.identity_key != p.ik:
                allowed.append(PublicDataInconsistency)
            if kex is None and session == "none":
                allowed.append(NoSession)
            if kex is None and kind == "no kex" and session != "none":
                allowed.append(DecryptionFailed)  # key material of a session this device does not have
            if kind in ("bad pk", "bad spk"):
                allowed.append(KeyExchangeFailed)
            if kind == "replay" or tamper == "key":
                allowed.append(DecryptionFailed)
            if tamper == "content" and text is not None:
                allowed.append(DecryptionFailed)
        situation = (f"sender {who} ({jid}), trust {trust}, session {session}, message {kind}, tampered {tamper}, "
                     f"addressed to {addressed}, namespace {ns}")
        if not allowed:
            if out.kind != "ok":
                raise Violation(f"refused with {out.exc!r}: {situation}")
            plaintext, device, pkm = out.value
            if plaintext != text:
                raise Violation(f"decrypted to {plaintext!r} instead of {text!r}: {situation}")
            if (device.bare_jid, device.device_id, device.identity_key) != (jid, 1, p.ik):
                raise Violation(f"wrong sender information {device}: {situation}")
            want = trust if trust is not None else node.undecided
            if device.trust_level_name != want:
                raise Violation(f"sender information has trust {device.trust_level_name}, {want} is set: {situation}")
            if getattr(pkm, "key", None) != ekm.key:
                raise Violation(f"wrong key material {pkm}: {situation}")
            s = node.sessions(mns).get((jid, 1))
            if s is None or s["sid"] != ekm.sid or (ekm.cid, ekm.n) not in s["used"]:
                raise Violation(f"the session was not stored: {situation}")
            ctx.outcome("accepted")
            return
        if out.kind == "ok":
            raise Violation(f"accepted, but {[e.__name__ for e in allowed]} applies: {situation}")
        if not isinstance(out.exc, tuple(allowed)):
            raise Violation(f"failed with {out.exc!r} instead of {[e.__name__ for e in allowed]}: {situation}")
        if observe(w, node) != before:
            raise Violation(f"refused with {exc_name(out)}, but sessions, pre keys, published data or replies "
                            f"changed: {situation}")
        ctx.outcome(exc_name(out))
        # Nothing was queued either; what was due before still is.
        due = {(mm.namespace, to, tuple(sorted(k.device_id for k, _ in mm.keys))) for mm, to in pending_replies(w, node)}
        if due - ({(owed, jid, (1,))} if owed and not live else set()):
            raise Violation(f"refused with {exc_name(out)}, but a reply was queued: {due}: {situation}")
        # The session that was there still works.
        if session != "none" and node.jid:
            node.ok(node.sm.set_trust(jid, p.ik, "UNDECIDED"))
            c = p.cores[mns]
            if kind in ("continue", "replay"):
                good = p.message(mns, *own, b"still")
                out = node.call(node.sm.decrypt(good))
                if out.kind != "ok" or out.value[0] != b"still":
                    raise Violation(f"the session no longer works after a refused message: {out}: {situation}")
    return run


def impostor(tier):
    """A message that claims to be from one device but was made by another one."""
    @scenario
    def run(w, ch, ctx):
        node = Node(w, OWN, ["n1"]).must_start()
        own = (OWN, node.device_id)
        ps = {("a@x.b", 1): Peer(w, "a@x.b", 1, ik_of(1)).publish(), ("a@x.b", 2): Peer(w, "a@x.b", 2, ik_of(2)).publish(),
              ("a@x.bc", 1): Peer(w, "a@x.bc", 1, ik_of(3)).publish(), ("a@x.bc", own[1]): Peer(w, "a@x.bc", own[1], ik_of(5)).publish(),
              (OWN, 9): Peer(w, OWN, 9, ik_of(4)).publish()}
        for jid in ("a@x.b", "a@x.bc", OWN):
            node.ok(node.sm.refresh_device_lists(jid))
        for p in ps.values():
            if ch.flag(f"session with {p.jid}/{p.dev}"):
                node.ok(node.sm.decrypt(p.message("n1", *own, b"hello")))
        if ch.flag("live"):
            node.ok(node.sm.after_history_sync())
            for _, reply, to in w.sent:
                (ekm, _), = reply.keys
                ps[(ekm.bare_jid, ekm.device_id)].receive(reply)
        real = ch.pick(sorted(ps), "made by")
        claimed = ch.pick(sorted(ps), "claimed sender")
        m0 = ps[real].message("n1", *own, b"text", fresh_session=ch.flag("new session"))
        keys = m0.keys
        if real != claimed and ch.flag("key exchange removed"):
            keys = frozenset((k, None) for k, _ in keys)
        m = omemo.Message("n1", claimed[0], claimed[1], m0.content, keys)
        before = observe(w, node)
        out = node.call(node.sm.decrypt(m))
        if real == claimed:
            if out.kind != "ok" or out.value[0] != b"text":
                raise Violation(f"genuine message of {real} refused: {out}")
            ctx.outcome("accepted")
            return
        if out.kind == "ok":
            raise Violation(f"message made by {real} accepted as one of {claimed}")
        if not isinstance(out.exc, (PublicDataInconsistency, NoSession, DecryptionFailed)):
            raise Violation(f"message made by {real}, claiming {claimed}: {out.exc!r}")
        if observe(w, node) != before:
            raise Violation(f"refused message of an impostor changed something ({real} as {claimed})")
        ctx.outcome(exc_name(out))
    return run


def policies(tier):
    """A trust level whose meaning depends on the device and changes over time; also after several messages."""
    @scenario
    def run(w, ch, ctx):
        node = Node(w, OWN, ["n1"], undecided=ch.pick(("UNDECIDED", "POLICY"), "undecided name")).must_start()
        own = (OWN, node.device_id)
        shared = ch.flag("an identity key shared by all senders")
        ps = [Peer(w, jid, dev, ik_of(1 if shared else 10 * dev + len(jid))).publish()
              for jid, dev in (("a@x.b", 1), ("a@x.b", 2), ("a@x.bc.y", 1))]
        for p in ps:
            node.ok(node.sm.refresh_device_lists(p.jid))
            if node.undecided != "POLICY":
                node.ok(node.sm.set_trust(p.jid, p.ik, "POLICY"))
        if ch.flag("live"):
            node.ok(node.sm.after_history_sync())
        pks = dict(zip(ps, sorted(w.bundles[("n1",) + own].pks)))
        for i in range(3 if tier == "quick" else 4):
            p = ch.pick(ps, f"sender {i}")
            node.policy[(p.jid, p.dev)] = level = ch.pick(tuple(omemo.TrustLevel), f"policy {i}")
            m = p.message("n1", *own, b"text %d" % i, pk=pks[p])
            before = observe(w, node)
            out = node.call(node.sm.decrypt(m))
            ctx.outcome(f"{level.name} {exc_name(out)}")
            if level is omemo.TrustLevel.DISTRUSTED:
                if exc_name(out) != "SenderDistrusted" or observe(w, node) != before:
                    raise Violation(f"message {i} of {p.jid}/{p.dev}, which is distrusted now: {out}")
            elif out.kind != "ok" or out.value[0] != b"text %d" % i:
                raise Violation(f"message {i} of {p.jid}/{p.dev}, which is {level.name} now: {out}")
    return run


def scenarios(tier):
    return [("policies", policies(tier)), ("message", message(tier)), ("impostor", impostor(tier))]
