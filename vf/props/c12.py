"""C12: trust belongs to account and identity key; the latest setting wins."""
from ..env import Node, Peer, scenario, ik_of, exc_name, LEVELS, ekms
from ..enc import OWN
from ..explore import Violation

PROP = "C12"
BOUNDS = {
    "quick": "every sequence of 3 operations out of: three levels for two identity keys in two accounts and the own account, "
             "device lists (two devices sharing a key, one with another key, the same key in another account), encryption "
             "with and without deciding, decryption, label change, restart with the same or another undecided level",
    "thorough": "every sequence of 4 operations"
}
ASSUMPTIONS = ["no concurrent trust changes (C20)"]

K1, K2 = ik_of(1), ik_of(2)


def history(depth):
    @scenario
    def run(w, ch, ctx):
        node = Node(w, OWN, ["n1", "n2"], undecided=ch.pick(("UNDECIDED", "NEW"), "undecided level"),
                    cache=ch.pick((True, False), "cache"))
        node.must_start()
        node.maybe_live(ch)
        Peer(w, "a@x.b", 1, K1, ("n1",)).publish()
        Peer(w, "a@x.b", 2, K1, ("n2",)).publish()
        p3 = Peer(w, "a@x.b", 3, K2, ("n1", "n2")).publish()
        pc = Peer(w, "a@x.bc", 1, K1, ("n1",)).publish()
        Peer(w, OWN, 9, K1, ("n1",)).publish()
        model = {}
        ops = [("trust", "a@x.b", K1, "TRUSTED"), ("trust", "a@x.b", K1, "DISTRUSTED"), ("trust", "a@x.b", K1, "UNDECIDED"),
               ("trust", "a@x.b", K2, "TRUSTED"), ("trust", "a@x.bc", K1, "BLINDLY"), ("trust", OWN, K1, "DISTRUSTED"),
               ("lists",), ("gone",), ("encrypt", None), ("encrypt", "BLINDLY"), ("decrypt", "a@x.bc"), ("decrypt", "a@x.b"),
               ("label",), ("restart",), ("level",)]

        def name(jid, ik):
            return model.get((jid, ik), node.undecided)

        def check(what):
            for jid in ("a@x.b", "a@x.bc", OWN):
                for d in node.ok(node.sm.get_device_information(jid)):
                    if jid == OWN and d.device_id == node.device_id:
                        continue
                    if d.trust_level_name != name(jid, d.identity_key):
                        raise Violation(f"after {what}: {jid}/{d.device_id} has trust {d.trust_level_name} instead of "
                                        f"{name(jid, d.identity_key)}")

        def encrypt(decide):
            async def cb(sm, undecided, identifier):
                for d in undecided:
                    if d.trust_level_name != name(d.bare_jid, d.identity_key):
                        raise Violation(f"{d.bare_jid}/{d.device_id} is submitted with trust {d.trust_level_name} instead "
                                        f"of {name(d.bare_jid, d.identity_key)}")
                for d in sorted(undecided, key=lambda d: (d.bare_jid, d.device_id)):
                    if decide is not None:
                        await sm.set_trust(d.bare_jid, d.identity_key, decide)
                        model[(d.bare_jid, d.identity_key)] = decide
            node.decide = cb
            known = {(jid, d.device_id): d for jid in ("a@x.b", "a@x.bc", OWN)
                     for d in node.ok(node.sm.get_device_information(jid))}
            out = node.call(node.sm.encrypt(frozenset({"a@x.b", "a@x.bc"}), {"n1": b"1", "n2": b"2"}))
            if out.kind == "ok":
                got = {k for m in out.value[0] for k in ekms(m)}
                for k in got:
                    if LEVELS[name(k[0], known[k].identity_key)] is not LEVELS["TRUSTED"]:
                        raise Violation(f"encrypted for {k}, trust is {name(k[0], known[k].identity_key)}")
                for k, d in known.items():
                    if any(a for _, a in d.active) and k not in got and k != (OWN, node.device_id) and \
                            LEVELS[name(k[0], d.identity_key)] is LEVELS["TRUSTED"]:
                        raise Violation(f"not encrypted for {k}, trust is {name(k[0], d.identity_key)}")
            ctx.outcome(f"encrypt {exc_name(out)}")

        for i in range(depth):
            op = ch.pick(ops, f"op {i}")
            if op[0] == "trust":
                node.ok(node.sm.set_trust(*op[1:]))
                model[(op[1], op[2])] = op[3]
            elif op[0] == "lists":
                for jid in ("a@x.b", "a@x.bc", OWN):
                    node.ok(node.sm.refresh_device_lists(jid))
            elif op[0] == "gone":
                node.ok(node.sm.update_device_list("n1", "a@x.b", {}))
            elif op[0] == "encrypt":
                encrypt(op[1])
            elif op[0] == "decrypt":
                p = pc if op[1] == "a@x.bc" else p3
                out = node.call(node.sm.decrypt(p.message("n1", OWN, node.device_id)))
                level = LEVELS[name(p.jid, p.ik)]
                if level is LEVELS["DISTRUSTED"]:
                    if exc_name(out) != "SenderDistrusted":
                        raise Violation(f"message of a distrusted sender: {out}")
                elif out.kind != "ok":
                    raise Violation(f"message refused: {out.exc!r}")
                elif out.value[1].trust_level_name != name(p.jid, p.ik):
                    raise Violation(f"sender reported with {out.value[1].trust_level_name} instead of {name(p.jid, p.ik)}")
            elif op[0] == "label":
                node.ok(node.sm.set_own_label("l"))
            elif op[0] == "restart":
                node.must_start()
            elif op[0] == "level":
                node.undecided = "NEW" if node.undecided == "UNDECIDED" else "UNDECIDED"
                node.must_start()
            check(op)
        for jid in ("a@x.b", "a@x.bc", OWN):
            node.ok(node.sm.refresh_device_lists(jid))
        node.must_start()
        check("all")
        encrypt("TRUSTED")
        check("the last encryption")
    return run


def scenarios(tier):
    return [("settings", history(3 if tier == "quick" else 4))]
