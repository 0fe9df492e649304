"""C01: content is only encrypted for identity keys that are currently trusted."""
from ..env import Node, Peer, scenario, ik_of, BundleDownloadFailed, TrustDecisionFailed
from omemo import TrustLevel
from ..enc import check_encrypt, set_trust, Need, OWN

PROP = "C01"
BOUNDS = {"quick": "recipient with 2 devices, own other device, a second recipient; every combination of stored "
                   "trust level (none, trusted, blindly, distrusted, undecided, a second undecided level, unknown), "
                   "shared or separate identity keys, existing session, callback answer per device, foreign bundle "
                   "key, bundle failure; two encryptions with a level that means something else for each device and each time"}
ASSUMPTIONS = ["the double ratchet and the key exchange are symbolic (validated against twomemo/oldmemo in C05)"]
NAMES = (None, "TRUSTED", "BLINDLY", "DISTRUSTED", "UNDECIDED", "NEW", "NONSENSE")
ANSWERS = ("TRUSTED", "DISTRUSTED", None, "NEW", "NONSENSE")


def make_decider(node, table, side=()):
    """Install a callback answering from table[(jid, dev)]; returns what the oracle needs."""
    def decided(jid, dev, ik):
        return table.get((jid, dev))
    decided.side = dict(side)

    async def decide(sm, undecided, identifier):
        for d in sorted(undecided, key=lambda d: (d.bare_jid, d.device_id)):
            name = table.get((d.bare_jid, d.device_id))
            if name is not None:
                await sm.set_trust(d.bare_jid, d.identity_key, name)
        for (jid, ik), name in dict(side).items():
            await sm.set_trust(jid, ik, name)
    node.decide = decide
    return decided


def failing(node):
    async def decide(sm, undecided, identifier):
        raise TrustDecisionFailed("no")
    node.decide = decide
    return TrustDecisionFailed


def with_sessions(node, peers, ch, ns="n1"):
    for p in peers:
        if ch.flag(f"session with {p.jid}/{p.dev}"):
            node.ok(node.sm.decrypt(p.message(ns, OWN, node.device_id, b"old")), "decrypt")


def levels(tier):
    @scenario
    def run(w, ch, ctx):
        node = Node(w, OWN, ["n1"]).must_start()
        node.maybe_live(ch)
        node.trust_log = {}
        shared = ch.flag("b's devices share an identity key")
        b1 = Peer(w, "a@x.b", 1, ik_of(1)).publish()
        b2 = Peer(w, "a@x.b", 2, ik_of(1) if shared else ik_of(2)).publish()
        o = Peer(w, OWN, 5, ik_of(3) if ch.flag("own device has a key of its own") else ik_of(1)).publish()
        node.ok(node.sm.refresh_device_lists("a@x.b"))
        node.ok(node.sm.refresh_device_lists(OWN))
        if tier == "thorough":
            with_sessions(node, (b1, b2, o), ch)
        else:
            with_sessions(node, (b1,), ch)
        for p in (b1, b2, o) if not shared else (b1, o):
            name = ch.pick(NAMES if tier == "thorough" or p is b1 else NAMES[:4], f"trust {p.jid}/{p.dev}")
            if name is not None:
                set_trust(node, p.jid, p.ik, name)
        und = [p for p in (b1, b2, o) if node.trust_log.get((p.jid, p.ik), "UNDECIDED") in ("UNDECIDED", "NEW")]
        nonsense = any(node.trust_log.get((p.jid, p.ik)) == "NONSENSE" for p in (b1, b2, o))
        side = {}
        if und and not nonsense:
            how = ch.pick(("answer", "raise", "side"), "callback")
            if how == "raise":
                decided = failing(node)
            else:
                table = {}
                for p in und:
                    if shared and p is b2 and b1 in und:
                        table[(p.jid, p.dev)] = table[(b1.jid, b1.dev)]
                        continue
                    table[(p.jid, p.dev)] = ch.pick(ANSWERS if tier == "thorough" or p is b1 else ANSWERS[:3],
                                                    f"answer {p.jid}/{p.dev}")
                if how == "side":
                    # The callback may also change its mind about somebody who was decided before.
                    others = [p for p in (b1, b2, o) if p not in und and not (shared and p is b2)]
                    if others:
                        p = others[0]
                        side[(p.jid, p.ik)] = ch.pick(("DISTRUSTED", "TRUSTED", "UNDECIDED"), "side effect")
                decided = make_decider(node, table, side)
        else:
            decided = make_decider(node, {})
        ident = ch.pick((None, "tab-7"), "identifier") if tier == "thorough" else "tab-7"
        ctx.outcome(check_encrypt(w, node, Need(PROP), {"a@x.b"}, None, {"n1": b"p"}, ident, decided))
        # Once more, with the levels as they are now.
        node.decide = None
        ctx.outcome("again " + check_encrypt(w, node, Need(PROP), {"a@x.b"}, None, {"n1": b"q"}, None,
                                             lambda *a: None))
    return run


def foreign(tier):
    """Servers that hand out other keys than the ones known, in one or two namespaces."""
    @scenario
    def run(w, ch, ctx):
        nss = ["n1", "n2"]
        node = Node(w, OWN, nss).must_start()
        node.maybe_live(ch)
        node.trust_log = {}
        b1 = Peer(w, "a@x.b", 1, ik_of(1), nss).publish()
        b2 = Peer(w, "a@x.b", 2, ik_of(2), nss).publish()
        known = ch.flag("keys known before")
        node.ok(node.sm.refresh_device_lists("a@x.b"))
        if known:
            node.ok(node.sm.get_device_information("a@x.b"))
        sess = ch.pick((None, "n1", "n2"), "session in")
        if sess is not None:
            node.ok(node.sm.decrypt(b1.message(sess, OWN, node.device_id, b"x")))
        # Keys published from now on
        for p in (b1, b2):
            for ns in nss:
                k = ch.pick(("same", "mallory", "other", "missing", "fails"), f"bundle {p.dev} {ns}")
                key = (ns, p.jid, p.dev)
                if k == "missing":
                    del w.bundles[key]
                elif k == "fails":
                    w.bundles[key] = BundleDownloadFailed
                elif k != "same":
                    w.bundles[key] = w.bundles[key].replace(ik=ik_of(66) if k == "mallory" else ik_of(3 - p.dev))
        who = ch.pick(("real", "all", "ask"), "who is trusted")
        for dev in (1, 2):
            if who != "ask":
                set_trust(node, "a@x.b", ik_of(dev), "TRUSTED")
        if who == "all":
            set_trust(node, "a@x.b", ik_of(66), "TRUSTED")
        else:
            set_trust(node, "a@x.b", ik_of(66), "DISTRUSTED")
        decided = make_decider(node, {("a@x.b", 1): "TRUSTED", ("a@x.b", 2): "TRUSTED"})
        order = ch.pick((None, ("n2", "n1"), ("n2",)), "order") if tier == "thorough" else \
            ch.pick((None, ("n2", "n1")), "order")
        ctx.outcome(check_encrypt(w, node, Need(PROP), {"a@x.b"}, order, {"n1": b"p", "n2": b"q"}, None, decided))
    return run


def accounts(tier):
    """The same identity key under several accounts has independent trust."""
    @scenario
    def run(w, ch, ctx):
        node = Node(w, OWN, ["n1"], undecided=ch.pick(("UNDECIDED", "NEW"), "undecided name")).must_start()
        node.trust_log = {}
        ps = [Peer(w, jid, 1 if jid != OWN else 5, ik_of(1)).publish() for jid in ("a@x.b", "a@x.bc", OWN)]
        for p in ps:
            node.ok(node.sm.refresh_device_lists(p.jid))
        for p in ps:
            name = ch.pick(NAMES[:6], f"trust {p.jid}")
            if name is not None:
                set_trust(node, p.jid, p.ik, name)
        if ch.flag("restart"):
            node.must_start()
        table = {}
        for p in ps:
            if node.trust_log.get((p.jid, p.ik), node.undecided) in ("UNDECIDED", "NEW"):
                table[(p.jid, p.dev)] = ch.pick(ANSWERS[:3], f"answer {p.jid}")
        decided = make_decider(node, table)
        rec = ch.pick(({"a@x.b"}, {"a@x.b", "a@x.bc"}, {"a@x.bc", OWN}), "recipients")
        ctx.outcome(check_encrypt(w, node, Need(PROP), rec, None, {"n1": b"p"}, "i", decided))
    return run


def policies(tier):
    """A trust level whose meaning depends on the device and changes over time."""
    @scenario
    def run(w, ch, ctx):
        node = Node(w, OWN, ["n1"], undecided=ch.pick(("UNDECIDED", "POLICY"), "undecided name")).must_start()
        node.maybe_live(ch)
        node.trust_log = {}
        shared = ch.flag("b's devices share an identity key")
        ps = [Peer(w, "a@x.b", 1, ik_of(1)).publish(), Peer(w, "a@x.b", 2, ik_of(1) if shared else ik_of(2)).publish(),
              Peer(w, OWN, 5, ik_of(1)).publish()]
        for p in ps:
            node.ok(node.sm.refresh_device_lists(p.jid))
            if node.undecided != "POLICY":
                set_trust(node, p.jid, p.ik, "POLICY")
        for i in range(2 if tier == "quick" else 3):
            for p in ps:
                node.policy[(p.jid, p.dev)] = ch.pick(tuple(TrustLevel), f"policy {i} {p.jid}/{p.dev}")
            ask = ch.pick(("nothing", "policy", "level"), "callback")
            if ask == "policy":         # the callback changes the policy, not the levels
                async def decide(sm, undecided, identifier):
                    for d in undecided:
                        node.policy[(d.bare_jid, d.device_id)] = TrustLevel.TRUSTED
                node.decide, decided = decide, lambda *a: None
            elif ask == "level":
                decided = make_decider(node, {(p.jid, p.dev): "TRUSTED" for p in ps})
            else:
                decided = make_decider(node, {})
            if ask == "level" and shared and len({node.policy[(p.jid, p.dev)] for p in ps[:2]}) > 1:
                return  # the answer about one device concerns the other as well
            ctx.outcome(check_encrypt(w, node, Need(PROP), {"a@x.b"}, None, {"n1": b"p"}, None, decided))
    return run


def scenarios(tier):
    return [("policies", policies(tier)), ("levels", levels(tier)), ("foreign-bundles", foreign(tier)), ("accounts", accounts(tier))]
