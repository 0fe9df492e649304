"""C02: encryption reaches exactly the eligible devices, once each, by priority."""
from ..env import Node, Peer, scenario, ik_of, BundleDownloadFailed, BundleNotFound, spread
from ..enc import check_encrypt, set_trust, Need, OWN

PROP = "C02"
BOUNDS = {"quick": "two loaded namespaces and one that is not loaded; a recipient with 2 devices, a second recipient, "
                   "own other devices; three loaded namespaces with 3 devices; every combination of activity per namespace, priority order, recipient set, "
                   "existing session, bundle state (usable, missing, failing, unusable, empty, foreign key), and "
                   "identity key known before or not; up to 70 devices for each of three accounts; "
                   "bundles that change after a refused, partial or no earlier encryption"}
ASSUMPTIONS = ["the double ratchet and the key exchange are symbolic (validated against twomemo/oldmemo in C05)"]
N = ("n1", "n2")
PT = {"n1": b"for n1", "n2": b"for n2", "n3": b"for n3"}
ORDERS = (None, ("n1",), ("n2",), ("n2", "n1"), ("n1", "n2"), ("n3", "n1"), ())
# listed under (first list), still listed under (last list)
ACTIVITY = {
    "n1": ("n1", "n1"), "n2": ("n2", "n2"), "both": ("n1 n2", "n1 n2"), "n1, n2 gone": ("n1 n2", "n1"),
    "n2, n1 gone": ("n1 n2", "n2"), "gone": ("n1 n2", ""), "n3": ("n3", "n3"), "n3, n1 gone": ("n3 n1", "n3")
}


def feed(node, jid, ids_by_ns, namespaces):
    for ns in namespaces:
        node.ok(node.sm.update_device_list(ns, jid, {d: None for d in ids_by_ns.get(ns, ())}), "update_device_list")


def routing(tier):
    acts = list(ACTIVITY) if tier == "thorough" else ["n1", "n2", "both", "n1, n2 gone", "n2, n1 gone", "gone"]
    few = ["both", "n2", "gone"]

    @scenario
    def run(w, ch, ctx):
        order = ch.pick(ORDERS, "order")
        rec = ch.pick((frozenset({"a@x.b"}), frozenset({"a@x.b", "a@x.bc"}), frozenset(), frozenset({OWN, "a@x.bc"})),
                      "recipients")
        loaded = ch.pick((("n1", "n2"), ("n2", "n1")), "backend order") if order is None or tier == "thorough" \
            else ("n1", "n2")
        node = Node(w, OWN, loaded, cache=True).must_start()
        node.maybe_live(ch)
        node.trust_log = {}
        ps = [Peer(w, "a@x.b", 1, ik_of(1), N), Peer(w, "a@x.b", 2, ik_of(2), N), Peer(w, "a@x.bc", node.device_id, ik_of(3), N),
              Peer(w, OWN, 1, ik_of(4), N)]      # ids may be shared between accounts
        act = {}
        for p in ps:
            relevant = p.jid in rec or p.jid == OWN
            act[p] = ch.pick((acts if p.jid == "a@x.b" else few) if relevant else ["both"], f"{p.jid}/{p.dev}")
        for step in (0, 1):
            for jid in ("a@x.b", "a@x.bc", OWN):
                for ns in N:
                    ids = {p.dev: None for p in ps if p.jid == jid and ns in ACTIVITY[act[p]][step].split()}
                    if jid == OWN:
                        ids[node.device_id] = "me"
                    w.lists[(ns, jid)] = ids
                    node.ok(node.sm.update_device_list(ns, jid, dict(ids)), "update_device_list")
        for p in ps:
            p.publish(listed=False)
            set_trust(node, p.jid, p.ik, "TRUSTED")
        # Trust must not decide here; one distrusted device at a time must simply be left out.
        bad = ch.pick((None, 0), "distrusted") if tier == "quick" else ch.pick((None, 0, 2, 3), "distrusted")
        if bad is not None:
            set_trust(node, ps[bad].jid, ps[bad].ik, "DISTRUSTED")
        ctx.outcome(check_encrypt(w, node, Need(PROP), rec, order, PT, None, lambda *a: None))
    return run


STATES = ("ok", "missing", "fails", "bad", "empty", "foreign")


def trouble(tier):
    @scenario
    def run(w, ch, ctx):
        node = Node(w, OWN, N).must_start()
        node.maybe_live(ch)
        node.trust_log = {}
        ps = [Peer(w, "a@x.b", 1, ik_of(1), N), Peer(w, "a@x.b", 2, ik_of(2), N), Peer(w, OWN, 1, ik_of(4), N)]
        if tier == "thorough":
            ps.append(Peer(w, "a@x.bc", 2, ik_of(5), N))
        lists = {}
        for p in ps:
            where = ch.pick(("n1", "n2"), f"{p.jid}/{p.dev} in") if p.jid != OWN else "n1"
            lists[p] = where
            p.publish(listed=False)
        for jid in ("a@x.b", "a@x.bc", OWN):
            for ns in N:
                ids = {p.dev: None for p in ps if p.jid == jid and lists[p] == ns}
                if jid == OWN:
                    ids[node.device_id] = "me"
                node.ok(node.sm.update_device_list(ns, jid, ids), "update_device_list")
        for p in ps:
            set_trust(node, p.jid, p.ik, "TRUSTED")
            set_trust(node, p.jid, ik_of(77), "TRUSTED")
            how = ch.pick(("key unknown", "key known", "session") if p.jid == "a@x.b" or tier == "thorough" else
                          ("key unknown", "session"), f"before {p.jid}/{p.dev}")
            if how == "key known":
                node.ok(node.sm.get_device_information(p.jid))
            elif how == "session":
                node.ok(node.sm.decrypt(p.message(lists[p], OWN, node.device_id, b"x")))
        for p in ps:
            st = ch.pick(STATES if p.jid == "a@x.b" or tier == "thorough" else ("ok", "fails", "bad"),
                         f"bundle {p.jid}/{p.dev}")
            key = (lists[p], p.jid, p.dev)
            if st == "missing":
                del w.bundles[key]
            elif st == "fails":
                w.bundles[key] = BundleDownloadFailed
            elif st == "bad":
                w.bundles[key] = w.bundles[key].replace(bad=True)
            elif st == "empty":
                w.bundles[key] = w.bundles[key].replace(pks=())
            elif st == "foreign":
                w.bundles[key] = w.bundles[key].replace(ik=ik_of(77))
        rec = {p.jid for p in ps if p.jid != OWN}
        ctx.outcome(check_encrypt(w, node, Need(PROP), rec, None, PT, None, lambda *a: None))
        if tier == "thorough" or ch.flag("again"):
            ctx.outcome("again " + check_encrypt(w, node, Need(PROP), rec, ("n2", "n1"), PT, None, lambda *a: None))
    return run


def unloaded(tier):
    """Devices that are known from a namespace whose backend is not loaded any more."""
    @scenario
    def run(w, ch, ctx):
        node = Node(w, OWN, ("n1", "n2", "n3")).must_start()
        node.trust_log = {}
        nss = ("n1", "n2", "n3")
        ps = [Peer(w, "a@x.b", 1, ik_of(1), nss), Peer(w, "a@x.b", 2, ik_of(2), nss), Peer(w, OWN, 1, ik_of(3), nss)]
        sub = ("n3", "n1 n3", "n2 n3", "n1", "n1 n2 n3")
        act = {p: ch.pick(sub, f"{p.jid}/{p.dev} in") for p in ps}
        for jid in ("a@x.b", OWN):
            for ns in nss:
                ids = {p.dev: None for p in ps if p.jid == jid and ns in act[p].split()}
                if jid == OWN:
                    ids[node.device_id] = "me"
                w.lists[(ns, jid)] = dict(ids)
                node.ok(node.sm.update_device_list(ns, jid, ids))
        for p in ps:
            p.publish(listed=False)
            set_trust(node, p.jid, p.ik, "TRUSTED")
        if ch.flag("keys known"):
            node.ok(node.sm.get_device_information("a@x.b"))
            node.ok(node.sm.get_device_information(OWN))
        if ch.flag("application still knows n3"):
            node.known_ns = list(nss)
        how = ch.pick(("purge", "restart without", "restart with different order"), "then")
        if how == "purge":
            node.ok(node.sm.purge_backend("n3"), "purge_backend")
            node.namespaces = ["n1", "n2"]
            node.backends = [b for b in node.backends if b.namespace != "n3"]
        elif how == "restart without":
            node.must_start(("n1", "n2"))
        else:
            node.must_start(("n2", "n1"))
        order = ch.pick((None, ("n2", "n1"), ("n1",), ("n1", "n3")), "order")
        ctx.outcome(check_encrypt(w, node, Need(PROP), {"a@x.b"}, order, PT, None, lambda *a: None))
    return run


def changed(tier):
    """Bundles that change between encryptions: a new session takes what is published now."""
    @scenario
    def run(w, ch, ctx):
        node = Node(w, OWN, N, cache=ch.flag("cache")).must_start()
        node.maybe_live(ch)
        node.trust_log = {}
        ps = [Peer(w, "a@x.b", 1, ik_of(1), N).publish(), Peer(w, "a@x.b", 2, ik_of(2), N).publish(),
              Peer(w, "a@x.bc", 1, ik_of(3), N).publish(), Peer(w, OWN, 1, ik_of(4), N).publish()]
        for jid in ("a@x.b", "a@x.bc", OWN):
            node.ok(node.sm.refresh_device_lists(jid))
        how = ch.pick(("undecided", "distrusted", "no device", "unusable", "asked for information", "not at all"), "before")
        for p in ps[2:]:
            set_trust(node, p.jid, p.ik, "TRUSTED")
        for p in ps[:2]:
            if how != "undecided":
                set_trust(node, p.jid, p.ik, "DISTRUSTED" if how == "distrusted" and p.dev == 1 else "TRUSTED")
        if how == "no device":
            w.bundles[("n1", "a@x.bc", 1)] = BundleNotFound
        elif how == "unusable":
            w.bundles[("n1", "a@x.b", 1)] = w.bundles[("n1", "a@x.b", 1)].replace(bad=True)
        if how == "asked for information":
            for jid in ("a@x.b", "a@x.bc", OWN):
                node.ok(node.sm.get_device_information(jid))
        elif how != "not at all":
            ctx.outcome(check_encrypt(w, node, Need(PROP), {"a@x.b", "a@x.bc"}, None, PT, None, lambda *a: None))
        for p in ps[:2]:
            set_trust(node, p.jid, p.ik, "TRUSTED")
        ps[2].publish()
        for p in ps:
            new = ch.pick(("rotated", "used up", "same"), f"bundle of {p.jid}/{p.dev}") if p.jid != "a@x.bc" else "rotated"
            for ns in N:
                b = w.bundles[(ns, p.jid, p.dev)].replace(bad=False)
                if new == "rotated":
                    b = b.replace(spk=b.spk + 1000)
                elif new == "used up":
                    b = b.replace(pks=[x + 1000 for x in b.pks])
                w.bundles[(ns, p.jid, p.dev)] = b
        if ch.flag("list update in between"):
            node.ok(node.sm.refresh_device_lists("a@x.b"))
        order = ch.pick((None, ("n2", "n1")), "order")
        ctx.outcome(check_encrypt(w, node, Need(PROP), {"a@x.b", "a@x.bc"}, order, PT, None, lambda *a: None))
    return run


def crowd(tier):
    """Many devices at once."""
    @scenario
    def run(w, ch, ctx):
        node = Node(w, OWN, N).must_start()
        node.maybe_live(ch)
        node.trust_log = {}
        n = ch.pick((17, 40, 70), "devices per account")
        ps = [Peer(w, jid, dev, ik_of(d), N).publish() for jid in ("a@x.b", "a@x.bc", OWN)
              for d, dev in enumerate(spread(n))]
        for jid in ("a@x.b", "a@x.bc", OWN):
            node.ok(node.sm.refresh_device_lists(jid))
        for i, p in enumerate(ps):
            set_trust(node, p.jid, p.ik, "DISTRUSTED" if i % 7 == 3 else "TRUSTED")
            if i % 5 == 1:
                del w.bundles[("n1", p.jid, p.dev)]
        order = ch.pick((None, ("n2", "n1")), "order")
        for text in (b"1", b"2"):
            ctx.outcome(check_encrypt(w, node, Need(PROP), {"a@x.b", "a@x.bc"}, order, {"n1": text, "n2": text}, None,
                                      lambda *a: None))
    return run


def three(tier):
    """Three backends."""
    M = ("n1", "n2", "n3")
    sets = [tuple(ns for i, ns in enumerate(M) if k >> i & 1) for k in range(8)]

    @scenario
    def run(w, ch, ctx):
        node = Node(w, OWN, ch.pick((M, ("n3", "n1", "n2")), "backend order")).must_start()
        node.trust_log = {}
        order = ch.pick((None, ("n3", "n2", "n1"), ("n2", "n3"), ("n3",)) if node.namespaces[0] == "n1" else (None,), "order")
        ps = [Peer(w, "a@x.b", 1, ik_of(1), M), Peer(w, "a@x.b", 2, ik_of(2), M), Peer(w, OWN, 1, ik_of(4), M)]
        for p in ps:
            p.publish(listed=False)
        act = {p: ch.pick(sets, f"{p.jid}/{p.dev}") for p in ps}
        for jid in ("a@x.b", OWN):
            mine = {node.device_id: node.label} if jid == OWN else {}
            for ns in M:
                node.ok(node.sm.update_device_list(ns, jid, {**{p.dev: None for p in ps if p.jid == jid}, **mine}))
            for ns in M:
                node.ok(node.sm.update_device_list(ns, jid, {**{p.dev: None for p in ps if p.jid == jid and ns in act[p]}, **mine}))
        for p in ps:
            set_trust(node, p.jid, p.ik, "TRUSTED")
        ctx.outcome(check_encrypt(w, node, Need(PROP), {"a@x.b"}, order, PT, None, lambda *a: None))
    return run


def scenarios(tier):
    return [("crowd", crowd(tier)), ("three-backends", three(tier)), ("changed-bundles", changed(tier)), ("routing", routing(tier)), ("bundle-trouble", trouble(tier)), ("unloaded-backend", unloaded(tier))]
