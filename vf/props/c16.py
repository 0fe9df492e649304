"""C16: manual session replacement is atomic per backend and notifies the peer."""
import copy

from ..env import Node, Peer, scenario, ik_of, exc_name, Faults, ekms, BundleDownloadFailed
from ..enc import OWN
from ..explore import Violation

PROP = "C16"
BOUNDS = {
    "quick": "two (in a smaller set three) backends, both or one loaded, a device of a contact or of the own account; per backend every session state "
             "(none, initiated, confirmed, received) and every bundle (good, unusable, other identity key, missing, "
             "undownloadable); complete, outdated or empty device information as the argument; without failures and, for "
             "good bundles, with a failure, a late failure or a crash at every interaction; repeated afterwards",
    "thorough": "failures with every bundle state, and two failures"
}
ASSUMPTIONS = ["a backend method is atomic"]
B = "a@x.b"
STATES = ("none", "initiated", "confirmed", "received")
BUNDLES = ("good", "bad", "other", "missing", "error")


def replace(bundle_states, budget, jids=(B, OWN), nss=("n1", "n2"), loads=(("n1", "n2"), ("n2", "n1"), ("n2",)), states=STATES):
    @scenario
    def run(w, ch, ctx):
        loaded = ch.pick(loads, "loaded")
        jid = ch.pick(jids, "account")
        node = Node(w, OWN, list(nss)).must_start()
        sm = node.sm
        live = ch.flag("live")
        if live:
            node.ok(sm.after_history_sync())
        p = Peer(w, jid, 1, ik_of(1), nss, label="old").publish()
        q = Peer(w, jid, 2, ik_of(2), nss).publish()
        c = Peer(w, "a@x.bc", 1, ik_of(1), nss).publish()
        node.ok(sm.refresh_device_lists(jid))
        node.ok(sm.refresh_device_lists("a@x.bc"))
        for j, k in ((jid, 1), (jid, 2), ("a@x.bc", 1)):
            node.ok(sm.set_trust(j, ik_of(k), "TRUSTED"))
        for ns in nss:
            node.ok(sm.decrypt(q.message(ns, OWN, node.device_id)))
            node.ok(sm.decrypt(c.message(ns, OWN, node.device_id)))
        state, key_of = {}, ik_of(1)
        device = node.ok(sm.get_device_information(jid))
        device, = [d for d in device if d.device_id == 1]
        for ns in nss:
            state[ns] = ch.pick(states, f"session in {ns}")
            if state[ns] == "received":
                node.ok(sm.decrypt(p.message(ns, OWN, node.device_id)))
            elif state[ns] != "none":
                ms, errors = node.ok(sm.encrypt(frozenset({jid}), {ns: b"x"}, [ns]))
                m, = ms
                p.receive(m)
                p.publish()
                if state[ns] == "confirmed":
                    node.ok(sm.decrypt(p.message(ns, OWN, node.device_id)))
        distrusted = ch.flag("device distrusted")
        if distrusted:
            node.ok(sm.set_trust(jid, ik_of(1), "DISTRUSTED"))
        gone = () if distrusted else ch.pick(((), ("n1",), ("n2",)), "no longer listed in")
        for ns in gone:
            del w.lists[(ns, jid)][1]
            node.ok(sm.update_device_list(ns, jid, dict(w.lists[(ns, jid)])))
        if loaded != nss:
            node.must_start(list(loaded))
            if live:
                node.ok(node.sm.after_history_sync())
        online = {}
        for ns in nss:
            k = (ns, jid, 1)
            online[ns] = w.bundles[k]
            b = ch.pick(bundle_states, f"bundle in {ns}") if ns in loaded and state[ns] != "none" else "good"
            if b == "bad":
                w.bundles[k] = w.bundles[k].replace(bad=True)
            elif b == "other":
                w.bundles[k] = w.bundles[k].replace(ik=ik_of(9))
            elif b == "missing":
                del w.bundles[k]
            elif b == "error":
                w.bundles[k] = BundleDownloadFailed
            state[ns] = (state[ns], b)
        arg = ch.pick(("current", "stale"), "argument")
        if arg == "stale":
            device = device._replace(namespaces=frozenset(), active=frozenset(), identity_key=ik_of(7), label=None)

        full, = [d for d in node.ok(node.sm.get_device_information(jid)) if d.device_id == 1]
        lengths = node.ok(node.sm.get_sending_chain_length(full), "get_sending_chain_length")
        want = {ns: node.sessions(ns)[(jid, 1)]["sn"] if (jid, 1) in node.sessions(ns) else None for ns in loaded}
        if lengths != want:
            raise Violation(f"sending chain lengths {lengths} reported, they are {want}")

        def judge(faults, first):
            before = copy.deepcopy({ns: node.sessions(ns) for ns in nss})
            kv = dict(node.disk.kv)
            sent, logged = len(w.sent), len(w.log)
            seen = {}

            def monitor(n, op, args):
                if op == "be.store_session":
                    mine = [m for _, m, _ in w.sent[sent:] if m.namespace == args["ns"]]
                    if not mine or next(iter(mine[-1].keys))[1] != args["session"].key_exchange:
                        w.flag("a replacement is stored before the peer was notified of it")
                elif op == "be.build_active":
                    if args["bundle"].identity_key != key_of:
                        w.flag("a replacement session is built from a bundle with another identity key")
                seen["ns"] = args.get("ns")
            w.monitor = monitor
            hits = len(faults.hits)
            out = node.call(node.sm.replace_sessions(device))
            w.monitor = None
            hit = faults.hits[hits:]
            after = {ns: node.sessions(ns) for ns in nss}
            new = w.sent[sent:]
            if len(w.log) - logged != len(new):
                raise Violation("replacing sessions published something")
            if dict(node.disk.kv) != kv:
                raise Violation("replacing sessions changed core data")
            if out.kind == "ok":
                failures = out.value
            elif not hit:
                raise Violation(f"replace_sessions failed: {out.exc!r}")
            else:
                failures = None
            msgs = {}
            for frm, m, to in new:
                if m.namespace in msgs:
                    raise Violation(f"two notifications in {m.namespace}")
                msgs[m.namespace] = m
                if to != jid or m.bare_jid != OWN or m.device_id != node.device_id:
                    raise Violation(f"notification of {m.bare_jid}/{m.device_id} sent to {to}")
                if not m.content.empty:
                    raise Violation("the notification has content")
                if set(ekms(m)) != {(jid, 1)} or len(m.keys) != 1:
                    raise Violation(f"notification for {sorted(ekms(m))}")
            for ns in nss:
                old, got = before[ns].get((jid, 1)), after[ns].get((jid, 1))
                if {k: v for k, v in before[ns].items() if k != (jid, 1)} != \
                        {k: v for k, v in after[ns].items() if k != (jid, 1)}:
                    raise Violation(f"sessions of another device changed in {ns}")
                target = ns in loaded and old is not None
                if not target:
                    if old != got or ns in msgs or (failures and ns in failures):
                        raise Violation(f"{ns} has no session to replace but was touched")
                    continue
                usable = state[ns][1] == "good"
                if not usable:
                    if old != got or ns in msgs:
                        raise Violation(f"{ns}: replaced although the bundle is {state[ns][1]}")
                    if failures is not None and ns not in failures:
                        raise Violation(f"{ns}: a failed replacement ({state[ns][1]}) is not reported")
                elif not hit:
                    if failures.get(ns) is not None:
                        raise Violation(f"{ns}: replacement failed: {failures[ns]!r}")
                    if ns not in msgs:
                        raise Violation(f"{ns}: the peer is not notified")
                    if got == old:
                        raise Violation(f"{ns}: the replacement is not stored")
                if old != got:
                    (ekm, kex), = msgs[ns].keys
                    if kex is None or kex != got["kex"] or got["role"] != "I" or ekm.sid != got["sid"]:
                        raise Violation(f"{ns}: the notification does not carry the stored session")
                    if got["rik"] != key_of:
                        raise Violation(f"{ns}: the replacement belongs to another identity key")
                if failures is not None and old != got and ns in failures:
                    raise Violation(f"{ns}: replaced, but a failure is reported")
                if failures is not None and old == got and ns not in failures:
                    raise Violation(f"{ns}: not replaced, but no failure is reported")
            if hit:
                op, kind = hit[0]
                if kind == "crash":
                    if out.kind != "crash":
                        raise Violation("survived a crash")
                elif op in ("dn_bundle", "send", "be.store_session", "be.build_active", "be.encrypt_empty"):
                    if failures is None:
                        raise Violation(f"failure of {op} was not confined to one backend: {out.exc!r}")
                    broken = [ns for ns in loaded if before[ns].get((jid, 1)) is not None and state[ns][1] == "good"
                              and ns in failures]
                    if len(broken) > len(hit):
                        raise Violation(f"failure of {op} affected {broken}")
                    if len(hit) == 1 and len(broken) != 1:
                        raise Violation(f"failure of {op} was not reported")
                elif failures is None:
                    if exc_name(out) != "StorageException" or new:
                        raise Violation(f"{out.exc!r} after failed {op}, {len(new)} notifications sent")
            if failures is not None:
                for ns, e in failures.items():
                    want = {"missing": "BundleNotFound", "error": "BundleDownloadFailed", "bad": "KeyExchangeFailed",
                            "other": "KeyExchangeFailed"}.get(state[ns][1])
                    if not hit and want and type(e).__name__ != want:
                        raise Violation(f"{ns}: {type(e).__name__} reported for a bundle that is {state[ns][1]}")
            # What was sent and stored works; what was kept works.
            for ns in nss:
                if ns in msgs and after[ns].get((jid, 1)) != before[ns].get((jid, 1)):
                    if p.receive(msgs[ns]) is not None:
                        raise Violation("content")
                    p.publish((ns,))
                    state[ns] = ("initiated", state[ns][1])
            return out

        faults = Faults(w, node, budget, ("fail", "late", "crash"))
        out = judge(faults, True)
        ctx.outcome(f"{exc_name(out)} {sorted(out.value) if out.kind == 'ok' else ''} {faults.hits}")
        budget_left, faults.budget = faults.budget, 0
        if node.sm is None:
            node.must_start(list(loaded))
            if live:
                node.ok(node.sm.after_history_sync())

        def works(ns):
            if node.sessions(ns).get((jid, 1)) is None:
                return
            d = node.sessions(ns)[(jid, 1)]
            mine = p.cores[ns].load(OWN, node.device_id)
            if mine is None or mine.sid != d["sid"]:
                return
            content = f"to {ns}".encode()
            pt, dev, _ = node.ok(node.sm.decrypt(p.message(ns, OWN, node.device_id, content)),
                                 f"decryption over the session in {ns}")
            if pt != content or dev.device_id != 1 or dev.bare_jid != jid:
                raise Violation("wrong content over a session after replacement")
            ms, errors = node.ok(node.sm.encrypt(frozenset({jid}), {ns: b"back"}, [ns]))
            if errors or p.receive([m for m in ms if (jid, 1) in ekms(m)][0]) != b"back":
                raise Violation("the peer cannot decrypt after replacement")
        if not distrusted and ch.flag("use sessions"):
            for ns in loaded:
                if ns not in gone:
                    works(ns)
        if faults.hits:
            faults.budget = budget_left
            judge(faults, False)
    return run


THREE = (("n1", "n2", "n3"), (("n1", "n2", "n3"), ("n3", "n2")), ("none", "received"))


def scenarios(tier):
    if tier == "quick":
        return [("three-backends", replace(("good", "error"), 0, (B,), *THREE)), ("bundles", replace(BUNDLES, 0)), ("failures", replace(("good",), 1, (B,)))]
    return [("three-backends", replace(("good", "error"), 1, (B,), *THREE)), ("bundles", replace(BUNDLES, 0)), ("failures", replace(BUNDLES, 1)), ("twice", replace(("good",), 2, (B,)))]
