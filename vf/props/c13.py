"""C13: purging an account removes all of its data and nothing else."""
import copy

from ..env import Node, Peer, scenario, ik_of, exc_name, Faults, ekms
from ..enc import OWN
from ..explore import Violation

PROP = "C13"
BOUNDS = {
    "quick": "every history of 3 operations (lists in two namespaces, known or unknown identity keys, trust settings, "
             "sessions in both directions, restart, one backend not loaded) for an account and a second one with a similar "
             "name and the same key, then a purge; with no interruption, and with a failure or crash at every interaction "
             "of the purge after every history of 2, repeated until it succeeds; accounts of up to 70 devices",
    "thorough": "histories of 4, interrupted after histories of 3, two interruptions after histories of 2"
}
ASSUMPTIONS = ["a backend method is atomic", "the purged account is not the own one"]
B, C = "a@x.b", "a@x.b.org"


def mentions(key, jid):
    return jid in key.split("/")


def history(depth, budget):
    @scenario
    def run(w, ch, ctx):
        nss = ["n1", "n2"]
        node = Node(w, OWN, nss).must_start()
        b1 = Peer(w, B, 1, ik_of(1), ("n1", "n2")).publish()
        b2 = Peer(w, B, 2, ik_of(2), ("n2",)).publish()
        c1 = Peer(w, C, 1, ik_of(1), ("n1", "n2")).publish()
        node.ok(node.sm.refresh_device_lists(C))
        node.ok(node.sm.set_trust(C, ik_of(1), "TRUSTED"))
        node.ok(node.sm.set_trust(C, ik_of(2), "DISTRUSTED"))
        node.ok(node.sm.encrypt(frozenset({C}), {ns: b"x" for ns in nss}))
        ops = [("list", "n1"), ("list", "n2"), ("seen",), ("trust", 1), ("trust", 2), ("encrypt",), ("decrypt", "n1"),
               ("decrypt", "n2"), ("restart", ("n1", "n2")), ("restart", ("n2",)), ("live",)]
        for i in range(depth):
            op = ch.pick(ops, f"op {i}")
            nss = [x.namespace for x in node.backends]
            if op[0] == "list":
                if op[1] in nss:
                    node.ok(node.sm.refresh_device_list(op[1], B))
            elif op[0] == "seen":
                node.ok(node.sm.get_device_information(B))
            elif op[0] == "trust":
                node.ok(node.sm.set_trust(B, ik_of(op[1]), "TRUSTED"))
            elif op[0] == "encrypt":
                node.call(node.sm.encrypt(frozenset({B}), {ns: b"x" for ns in nss}))
            elif op[0] == "decrypt":
                if op[1] in nss:
                    p = b1 if op[1] == "n1" else b2
                    if (op[1], OWN, node.device_id) in w.bundles:
                        node.ok(node.sm.decrypt(p.message(op[1], OWN, node.device_id, fresh_session=True)))
            elif op[0] == "restart":
                node.must_start(list(op[1]))
            elif op[0] == "live":
                node.ok(node.sm.after_history_sync())
        nss = [x.namespace for x in node.backends]
        # identity keys the library knows for devices of the account, as it shows them (asked without network)
        online, w.bundles = w.bundles, {}
        known = {d.identity_key for d in node.ok(node.sm.get_device_information(B))}
        info_c = node.ok(node.sm.get_device_information(C))
        info_own = node.ok(node.sm.get_device_information(OWN))
        w.bundles = online
        kv = dict(node.disk.kv)
        be = copy.deepcopy(node.disk.backends)
        net = len(w.log)
        faults = Faults(w, node, budget, ("fail", "crash"))
        while True:
            hits = len(faults.hits)
            out = node.call(node.sm.purge_bare_jid(B))
            if len(faults.hits) == hits:
                if out.kind != "ok":
                    raise Violation(f"purge failed{' when repeated' if hits else ''}: {out.exc!r}")
                break
            if out.kind == "ok":
                raise Violation(f"purge reports success although {faults.hits[-1]} happened")
            if node.sm is None:
                saved, w.fault = w.fault, None
                node.must_start(nss)
                w.fault = saved
        faults.stop()
        ctx.outcome(f"interruptions {len(faults.hits)} keys {len(known)}")
        if len(w.log) != net:
            raise Violation("purging an account published something")
        # Everything else is as it was.
        for k in set(kv) | set(node.disk.kv):
            if not mentions(k, B) and kv.get(k) != node.disk.kv.get(k):
                raise Violation(f"purge of {B} changed {k}")
        for ns in set(be) | set(node.disk.backends):
            x, y = be[ns], node.disk.backends[ns]
            if ns in nss:
                x["sessions"] = {k: v for k, v in x["sessions"].items() if k[0] != B}
            if x != y:
                raise Violation(f"purge of {B} left {ns} with {y['sessions'].keys()}, expected {x['sessions'].keys()}"
                                if x["sessions"].keys() != y["sessions"].keys() else f"purge of {B} changed {ns}")
        if node.ok(node.sm.get_device_information(C)) != info_c or node.ok(node.sm.get_device_information(OWN)) != info_own:
            raise Violation("purge changed the information about another account")
        # Nothing is left: no device ...
        if ch.flag("restart"):
            node.must_start(nss)
        if node.ok(node.sm.get_device_information(B), "device information of a purged account"):
            raise Violation("devices of a purged account are still known")
        for k in node.disk.kv:
            if k.startswith(f"/devices/{B}/"):
                raise Violation(f"{k} is still stored after the purge")
        # ... and when it is seen again it is a stranger: new identity keys are accepted, trust is undecided.
        for ns in ("n1", "n2"):
            for d in (1, 2):
                if (ns, B, d) in w.bundles:
                    w.bundles[(ns, B, d)] = w.bundles[(ns, B, d)].replace(ik=ik_of(20 + d))
        lists, rekeyed = dict(w.lists), ch.flag("with new identity keys")
        if not rekeyed:
            for ns in ("n1", "n2"):
                for d in (1, 2):
                    if (ns, B, d) in w.bundles:
                        w.bundles[(ns, B, d)] = w.bundles[(ns, B, d)].replace(ik=ik_of(d))
        for ns in nss:
            w.lists[(ns, B)] = {1: None} if ns == nss[0] else {}
        node.ok(node.sm.refresh_device_lists(B))
        got = node.ok(node.sm.get_device_information(B))
        if {d.device_id for d in got} != {1} & {k[2] for k in w.bundles if k[1] == B and k[0] == nss[0]}:
            raise Violation(f"devices {sorted(d.device_id for d in got)} after the purge")
        for d in got:
            ik = ik_of(21 if rekeyed else 1)
            if d.identity_key != ik or set(d.namespaces) != {nss[0]} or dict(d.active) != {nss[0]: True} or d.label is not None:
                raise Violation(f"the purged account is remembered: {d}")
            if d.trust_level_name != node.undecided and ik in known:
                raise Violation(f"the trust of a device of the purged account is remembered: {d.trust_level_name}")
            node.ok(node.sm.set_trust(B, ik, "TRUSTED"))
            m, errors = node.ok(node.sm.encrypt(frozenset({B}), {ns: b"x" for ns in nss}))
            m, = m
            (ekm, kex), = m.keys
            if kex is None or errors or ekm.n != 0:
                raise Violation("a session with a device of the purged account was kept")
    return run


def crowd(sizes):
    """Many devices, all with keys, trust and sessions."""
    @scenario
    def run(w, ch, ctx):
        nss = ["n1", "n2", "n3"]
        node = Node(w, OWN, nss).must_start()
        n = ch.pick(sizes, "devices")
        for jid in (B, C):
            for d in range(n):
                Peer(w, jid, 1 + d, ik_of(d), nss).publish()
            node.ok(node.sm.refresh_device_lists(jid))
            node.ok(node.sm.get_device_information(jid))
            for d in range(n):
                node.ok(node.sm.set_trust(jid, ik_of(d), "TRUSTED"))
            for ns in nss:
                node.ok(node.sm.encrypt(frozenset({jid}), {ns: b"x"}, [ns]))
        kv, be = dict(node.disk.kv), copy.deepcopy(node.disk.backends)
        if ch.flag("restart"):
            node.must_start(nss)
            be = copy.deepcopy(node.disk.backends)
        node.ok(node.sm.purge_bare_jid(B))
        for k in set(kv) | set(node.disk.kv):
            if mentions(k, B):
                if k in node.disk.kv:
                    raise Violation(f"{n} devices: {k} is still stored after the purge")
            elif kv.get(k) != node.disk.kv.get(k):
                raise Violation(f"{n} devices: purge of {B} changed {k}")
        for ns in nss:
            be[ns]["sessions"] = {k: v for k, v in be[ns]["sessions"].items() if k[0] != B}
            if node.disk.backends[ns] != be[ns]:
                raise Violation(f"{n} devices: purge of {B} left {ns} with {len(node.disk.backends[ns]['sessions'])} sessions, "
                                f"{len(be[ns]['sessions'])} expected")
        ctx.outcome(f"{n} devices")
    return run


def scenarios(tier):
    if tier == "quick":
        return [("crowd", crowd((17, 40, 70))), ("undisturbed", history(3, 0)), ("interrupted", history(2, 1))]
    return [("crowd", crowd((17, 40, 70, 200))), ("undisturbed", history(4, 0)), ("interrupted", history(3, 1)), ("twice", history(2, 2))]
