"""C19: purging a backend withdraws this device first and leaves the rest intact."""
import copy

import omemo

from ..env import Content, Node, Peer, scenario, ik_of, exc_name, Faults, ekms, FAULTS
from ..enc import OWN
from ..explore import Violation

PROP = "C19"
BOUNDS = {
    "quick": "one or two loaded backends plus namespaces that are not loaded, purge of each; every combination of the "
             "published list (this device listed, listed alone, not listed, gone) and bundle (there, missing), with and "
             "without held back replies; without failures and with a failure, late failure or crash at every interaction, "
             "repeated until it succeeds, with or without the purged backend loaded again in between",
    "thorough": "two interruptions"
}
ASSUMPTIONS = ["a backend method is atomic", "the application can talk to the server about the purged namespace"]
B = "a@x.b"


def usable(w, node, ns, p, what):
    """Both directions work in this namespace."""
    pt, d, _ = node.ok(node.sm.decrypt(p.message(ns, OWN, node.device_id, b"in")), f"{what}: decryption in {ns}")
    if pt != b"in" or (d.bare_jid, d.device_id) != (p.jid, p.dev):
        raise Violation(f"{what}: wrong decryption in {ns}")
    ms, errors = node.ok(node.sm.encrypt(frozenset({B}), {ns: b"out"}, [ns]), f"{what}: encryption in {ns}")
    m, = ms
    if errors or (B, 1) not in ekms(m) or p.receive(m) != b"out":
        raise Violation(f"{what}: encryption in {ns} does not reach the peer")
    p.publish()


def purge(budget, loads, targets, lists=("with", "alone", "without", "gone")):
    @scenario
    def run(w, ch, ctx):
        loaded = list(ch.pick(loads, "loaded"))
        ns0 = ch.pick([t for t in targets], "purged namespace")
        node = Node(w, OWN, list(loaded)).must_start()
        me = node.device_id
        all_ns = ("n1", "n2", "n3")
        p = Peer(w, B, 1, ik_of(1), all_ns).publish()
        o = Peer(w, OWN, 5, ik_of(5), all_ns, label="o").publish()
        for jid in (B, OWN):
            node.ok(node.sm.refresh_device_lists(jid))
            node.ok(node.sm.get_device_information(jid))
        node.ok(node.sm.set_trust(B, ik_of(1), "TRUSTED"))
        node.ok(node.sm.set_trust(OWN, ik_of(5), "DISTRUSTED"))
        held = ch.flag("held back replies")
        if not held:
            node.ok(node.sm.after_history_sync())
        for ns in loaded:
            node.ok(node.sm.decrypt(p.message(ns, OWN, me)))
        if not held:
            for _, m, _ in w.sent:
                p.receive(m)
        for ns in all_ns:
            if ns not in loaded and ns != "n3":
                # not loaded, but still published as if from an earlier run of another client
                w.bundles[(ns, OWN, me)] = w.bundles[(ns, OWN, 5)].replace(dev=me)
                w.lists[(ns, OWN)][me] = "x"
        # the published situation in the purged namespace
        shape = ch.pick(lists, "published list")
        if shape == "alone":
            w.lists[(ns0, OWN)] = {me: "x"}
        elif shape == "without":
            w.lists[(ns0, OWN)] = {5: "o"}
        elif shape == "gone":
            w.lists.pop((ns0, OWN), None)
        else:
            w.lists.setdefault((ns0, OWN), {})[me] = "x"
        if ch.flag("bundle missing"):
            w.bundles.pop((ns0, OWN, me), None)
            if me in w.lists.get((ns0, OWN), {}):
                del w.lists[(ns0, OWN)][me]
        elif shape in ("with", "alone") and (ns0, OWN, me) not in w.bundles:
            w.bundles[(ns0, OWN, me)] = w.bundles[(ns0, OWN, 5)].replace(dev=me)
        # a message of the peer that arrives after the purge
        mine = w.bundles.get((ns0, OWN, me)) or w.bundles[(ns0, OWN, 5)]
        fresh, ekm, k = Peer(w, B, 1, ik_of(1), (ns0,)).build(ns0, OWN, me, mine.replace(dev=me))
        last = omemo.Message(ns0, B, 1, Content(k, k, b"late"), frozenset({(ekm, fresh.kex)}))
        kv = dict(node.disk.kv)
        be = copy.deepcopy(node.disk.backends)
        lists_before, bundles_before = copy.deepcopy(w.lists), dict(w.bundles)
        info = {jid: node.ok(node.sm.get_device_information(jid)) for jid in (B, OWN)}

        def monitor(n, op, args):
            listed = me in w.lists.get((ns0, OWN), {})
            if op == "del_bundle" or op == "be.purge":
                if args["ns"] != ns0:
                    w.flag(f"{op} of {args['ns']}")
                if listed:
                    w.flag(f"{op} while this device is still listed in {ns0}")
            elif op == "up_list":
                if args["ns"] != ns0 or args["list"] != {d: l for d, l in lists_before.get((ns0, OWN), {}).items()
                                                         if d != me}:
                    w.flag(f"list {args['list']} published in {args['ns']}")
            elif op == "up_bundle":
                w.flag("a purge publishes a bundle")

        def untouched():
            for ns in be:
                if ns != ns0 and node.disk.backends.get(ns) != be[ns]:
                    raise Violation(f"the purge of {ns0} changed {ns}")
            for k in set(kv) | set(node.disk.kv):
                if k in (f"/devices/{OWN}/{me}/active", f"/devices/{OWN}/{me}/namespaces") or k.startswith(f"/queue/{ns0}"):
                    continue
                if kv.get(k) != node.disk.kv.get(k):
                    raise Violation(f"the purge of {ns0} changed {k}")

        faults = Faults(w, node, budget, ("fail", "late", "crash"))
        again = False           # purged backend was loaded anew in between
        local_gone = ns0 in loaded
        while True:
            w.monitor = monitor
            hits = len(faults.hits)
            out = node.call(node.sm.purge_backend(ns0))
            w.monitor = None
            untouched()
            new = faults.hits[hits:]
            if me in w.lists.get((ns0, OWN), {}) and (ns0, OWN, me) not in w.bundles:
                raise Violation(f"this device is listed in {ns0} without a bundle")
            if not new:
                if out.kind != "ok":
                    raise Violation(f"purge failed{' when repeated' if hits else ''}: {out.exc!r}")
                break
            if out.kind == "ok":
                raise Violation(f"purge reports success although {new} happened")
            if out.kind == "exc" and not isinstance(out.exc, FAULTS.get(new[0][0], FAULTS["load"])):
                raise Violation(f"{out.exc!r} after {new}")
            if node.sm is None:
                saved, w.fault = w.fault, None
                with_it = [ns for ns in loaded]
                if ns0 in loaded and ch.flag("restart without the purged backend"):
                    with_it.remove(ns0)
                    local_gone = ns0 not in node.disk.backends
                elif ns0 in loaded:
                    again = True
                node.must_start(with_it)
                # restarting published or withdrew it on its own account (C10)
                lists_before[(ns0, OWN)] = dict(w.lists.get((ns0, OWN), {}))
                kv, be = dict(node.disk.kv), copy.deepcopy(node.disk.backends)
                info = {jid: node.ok(node.sm.get_device_information(jid)) for jid in (B, OWN)}
                w.fault = saved
        faults.stop()
        ctx.outcome(f"{ns0} of {loaded} {faults.hits}")
        rest = [ns for ns in loaded if ns != ns0]
        # Online: this device and nothing else is gone from this namespace.
        want = {d: l for d, l in lists_before.get((ns0, OWN), {}).items() if d != me}
        if w.lists.get((ns0, OWN), {}) != want:
            raise Violation(f"published list of {ns0}: {w.lists.get((ns0, OWN))} instead of {want}")
        if (ns0, OWN, me) in w.bundles:
            raise Violation(f"the bundle of {ns0} is still published")
        for k in set(lists_before) | set(w.lists):
            if k != (ns0, OWN) and w.lists.get(k) != lists_before.get(k):
                raise Violation(f"the purge changed the device list {k}")
        for k in set(bundles_before) | set(w.bundles):
            if k != (ns0, OWN, me) and w.bundles.get(k) != bundles_before.get(k):
                raise Violation(f"the purge changed the bundle {k}")
        # Local data.
        if local_gone and ns0 in node.disk.backends:
            raise Violation(f"local data of {ns0} is still there")
        mine, others = node.ok(node.sm.get_own_device_information(), "own device information")
        if set(mine.namespaces) != set(rest) or dict(mine.active) != {ns: True for ns in rest}:
            raise Violation(f"this device is known with {mine.namespaces} {mine.active} after the purge")
        if node.ok(node.sm.get_device_information(B)) != info[B] or \
                others != {d for d in info[OWN] if d.device_id != me}:
            raise Violation("the purge changed information about other devices")
        # The namespace is refused, everything else works.
        for coro in (node.sm.update_device_list(ns0, B, {1: None}), node.sm.refresh_device_list(ns0, B),
                     node.sm.refresh_device_list(ns0, OWN),
                     node.sm.encrypt(frozenset({B}), {ns0: b"x"}, [ns0]),
                     node.sm.decrypt(last)):
            o = node.call(coro)
            if exc_name(o) != "UnknownNamespace":
                raise Violation(f"an operation in the purged namespace: {o}")
        if me in w.lists.get((ns0, OWN), {}):
            raise Violation("listed again")
        for ns in rest:
            usable(w, node, ns, p, f"after the purge of {ns0}")
        mark = len(w.sent)
        node.ok(node.sm.after_history_sync(), "after_history_sync")
        if any(m.namespace == ns0 for _, m, _ in w.sent[mark:]):
            raise Violation("a reply was sent in the purged namespace")
        node.ok(node.sm.ensure_data_consistency())
        if me in w.lists.get((ns0, OWN), {}) or (ns0, OWN, me) in w.bundles:
            raise Violation("the consistency check published the purged backend")
        if ch.flag("load it again"):
            node.must_start(rest + [ns0])
            if me not in w.lists.get((ns0, OWN), {}) or w.bundles.get((ns0, OWN, me)) != node.bundle(ns0):
                raise Violation(f"{ns0} cannot be set up again")
            if local_gone and node.sessions(ns0):
                raise Violation("sessions survived the purge")
            node.ok(node.sm.refresh_device_lists(B))
            node.ok(node.sm.after_history_sync(), "after_history_sync")
            p.cores[ns0].d["sessions"] = {}
            usable(w, node, ns0, p, "after loading it again")
        else:
            node.must_start(rest)
            for ns in rest:
                usable(w, node, ns, p, "after restart")
    return run


def scenarios(tier):
    two = (("n1", "n2"),)
    if tier == "quick":
        return [("undisturbed", purge(0, (("n1",), ("n1", "n2"), ("n2", "n1", "n3")), ("n1", "n2", "n3"))),
                ("interrupted", purge(1, two, ("n1", "n3"), ("with", "without"))),
                ("interrupted-last", purge(1, (("n1",),), ("n1",)))]
    return [("undisturbed", purge(0, (("n1",), ("n1", "n2"), ("n2", "n1", "n3")), ("n1", "n2", "n3"))),
            ("interrupted", purge(1, (("n1",), ("n1", "n2"), ("n2", "n1", "n3")), ("n1", "n2", "n3"))),
            ("twice", purge(2, two, ("n1", "n3"), ("with", "without")))]
