"""C17: the consistency check restores the published data from any divergence."""
import copy

from ..env import Node, Peer, scenario, ik_of, exc_name, Faults, BundleDownloadFailed, NETWORK, FAULTS
from ..enc import OWN
from ..explore import Violation
from .c08 import Model

PROP = "C17"
BOUNDS = {
    "quick": "two (in a smaller set three) backends in either order, both or one loaded; per backend every list shape (gone, empty, this device missing, "
             "without or with another label, another device listed or gone) and every state of the published bundle "
             "(current, missing, undownloadable, older signed pre key, a pre key too many or too few, other identity key, "
             "another device's content); without failures, and with a failure (before or after the fact) or crash at every "
             "interaction for the smaller set of divergences; repeated until it succeeds; then once more",
    "thorough": "failures with all divergences, and two failures"
}
ASSUMPTIONS = ["nobody else changes the published data during the check"]

LISTS = (None, {}, {"me": "same"}, {"me": None}, {"me": "other"}, {5: "o"}, {5: None, "me": "same"}, {6: "n", "me": "same"})
BUNDLES = ("current", "missing", "error", "old spk", "one less", "one more", "other key", "foreign")


def damage(w, node, ns, lst, bundle):
    me = node.device_id
    if lst is None:
        w.lists.pop((ns, OWN), None)
    else:
        w.lists[(ns, OWN)] = {me if d == "me" else d: node.label if l == "same" else l for d, l in lst.items()}
    k = (ns, OWN, me)
    b = w.bundles[k]
    if bundle == "missing":
        del w.bundles[k]
    elif bundle == "error":
        w.bundles[k] = BundleDownloadFailed
    elif bundle == "old spk":
        w.bundles[k] = b.replace(spk=b.spk - 1)
    elif bundle == "one less":
        w.bundles[k] = b.replace(pks=b.pks - {min(b.pks)})
    elif bundle == "one more":
        w.bundles[k] = b.replace(pks=b.pks | {7})
    elif bundle == "other key":
        w.bundles[k] = b.replace(ik=ik_of(9))
    elif bundle == "foreign":
        w.bundles[k] = w.bundles[(ns, OWN, 5)]


def consistency(lists, bundles, budget, loads, nss=("n1", "n2")):
    @scenario
    def run(w, ch, ctx):
        loaded = ch.pick(loads, "loaded")
        node = Node(w, OWN, list(nss)).must_start()
        me = node.device_id
        model = Model()
        for ns in nss:
            Peer(w, OWN, 5, ik_of(5), (ns,), label="o5").publish()
            Peer(w, OWN, 6, ik_of(6), (ns,)).publish(listed=False)
            model.update(ns, OWN, {me: node.label})
            if ns == "n1":
                node.ok(node.sm.refresh_device_list(ns, OWN))
                model.update(ns, OWN, w.lists[(ns, OWN)])
        node.ok(node.sm.get_device_information(OWN))
        if tuple(loaded) != nss:
            node.must_start(list(loaded))
            # what is not loaded any more has been withdrawn (C10)
            model.dev[OWN][me][0] = {ns: True for ns in loaded}
        node.maybe_live(ch)
        state = {}
        for ns in loaded:
            lst, bundle = ch.pick(lists, f"list of {ns}"), ch.pick(bundles, f"bundle of {ns}")
            state[ns] = (lst, bundle)
            damage(w, node, ns, lst, bundle)
        mark = len(w.log)
        before = copy.deepcopy(w.lists)
        bundles_before = dict(w.bundles)
        local = copy.deepcopy(node.disk.backends)
        for ns in loaded:
            lst = dict(before.get((ns, OWN), {}))
            if me not in lst:
                lst[me] = model.dev[OWN][me][1]
            model.update(ns, OWN, lst)
            before[(ns, OWN)] = lst
        faults = Faults(w, node, budget, ("fail", "late", "crash"))
        tries = 0
        while True:
            hits = len(faults.hits)
            out = node.call(node.sm.ensure_data_consistency())
            new = faults.hits[hits:]
            for ns in loaded:
                got = w.lists.get((ns, OWN), {})
                if not set(got) - {me} == set(before[(ns, OWN)]) - {me}:
                    raise Violation(f"{ns}: the check changed other entries of the device list")
            if not new:
                if out.kind != "ok":
                    raise Violation(f"consistency check failed{' when repeated' if tries else ''}: {out.exc!r}")
                break
            if out.kind == "ok":
                if any(op != "dn_bundle" for op, _ in new):
                    raise Violation(f"the check reports success although {new} happened")
                break
            if out.kind == "exc" and not isinstance(out.exc, tuple(FAULTS.get(op, FAULTS["load"]) for op, _ in new)):
                raise Violation(f"{out.exc!r} after {new}")
            tries += 1
            if node.sm is None:
                saved, w.fault = w.fault, None
                node.must_start(list(loaded))
                w.fault = saved
        faults.stop()
        log = w.log[mark:]
        ctx.outcome(f"uploads {sorted(e[0] + (e[2] if e[0] == 'up_list' else e[2].namespace) for e in log)} {faults.hits}")
        if node.disk.backends != local:
            raise Violation("the check changed local backend data")
        for e in log:
            if e[0] not in ("up_list", "up_bundle"):
                raise Violation(f"the check did {e[0]}")
        for ns in nss:
            ups = [e for e in log if e[0] == "up_list" and e[2] == ns]
            bups = [e for e in log if e[0] == "up_bundle" and e[2].namespace == ns]
            if ns not in loaded:
                if ups or bups:
                    raise Violation(f"{ns} is not loaded but was published")
                continue
            if w.bundles.get((ns, OWN, me)) != node.bundle(ns):
                raise Violation(f"{ns}: the published bundle ({state[ns][1]}) still differs from the local one")
            if w.lists.get((ns, OWN)) != before[(ns, OWN)]:
                raise Violation(f"{ns}: published list {w.lists.get((ns, OWN))}, expected {before[(ns, OWN)]}")
            if ups and state[ns][0] is not None and "me" in state[ns][0]:
                raise Violation(f"{ns}: the device list was published although this device is listed")
            if bups and state[ns][1] == "current" and not any(op == "dn_bundle" for op, _ in faults.hits):
                raise Violation(f"{ns}: the bundle was published although it is current")
            if not faults.hits and (len(ups) > 1 or len(bups) > 1):
                raise Violation(f"{ns}: published more than once")
        for k in set(w.bundles) | set(bundles_before):
            if k[1:] != (OWN, me) and w.bundles.get(k) != bundles_before.get(k):
                raise Violation(f"bundle {k} changed")
        info = {d.device_id: d for d in node.ok(node.sm.get_device_information(OWN))}
        for dev, (active, label, _) in model.dev[OWN].items():
            if dev not in info:
                raise Violation(f"device {dev} is not known after the check")
            if set(info[dev].namespaces) != set(active) or dict(info[dev].active) != active or info[dev].label != label:
                raise Violation(f"device {'(this)' if dev == me else dev}: {info[dev]} after the check, the lists say "
                                f"{active} {label!r}")
        # A second check has nothing to do.
        mark = len(w.log)
        node.ok(node.sm.ensure_data_consistency(), "second consistency check")
        if len(w.log) != mark:
            raise Violation(f"a second check published {[e[0] for e in w.log[mark:]]}")
    return run


THREE = (("n1", "n2", "n3"), ("n3", "n2", "n1")), ("n1", "n2", "n3")
BOTH = (("n1", "n2"), ("n2", "n1"), ("n2",))


def scenarios(tier):
    few = (None, {"me": "same"}, {5: "o"}, {6: "n", "me": "same"})
    fewb = ("current", "missing", "old spk")
    if tier == "quick":
        return [("three-backends", consistency(few, fewb, 0, *THREE)), ("divergences", consistency(LISTS, BUNDLES, 0, BOTH)),
                ("failures", consistency(few, fewb, 1, BOTH[:1])),
                ("failures-one", consistency(LISTS, BUNDLES, 1, BOTH[2:]))]
    return [("three-backends", consistency(few, fewb, 1, *THREE)), ("divergences", consistency(LISTS, BUNDLES, 0, BOTH)), ("failures", consistency(LISTS, BUNDLES, 1, BOTH[:1])),
            ("failures-one", consistency(LISTS, BUNDLES, 1, BOTH[2:])),
            ("twice", consistency(few, ("current", "missing"), 2, BOTH[:1]))]
