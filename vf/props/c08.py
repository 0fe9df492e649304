"""C08: device information is the exact merge of all device-list updates."""
from ..env import Node, Peer, scenario, ik_of, exc_name, BundleDownloadFailed, Faults, spread, LONG_LABEL
from ..enc import OWN
from ..explore import Violation

PROP = "C08"
BOUNDS = {
    "quick": "every sequence of 3 operations out of: update with any list over two devices and three labels (none, one, empty) in two "
             "namespaces, update of another account, query, bundles vanishing/returning/changing identity key, trust "
             "change, restart with both or one backend; every sequence of 6 updates with one device, two labels and two namespaces "
             "and of 4 with two devices; lists of up to 70 devices with ids across the whole range; and every two updates with one failure or crash at any storage "
             "access of the second, followed by the same list again",
    "thorough": "the same with 4 operations, three updates, and two interruptions"
}
ASSUMPTIONS = ["updates are not concurrent (C20)"]


class Model:
    """Reference: what the lists said."""

    def __init__(self):
        self.dev = {}   # jid -> dev -> [active dict, label, ik]

    def update(self, ns, jid, lst):
        devs = self.dev.setdefault(jid, {})
        for d, label in lst.items():
            if d not in devs:
                devs[d] = [{ns: True}, label, None]
            else:
                devs[d][0][ns] = True
                if label is not None:
                    devs[d][1] = label
        for d, (active, _, _) in devs.items():
            if d not in lst and ns in active:
                active[ns] = False


def query(w, node, model, jid, loaded, what="get_device_information"):
    """Compare public information with the reference; identity keys become known by asking."""
    info = {}
    for d in node.ok(node.sm.get_device_information(jid), what):
        if d.device_id in info:
            raise Violation(f"device {d.device_id} of {jid} is reported twice")
        if d.bare_jid != jid:
            raise Violation(f"device of {d.bare_jid} reported for {jid}")
        info[d.device_id] = d
    devs = model.dev.get(jid, {})
    for dev, rec in devs.items():
        active, label, ik = rec
        iks = {b.identity_key for ns in active if ns in loaded
               for b in [w.bundles.get((ns, jid, dev))] if b is not None and not isinstance(b, type)}
        if ik is not None:
            iks = {ik}
        got = info.pop(dev, None)
        if got is None:
            if iks:
                raise Violation(f"device {dev} of {jid} is not reported although its identity key is known or obtainable")
            continue
        if got.identity_key not in iks:
            raise Violation(f"device {dev} of {jid} has identity key {got.identity_key.hex()}, expected "
                            f"{[k.hex() for k in iks]}")
        rec[2] = got.identity_key
        if set(got.namespaces) != set(active):
            raise Violation(f"device {dev} of {jid}: namespaces {sorted(got.namespaces)} instead of {sorted(active)}")
        act = dict(got.active)
        if len(act) != len(got.active) or {ns: act.get(ns) for ns in active} != active:
            raise Violation(f"device {dev} of {jid}: activity {sorted(got.active)} instead of {sorted(active.items())}")
        if got.label != label:
            raise Violation(f"device {dev} of {jid}: label {got.label!r} instead of {label!r}")
    if info:
        raise Violation(f"devices {sorted(info)} of {jid} are reported but were never listed")


def lists(labels1, labels2):
    out = []
    for a in ("-",) + labels1:
        for b in ("-",) + labels2:
            out.append({**({1: a} if a != "-" else {}), **({2: b} if b != "-" else {})})
    return out


def apply(w, node, ns, jid, lst, refresh):
    given = dict(lst)
    if refresh:
        w.lists[(ns, jid)] = dict(lst)
        out = node.call(node.sm.refresh_device_list(ns, jid))
    else:
        out = node.call(node.sm.update_device_list(ns, jid, given))
    if given != lst or refresh and w.lists[(ns, jid)] != lst:
        raise Violation("the caller's device list was modified")
    return out


def history(depth, labels1, labels2, extra=True, boots=("all",), plain=False, keys=False):
    @scenario
    def run(w, ch, ctx):
        node = Node(w, OWN, ["n1", "n2"]).must_start()
        if "n1" in boots:
            node.maybe_live(ch)
        loaded = ["n1", "n2"]
        ps = {d: Peer(w, "a@x.b", d, ik_of(d), ("n1", "n2")).publish(listed=False) for d in (1, 2)}
        Peer(w, "a@x.bc", 1, ik_of(3), ("n1", "n2")).publish(listed=False)
        full = dict(w.bundles)
        avail = "both" if plain else ch.pick(("both", "second only", "none"), "bundles")

        def online(kind):
            for ns in ("n1", "n2"):
                for d in (1, 2):
                    k = (ns, "a@x.b", d)
                    if kind == "both":
                        w.bundles[k] = full[k]
                    elif kind == "rekeyed":
                        w.bundles[k] = full[k].replace(ik=ik_of(10 + d))
                    elif kind == "none" or ns == "n1":
                        w.bundles[k] = BundleDownloadFailed if d == 1 else None
                        if d == 2:
                            del w.bundles[k]
        online(avail)
        refresh = not plain and not keys and ch.flag("by refresh")
        model = Model()
        model.update("n1", OWN, {node.device_id: node.label})
        model.update("n2", OWN, {node.device_id: node.label})
        own_before = node.ok(node.sm.get_own_device_information())
        ops = [("update", ns, "a@x.b", l) for ns in ("n1", "n2") for l in lists(labels1, labels2)]
        if extra:
            ops += [("update", "n1", "a@x.bc", {1: "z"}), ("update", "n2", "a@x.bc", {}), ("query",), ("trust",),
                    ("online", "both"), ("online", "none"), ("online", "rekeyed"), ("unknown",)]
        if keys:
            ops += [("query",), ("online", "both"), ("online", "none"), ("online", "rekeyed"), ("online", "second only")]
        for b in () if plain else boots:
            ops.append(("restart", b))
        for i in range(depth):
            op = ch.pick(ops, f"op {i}")
            if op[0] == "update":
                ns, jid, lst = op[1:]
                out = apply(w, node, ns, jid, lst, refresh)
                if ns in loaded:
                    if out.kind != "ok":
                        raise Violation(f"device list update failed: {out.exc!r}")
                    model.update(ns, jid, lst)
                elif exc_name(out) != "UnknownNamespace":
                    raise Violation(f"update for a namespace that is not loaded: {out}")
            elif op[0] == "query":
                query(w, node, model, "a@x.b", loaded)
            elif op[0] == "trust":
                node.ok(node.sm.set_trust("a@x.b", ik_of(1), "TRUSTED"))
            elif op[0] == "online":
                online(op[1])
            elif op[0] == "unknown":
                out = apply(w, node, "n9", "a@x.b", {1: "u", 7: "u"}, False)
                if exc_name(out) != "UnknownNamespace":
                    raise Violation(f"update for a namespace that is not loaded: {out}")
            elif op[0] == "restart":
                loaded = ["n1", "n2"] if op[1] == "all" else ["n1"]
                node.must_start(loaded)
        for jid in ("a@x.b", "a@x.bc", "a@x.bcd"):
            query(w, node, model, jid, loaded)
        if boots == ("all",):
            query(w, node, model, OWN, loaded)
            if node.ok(node.sm.get_own_device_information()) != own_before:
                raise Violation("updates for other accounts changed the own device")
        online("both")
        query(w, node, model, "a@x.b", loaded)
        # and the same from storage
        node.must_start(loaded)
        w.bundles.clear()
        query(w, node, model, "a@x.b", loaded)
        ctx.outcome("devices known: %d" % len(model.dev.get("a@x.b", {})))
    return run


def interrupted(depth, labels1, labels2, budget, kinds):
    @scenario
    def run(w, ch, ctx):
        node = Node(w, OWN, ["n1", "n2"]).must_start()
        node.maybe_live(ch)
        loaded = ["n1", "n2"]
        for d in (1, 2):
            Peer(w, "a@x.b", d, ik_of(d), ("n1", "n2")).publish(listed=False)
        model = Model()
        ops = [(ns, l) for ns in ("n1", "n2") for l in lists(labels1, labels2)]
        for i in range(depth):
            ns, lst = ch.pick(ops, f"update {i}")
            node.ok(node.sm.update_device_list(ns, "a@x.b", dict(lst)))
            model.update(ns, "a@x.b", lst)
        ns, lst = ch.pick(ops, "interrupted update")
        before = {d: (dict(r[0]), r[1]) for d, r in model.dev.get("a@x.b", {}).items()}
        model.update(ns, "a@x.b", lst)
        faults = Faults(w, node, budget, kinds)
        while True:
            hit = len(faults.hits)
            out = node.call(node.sm.update_device_list(ns, "a@x.b", dict(lst)))
            if len(faults.hits) == hit:
                if out.kind != "ok":
                    raise Violation(f"update failed without any fault: {out.exc!r}")
                break
            if out.kind == "ok":
                raise Violation("an update reported success although storage failed")
            keep, w.fault = w.fault, None
            if node.sm is None or ch.flag("restart"):
                node.must_start(loaded)
            # Information stays available, and shows nothing that was in neither list.
            for d in node.ok(node.sm.get_device_information("a@x.b"), "device information after an interrupted update"):
                after = model.dev["a@x.b"].get(d.device_id)
                old = before.get(d.device_id)
                if after is None:
                    raise Violation(f"device {d.device_id} was never listed")
                if d.label not in (after[1], old[1] if old else after[1]):
                    raise Violation(f"label {d.label!r} was never given to device {d.device_id}")
                act = dict(d.active)
                for n in d.namespaces:
                    allowed = {x[0][n] for x in (after, old) if x is not None and n in x[0]}
                    if act.get(n) not in allowed:
                        raise Violation(f"device {d.device_id}: activity {act} after an interrupted update")
            w.fault = keep
        faults.stop()
        ctx.outcome(f"interruptions {len(faults.hits)}")
        query(w, node, model, "a@x.b", loaded)
        node.must_start(loaded)
        query(w, node, model, "a@x.b", loaded)
    return run


def crowd(sizes):
    """Long lists, far apart ids."""
    @scenario
    def run(w, ch, ctx):
        node = Node(w, OWN, ["n1", "n2"]).must_start()
        node.maybe_live(ch)
        n = ch.pick(sizes, "devices")
        ids = spread(n)
        for i, d in enumerate(ids):
            Peer(w, "a@x.b", d, ik_of(i), ("n1", "n2")).publish(listed=False)
        model = Model()
        steps = [("n1", lambda i: True), ("n2", lambda i: i % 2), ("n1", lambda i: i % 3), ("n2", lambda i: i % 5 == 0)]
        first = ch.pick((0, 1, 2, 3), "first")
        for j in range(4):
            ns, sel = steps[(first + j) % 4]
            lst = {d: f"l{j}.{i}" + (LONG_LABEL if i % 8 == 1 else "") if i % 4 else None for i, d in enumerate(ids) if sel(i)}
            node.ok(node.sm.update_device_list(ns, "a@x.b", dict(lst)))
            model.update(ns, "a@x.b", lst)
            if ch.flag("query"):
                query(w, node, model, "a@x.b", ["n1", "n2"])
        query(w, node, model, "a@x.b", ["n1", "n2"])
        ctx.outcome(f"{n} devices")
    return run


def scenarios(tier):
    L1, L2 = (None, "x", ""), (None, "x")
    LONG = dict(extra=False, plain=True)
    if tier == "quick":
        return [("crowd", crowd((17, 40, 70))), ("keys", history(4, ("x",), (), extra=False, keys=True)),
                ("one-device-long", history(6, (None, "x"), (), **LONG)),
                ("two-devices-long", history(4, ("x",), (None,), **LONG)), ("pairs", history(2, L1, L1, boots=("all", "n1"))),
                ("triples", history(3, L1, (None,), boots=("all",))),
                ("unloaded", history(3, ("x",), (), boots=("all", "n1"))),
                ("interrupted", interrupted(1, L1, ("x",), 1, ("fail", "crash")))]
    return [("crowd", crowd((17, 40, 70, 200))), ("keys", history(5, ("x",), (), extra=False, keys=True)),
            ("one-device-long", history(7, (None, "x"), (), **LONG)),
            ("two-devices-long", history(5, ("x",), (None,), **LONG)),
            ("pairs", history(2, L1, L1, boots=("all", "n1"))), ("triples", history(3, L1, L2, boots=("all", "n1"))),
            ("unloaded", history(4, ("x",), (), boots=("all", "n1"))),
            ("interrupted", interrupted(2, L1, ("x",), 1, ("fail", "crash"))),
            ("interrupted-twice", interrupted(1, L1, ("x",), 2, ("fail", "crash")))]
