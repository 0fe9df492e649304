"""C22: data persisted by the released version stays readable."""
import base64
import json

import xeddsa.bindings as x

from omemo.identity_key_pair import IdentityKeyPair, IdentityKeyPairSeed, IdentityKeyPairPriv

from ..env import Node, Peer, Core, Disk, LEVELS, scenario, ik_of, exc_name, ekms
from ..enc import OWN
from ..explore import Violation
from .c08 import Model

PROP = "C22"
BOUNDS = {
    "quick": "one device record with every combination of 3 namespaces, activity (active, inactive, unrecorded) per namespace, 3 "
             "labels, identity key known or not and 4 trust levels; two records of two accounts with a smaller domain; own "
             "records with seed or private key, all activity and label states; queued replies of every subset of 3 devices in "
             "two namespaces; every history of 3 operations for what is written",
    "thorough": "histories of 4 operations, three records"
}
ASSUMPTIONS = ["the layout is the one of release 1.0.4 (keys and JSON values)"]
B, C = "a@x.b", "a@x.bc"
ME = 4711
SECRET = bytes(range(1, 33))


def b64(b):
    return base64.urlsafe_b64encode(b).decode("ASCII")


def own_key(is_seed):
    return x.seed_to_ed25519_pub(SECRET) if is_seed else x.priv_to_ed25519_pub(SECRET)


def put(disk, values):
    for k, v in values.items():
        disk.kv[k] = json.dumps(v)


def own_records(is_seed=True, nss=("n1", "n2"), active=None, label="me", others=()):
    ik = own_key(is_seed)
    return {
        "/ikp/is_seed": is_seed, "/ikp/key": b64(SECRET), "/own_device_id": ME,
        f"/devices/{OWN}/list": [ME, *others],
        f"/devices/{OWN}/{ME}/namespaces": list(nss),
        f"/devices/{OWN}/{ME}/active": {ns: True for ns in nss} if active is None else active,
        f"/devices/{OWN}/{ME}/label": label,
        f"/devices/{OWN}/{ME}/identity_key": b64(ik),
        f"/trust/{OWN}/{b64(ik)}": "UNDECIDED",
    }


def device_records(jid, dev, nss, active, label, ik, trust, real_ik):
    r = {f"/devices/{jid}/{dev}/namespaces": list(nss), f"/devices/{jid}/{dev}/active": active,
         f"/devices/{jid}/{dev}/label": label}
    if ik is not None:
        r[f"/devices/{jid}/{dev}/identity_key"] = b64(ik)
    if trust is not None:
        r[f"/trust/{jid}/{b64(real_ik)}"] = trust
    return r


def old_node(w, records, is_seed=True, label="me", loaded=("n1", "n2"), published=True):
    """A device as the released version left it: storage, backend data and what is published."""
    disk = Disk()
    put(disk, records)
    node = Node(w, OWN, list(loaded), label="not used", disk=disk)
    for ns in loaded:
        disk.backends[ns] = Core.fresh(w)
        c = Core(w, ns, disk.backends[ns], own_key(is_seed))
        c.generate(100)
        if published:
            w.bundles[(ns, OWN, ME)] = c.bundle(OWN, ME)
            w.lists[(ns, OWN)] = {ME: label}
    return node


def judge(w, node, jid, dev, nss, active, label, ik, trust, real_ik, what):
    """The public information about one stored device."""
    got = [d for d in node.ok(node.sm.get_device_information(jid), what) if d.device_id == dev]
    left = [ns for ns in nss if ns in active]
    loaded = [b.namespace for b in node.backends]
    can = ik is not None or bool(set(left) & set(loaded))
    may = ik is not None or bool(set(nss) & set(loaded))
    if not got:
        if can:
            raise Violation(f"{what}: device {dev} of {jid} is not reported")
        return None
    if not may:
        raise Violation(f"{what}: device {dev} of {jid} is reported without a known identity key")
    d, = got
    if d.identity_key != real_ik:
        raise Violation(f"{what}: identity key {d.identity_key.hex()}")
    if set(d.namespaces) != set(left):
        raise Violation(f"{what}: namespaces {sorted(d.namespaces)}, stored {nss} with activity {active}")
    if dict(d.active) != active:
        raise Violation(f"{what}: activity {sorted(d.active)}, stored {active}")
    if d.label != label:
        raise Violation(f"{what}: label {d.label!r}, stored {label!r}")
    if d.trust_level_name != (trust or node.undecided):
        raise Violation(f"{what}: trust {d.trust_level_name}, stored {trust}")
    return d


def subsets(names):
    out = [()]
    for n in names:
        out += [s + (n,) for s in out]
    return out


def one_device():
    @scenario
    def run(w, ch, ctx):
        nss = ch.pick(subsets(("n1", "n2", "n3")), "namespaces")
        active = {}
        for ns in ("n1", "n2", "n3"):
            a = ch.pick((True, False, None), f"active in {ns}")
            if a is not None:
                active[ns] = a
        label = ch.pick(("l", None, ""), "label")
        known = ch.flag("identity key not known")
        trust = ch.pick((None, "TRUSTED", "DISTRUSTED", "BLINDLY"), "trust")
        real = ik_of(1)
        ik = None if known else real
        rec = own_records()
        rec[f"/devices/{B}/list"] = [1]
        rec.update(device_records(B, 1, nss, active, label, ik, trust, real))
        node = old_node(w, rec)
        p = Peer(w, B, 1, real, ("n1", "n2")).publish()
        mark = len(w.log)
        node.must_start()
        d = judge(w, node, B, 1, nss, active, label, ik, trust, real, "after loading")
        if len(w.log) != mark:
            raise Violation(f"loading unchanged data published {[e[0] for e in w.log[mark:]]}")
        # Repaired, and stays so.
        stored = node.disk.get(f"/devices/{B}/1/namespaces")
        if d is not None and sorted(stored) != sorted(ns for ns in nss if ns in active):
            raise Violation(f"stored namespaces {stored} with activity {active}")
        if d is not None and node.disk.get(f"/devices/{B}/1/identity_key") != b64(real):
            raise Violation("identity key record")
        # It means the same to an encryption and a decryption.
        out = node.call(node.sm.encrypt(frozenset({B}), {"n1": b"x", "n2": b"y"}))
        usable = d is not None and [ns for ns in ("n1", "n2") if ns in nss and active.get(ns) is True]
        if not usable:
            if exc_name(out) != "NoEligibleDevices":
                raise Violation(f"encryption for a device without active namespace: {out}")
        elif trust is None:
            if exc_name(out) != "StillUndecided":
                raise Violation(f"encryption for an undecided device: {out}")
        elif trust == "DISTRUSTED":
            if exc_name(out) != "NoEligibleDevices":
                raise Violation(f"encryption for a distrusted device: {out}")
        else:
            if out.kind != "ok" or out.value[1]:
                raise Violation(f"encryption for a trusted device: {out}")
            m, = out.value[0]
            if m.namespace != usable[0] or p.receive(m) != {"n1": b"x", "n2": b"y"}[usable[0]]:
                raise Violation(f"encryption in {m.namespace}, active in {usable}")
        node.must_start()
        judge(w, node, B, 1, nss, active, label, ik, trust, real, "after another restart")
        # A new list goes on top of it.
        node.ok(node.sm.update_device_list("n1", B, {1: "new"}), "update of an old record")
        after = {**active, "n1": True}
        ik = real if d is not None else ik
        judge(w, node, B, 1, sorted(set(n for n in nss if n in active) | {"n1"}), after, "new", ik, trust, real,
              "after a new list") if d is not None else None
        ctx.outcome(f"reported {d is not None}")
    return run


def several(n):
    """Records of several devices do not get mixed up."""
    @scenario
    def run(w, ch, ctx):
        rec = own_records(others=(5,))
        rec.update(device_records(OWN, 5, ["n2"], {"n2": True}, "o", ik_of(5), "TRUSTED", ik_of(5)))
        todo = [(B, 1), (C, 1), (B, 2)][:n]
        for jid in (B, C):
            rec[f"/devices/{jid}/list"] = [d for j, d in todo if j == jid]
        spec = []
        for jid, dev in todo:
            nss = ch.pick((("n1",), ("n2", "n1")), f"{jid}/{dev} namespaces")
            active = {ns: ch.flag(f"{jid}/{dev} inactive in {ns}") is False for ns in nss}
            label = ch.pick((None, f"{jid}{dev}"), "label")
            trust = ch.pick((None, "TRUSTED", "DISTRUSTED"), "trust")
            real = ik_of(1 if dev == 1 else 2)       # the same key in both accounts
            spec.append((jid, dev, nss, active, label, real, trust, real))
            rec.update(device_records(*spec[-1]))
        node = old_node(w, rec)
        node.must_start()
        for s in spec:
            judge(w, node, *s, "after loading")
        judge(w, node, OWN, 5, ["n2"], {"n2": True}, "o", ik_of(5), "TRUSTED", ik_of(5), "own other device")
    return run


def own():
    @scenario
    def run(w, ch, ctx):
        is_seed = ch.flag("private key") is False
        label = ch.pick(("me", None, ""), "label")
        loaded = ch.pick((("n1", "n2"), ("n2",)), "loaded")
        active = {}
        for ns in loaded:
            a = ch.pick((True, None), f"active in {ns}")
            if a is not None:
                active[ns] = a
        node = old_node(w, own_records(is_seed, loaded, active, label), is_seed, label, loaded)
        mark = len(w.log)
        node.must_start()
        if node.device_id != ME:
            raise Violation("the device id changed")
        mine, others = node.ok(node.sm.get_own_device_information())
        if mine.device_id != ME or mine.identity_key != own_key(is_seed) or mine.label != label or others:
            raise Violation(f"own device is {mine}")
        if set(mine.namespaces) != set(loaded) or dict(mine.active) != {ns: True for ns in loaded}:
            raise Violation(f"own device is known in {mine.namespaces} {mine.active}")
        if active == {ns: True for ns in loaded} and len(w.log) != mark:
            raise Violation(f"loading unchanged data published {[e[0] for e in w.log[mark:]]}")
        for ns in loaded:
            if w.lists[(ns, OWN)] != {ME: label} or w.bundles[(ns, OWN, ME)] != node.bundle(ns):
                raise Violation(f"{ns}: published {w.lists[(ns, OWN)]}")
        ikp = node.ok(IdentityKeyPair.get(node.storage))
        if ikp.is_seed is not is_seed or ikp.is_priv is is_seed or ikp.identity_key != own_key(is_seed):
            raise Violation("the identity key pair is not the stored one")
        if not isinstance(ikp, IdentityKeyPairSeed if is_seed else IdentityKeyPairPriv):
            raise Violation("kind of identity key pair")
        if (ikp.seed if is_seed else ikp.priv) != SECRET:
            raise Violation("the secret is not the stored one")
        if ikp.as_priv().priv != (x.seed_to_priv(SECRET) if is_seed else SECRET):
            raise Violation("the private key is not derived from the stored secret")
        if node.disk.get("/ikp/key") != b64(SECRET) or node.disk.get("/ikp/is_seed") is not is_seed:
            raise Violation("the stored secret changed")
        ctx.outcome(f"{is_seed} {loaded}")
    return run


def queues():
    @scenario
    def run(w, ch, ctx):
        rec = own_records()
        node = old_node(w, rec)
        devs = [(B, 1), (B, 2), (C, 1)]
        want = set()
        peers = {}
        for jid in (B, C):
            rec[f"/devices/{jid}/list"] = [d for j, d in devs if j == jid]
        for i, (jid, dev) in enumerate(devs):
            p = peers[(jid, dev)] = Peer(w, jid, dev, ik_of(i + 1), ("n1", "n2")).publish()
            rec.update(device_records(jid, dev, ["n1", "n2"], {"n1": True, "n2": True}, None, p.ik, "TRUSTED", p.ik))
        for ns in ("n1", "n2"):
            queued = {}
            for k in devs:
                p = peers[k]
                c = Core(w, ns, node.disk.backends[ns], own_key(True))
                s, ekm, _ = p.build(ns, OWN, ME)
                mine, _ = c.passive(p.jid, p.dev, s.kex, ekm)
                c.save(mine)
                c.d["vis"], c.d["hid"] = c.d["vis"] - {s.kex.pk}, c.d["hid"] | {s.kex.pk}
                w.bundles[(ns, OWN, ME)] = c.bundle(OWN, ME)
                if ch.flag(f"queued {k} in {ns}"):
                    queued.setdefault(k[0], []).append(k[1])
                    want.add((ns,) + k)
            if queued:
                rec[f"/queue/{ns}"] = list(queued)
                for jid, ds in queued.items():
                    rec[f"/queue/{ns}/{jid}"] = ds
        put(node.disk, rec)
        node.must_start()
        if w.sent:
            raise Violation("replies sent before history synchronization is over")
        node.ok(node.sm.after_history_sync())
        got = sorted((m.namespace,) + k for _, m, to in w.sent for k in ekms(m))
        if got != sorted(want):
            raise Violation(f"replies sent for {got}, queued {sorted(want)}")
        for _, m, to in w.sent:
            (jid, dev), = ekms(m)
            if to != jid or peers[(jid, dev)].receive(m) is not None:
                raise Violation("wrong reply")
        if any(v for k, v in ((k, node.disk.get(k)) for k in node.disk.kv) if k.startswith("/queue/")):
            raise Violation("the queue is not empty afterwards")
        ctx.outcome(f"replies {len(want)}")
    return run


OPS = [("list", "n1", B, {1: "a", 2: None}), ("list", "n2", B, {1: None}), ("list", "n1", B, {2: "b"}),
       ("list", "n2", OWN, {ME: "me", 5: "five"}), ("query", B), ("trust", B, 1, "TRUSTED"), ("trust", B, 2, "BLINDLY"),
       ("trust", OWN, 5, "DISTRUSTED"), ("label", "new"), ("label", None), ("kex", "n1", 1), ("kex", "n2", 1), ("sync",),
       ("encrypt",), ("restart",)]


def written(depth):
    @scenario
    def run(w, ch, ctx):
        node = Node(w, OWN, ["n1", "n2"], label="me").must_start()
        me = node.device_id
        p = {d: Peer(w, B, d, ik_of(d), ("n1", "n2")).publish() for d in (1, 2)}
        Peer(w, OWN, 5, ik_of(5), ("n1", "n2")).publish(listed=False)
        w.lists.pop(("n1", B)), w.lists.pop(("n2", B))
        iks = {(B, 1): ik_of(1), (B, 2): ik_of(2), (OWN, 5): ik_of(5), (OWN, me): node.ik}
        model, trust, queue = Model(), {(OWN, node.ik): "UNDECIDED"}, {}
        for ns in ("n1", "n2"):
            model.update(ns, OWN, {me: "me"})
        known, sync = {(OWN, me)}, True

        def check(what):
            want = {"/own_device_id": me, "/ikp/is_seed": True, "/ikp/key": node.disk.get("/ikp/key")}
            for jid, devs in model.dev.items():
                want[f"/devices/{jid}/list"] = sorted(devs)
                for d, (active, label, _) in devs.items():
                    want[f"/devices/{jid}/{d}/namespaces"] = sorted(active)
                    want[f"/devices/{jid}/{d}/active"] = active
                    want[f"/devices/{jid}/{d}/label"] = label
                    if (jid, d) in known:
                        want[f"/devices/{jid}/{d}/identity_key"] = b64(iks[(jid, d)])
            for (jid, ik), name in trust.items():
                want[f"/trust/{jid}/{b64(ik)}"] = name
            for ns, jids in queue.items():
                want[f"/queue/{ns}"] = sorted(jids)
                for jid, ds in jids.items():
                    want[f"/queue/{ns}/{jid}"] = sorted(ds)
            have = {}
            for k in node.disk.kv:
                v = node.disk.get(k)
                if k.split("/")[1] in ("own_device_id", "ikp", "devices", "trust", "queue"):
                    v = sorted(v) if isinstance(v, list) else v
                    if not (k.startswith("/queue/") and v == []):
                        have[k] = v
            for k in sorted(set(want) | set(have)):
                if have.get(k, "-") != want.get(k, "-") or type(have.get(k)) is not type(want.get(k)):
                    raise Violation(f"{what}: {k} is stored as {have.get(k, 'nothing')!r}, the layout demands "
                                    f"{want.get(k, 'nothing')!r}")
        check("setup")

        def fetch(jid):
            for d in model.dev.get(jid, {}):
                known.add((jid, d))
        for i in range(depth):
            op = ch.pick(OPS, f"op {i}")
            if op[0] == "list":
                _, ns, jid, lst = op
                lst = {me if d == ME else d: l for d, l in lst.items()}
                node.ok(node.sm.update_device_list(ns, jid, lst))
                w.lists[(ns, jid)] = lst
                model.update(ns, jid, lst)
            elif op[0] == "query":
                node.ok(node.sm.get_device_information(B))
                fetch(B)
            elif op[0] == "trust":
                node.ok(node.sm.set_trust(op[1], ik_of(op[2]), op[3]))
                trust[(op[1], ik_of(op[2]))] = op[3]
            elif op[0] == "label":
                node.ok(node.sm.set_own_label(op[1]))
                model.dev[OWN][me][1] = op[1]
            elif op[0] == "kex":
                _, ns, d = op
                if ns not in model.dev.get(B, {}).get(d, [{}])[0] or not w.lists.get((ns, B)):
                    w.lists.setdefault((ns, B), {})[d] = "a"
                    model.update(ns, B, w.lists[(ns, B)]) if d not in model.dev.get(B, {}) else None
                node.ok(node.sm.decrypt(p[d].message(ns, OWN, me, fresh_session=True)))
                fetch(B)
                if sync:
                    queue.setdefault(ns, {}).setdefault(B, set()).add(d)
            elif op[0] == "sync":
                node.ok(node.sm.after_history_sync())
                queue.clear()
                sync = False
            elif op[0] == "encrypt":
                node.call(node.sm.encrypt(frozenset({B}), {"n1": b"", "n2": b""}))
                fetch(B), fetch(OWN)
            elif op[0] == "restart":
                node.must_start()
                fetch(OWN)
                sync = True
            check(f"{op[:2]}")
    return run


def scenarios(tier):
    return [("record", one_device()), ("records", several(2 if tier == "quick" else 3)), ("own", own()), ("queue", queues()),
            ("written", written(3 if tier == "quick" else 4))]
