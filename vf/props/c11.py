"""C11: one stable identity key and one unique device id, shared by all backends."""
import base64
import json

import omemo
import xeddsa
from omemo.identity_key_pair import IdentityKeyPair, IdentityKeyPairSeed, IdentityKeyPairPriv

from ..env import Node, Peer, scenario, ik_of, exc_name, Faults, World, Disk
from ..enc import OWN
from ..explore import Violation

PROP = "C11"
BOUNDS = {
    "quick": "first start with every subset of five already taken ids in an id range of six (two backends, ids split over "
             "their lists in every way, the first two random draws taking every value); a failure or crash at every interaction of the first start; every sequence of 4 "
             "operations out of restart, backend set changes, encryption, label change, purge of another account, "
             "rotation, key exchange; identity secrets generated, migrated seeds and private keys, in every encoding "
             "alphabet edge",
    "thorough": "two interruptions, sequences of 5, id range of eight"
}
ASSUMPTIONS = ["at least one id of the range is free"]


def draws(w, ch, n_free, edges=False):
    """Random draws become choices: the first n_free of them freely, then one value after the other."""
    count = [0]

    def randbelow(n):
        count[0] += 1
        if count[0] > n_free:
            return (n - 1 - count[0] + n_free + 1) % n
        if edges:
            return ch.pick(sorted({0, 1, n // 2, n - 2, n - 1}), f"random below {n}")
        return ch.pick(range(n), f"random below {n}")
    w.rand.randbelow = randbelow


def full_range():
    """The real id range, with draws at its edges."""
    @scenario
    def run(w, ch, ctx):
        lo, hi = 1, 2 ** 31 - 1
        for i in (lo, hi, hi - 1):
            for ns in ch.pick(((), ("n1",), ("n2",)), f"id {i} taken in"):
                w.lists.setdefault((ns, OWN), {})[i] = None
        taken = {i for l in w.lists.values() for i in l}
        draws(w, ch, 3, edges=True)
        node = Node(w, OWN, ["n1", "n2"])
        node.must_start()
        if not (type(node.device_id) is int and lo <= node.device_id <= hi):
            raise Violation(f"device id {node.device_id} is not in [{lo}, {hi}]")
        if node.device_id in taken:
            raise Violation(f"device id {node.device_id} was already taken")
        ctx.outcome(f"taken {len(taken)}")
    return run


def ids(size):
    """The id range is [3, 3 + size]."""
    @scenario
    def run(w, ch, ctx):
        dmin, dmax = 3, 3 + size
        taken = {}
        for i in range(dmin, dmin + size - 1):
            where = ch.pick(((), ("n1",), ("n2",), ("n1", "n2")) if i < dmin + 3 else ((), ("n2",)), f"id {i} taken in")
            for ns in where:
                w.lists.setdefault((ns, OWN), {})[i] = None
                taken.setdefault(i, set()).add(ns)
            if where:
                Peer(w, OWN, i, ik_of(i), where).publish(listed=False)
        draws(w, ch, 2)
        node = Node(w, OWN, ["n1", "n2"], dmin=dmin, dmax=dmax)
        out = node.start()
        if out.kind != "ok":
            raise Violation(f"first start failed: {out.exc!r}")
        me = node.device_id
        if not (isinstance(me, int) and dmin <= me <= dmax):
            raise Violation(f"device id {me} is not in [{dmin}, {dmax}]")
        if me in taken:
            raise Violation(f"device id {me} was already taken in {sorted(taken[me])}")
        for ns in ("n1", "n2"):
            want = {i: None for i, where in taken.items() if ns in where}
            if w.lists[(ns, OWN)] != {**want, me: node.label}:
                raise Violation(f"list of {ns}: {w.lists[(ns, OWN)]}")
        info, others = node.ok(node.sm.get_own_device_information())
        if info.device_id != me or {d.device_id for d in others} != set(taken):
            raise Violation("own device information mixes up devices")
        ctx.outcome(f"taken {len(taken)}")
    return run


class Identity:
    """Everything that ever leaves the device must name the same id and key."""

    def __init__(self, w, node):
        self.w, self.node, self.me, self.ik = w, node, None, None
        self.mark = 0

    def note(self, me, ik, where):
        if self.me is None:
            self.me, self.ik = me, ik
        if me != self.me:
            raise Violation(f"{where}: device id {me}, was {self.me}")
        if ik is not None and ik != self.ik:
            raise Violation(f"{where}: identity key {ik.hex()}, was {self.ik.hex()}")

    def check(self):
        w, node = self.w, self.node
        info, others = node.ok(node.sm.get_own_device_information(), "own device information")
        self.note(info.device_id, info.identity_key, "own device information")
        if any(d.device_id == self.me for d in others):
            raise Violation("this device appears among the others")
        for e in w.log[self.mark:]:
            if e[0] == "up_bundle":
                self.note(e[2].device_id, e[2].identity_key, "published bundle")
                if e[2].bare_jid != OWN:
                    raise Violation(f"bundle published for {e[2].bare_jid}")
            elif e[0] == "up_list" and e[2] in [b.namespace for b in node.backends]:
                if self.me not in e[3]:
                    raise Violation("device list published without this device")
            elif e[0] == "send":
                self.message(e[2])
            elif e[0] == "del_bundle":
                self.note(e[3], None, "deleted bundle")
        self.mark = len(w.log)
        for b in node.backends:
            got = node.ok(b.get_bundle(OWN, self.me))
            self.note(got.device_id, got.identity_key, f"bundle of {b.namespace}")

    def message(self, m):
        self.note(m.device_id, None, "message")
        if m.bare_jid != OWN:
            raise Violation(f"message from {m.bare_jid}")
        for ekm, kex in m.keys:
            if kex is not None:
                self.note(self.me, kex.identity_key, "key exchange")


def life(depth):
    @scenario
    def run(w, ch, ctx):
        node = Node(w, OWN, ["n1", "n2"]).must_start()
        p = Peer(w, "a@x.b", 1, ik_of(1), ("n1", "n2", "n3")).publish()
        ident = Identity(w, node)
        ident.check()
        published = ident.ik
        node.ok(node.sm.refresh_device_lists("a@x.b"))
        ops = [("start", ("n1",)), ("start", ("n2", "n1")), ("start", ("n3",)), ("encrypt",), ("label",), ("kex",),
               ("live",), ("rotate",), ("purge jid",), ("purge",), ("consistency",), ("replace",)]
        for i in range(depth):
            op = ch.pick(ops, f"op {i}")
            nss = [b.namespace for b in node.backends]
            live = [ns for ns in nss if (ns, OWN, node.device_id) in w.bundles]
            if op[0] == "start":
                node.must_start(list(op[1]))
            elif op[0] == "encrypt":
                node.ok(node.sm.refresh_device_lists("a@x.b"))
                node.ok(node.sm.set_trust("a@x.b", p.ik, "TRUSTED"))
                out = node.call(node.sm.encrypt(frozenset({"a@x.b"}), {ns: b"x" for ns in nss}))
                if out.kind == "ok":
                    for m in out.value[0]:
                        ident.message(m)
                elif live:
                    raise Violation(f"encrypt: {out.exc!r}")
            elif op[0] == "label":
                node.ok(node.sm.set_own_label("other"))
            elif op[0] == "kex":
                if live:
                    node.ok(node.sm.refresh_device_lists("a@x.b"))
                    node.ok(node.sm.decrypt(p.message(live[0], OWN, node.device_id, fresh_session=True)))
            elif op[0] == "live":
                node.ok(node.sm.after_history_sync())
            elif op[0] == "rotate":
                w.advance(8 * 24 * 3600)
            elif op[0] == "purge jid":
                node.ok(node.sm.purge_bare_jid("a@x.b"))
            elif op[0] == "purge":
                if live:
                    node.ok(node.sm.purge_backend(live[0]))
                    node.backends = [b for b in node.backends if b.namespace != live[0]]
            elif op[0] == "consistency":
                node.ok(node.sm.ensure_data_consistency())
            elif op[0] == "replace":
                for d in node.ok(node.sm.get_device_information("a@x.b")):
                    node.ok(node.sm.replace_sessions(d))
            ident.check()
        # the secret still is the one behind the public key
        kp = node.ok(IdentityKeyPair.get(node.storage))
        if kp.identity_key != published:
            raise Violation("the stored identity secret yields another public key")
        node.must_start(["n1", "n2"])
        ident.check()
    return run


def interrupted(budget):
    """The first start is interrupted; from the moment anything is published, id and key never change."""
    @scenario
    def run(w, ch, ctx):
        node = Node(w, OWN, ["n1", "n2"] if ch.flag("two backends") else ["n1"])
        seen = {"ik": set(), "id": set()}

        def watch(n, op, args, result):
            if op == "up_bundle":
                seen["ik"].add(args["bundle"].identity_key)
                seen["id"].add(args["bundle"].device_id)
            elif op == "up_list":
                seen["id"] |= set(args["list"])
        w.after = watch
        faults = Faults(w, node, budget, ("fail", "crash"))
        known = None
        while True:
            hits = len(faults.hits)
            out = node.start()
            if out.kind == "ok":
                break
            if len(faults.hits) == hits:
                raise Violation(f"start after an interrupted first start fails: {out.exc!r}")
            node.kill()
        faults.stop()
        ident = Identity(w, node)
        ident.check()
        if seen["ik"] - {ident.ik} or seen["id"] - {ident.me}:
            raise Violation(f"an interrupted first start published another identity: ids {seen['id']}, now {ident.me}")
        node.must_start()
        ident.check()
        ctx.outcome(str([h for h in faults.hits]))
    return run


SECRETS = [bytes(range(32)), b"\xfb\xef\xbe" * 10 + b"\xff\xfe", b"\x00" * 31 + b"\x01", b"\xff" * 32]


def secrets_():
    """Whatever secret is stored, of either kind, in cached or uncached storage: the public key is the one of the
    secret, the private key belongs to it, and looking does not change what is stored."""
    @scenario
    def run(w, ch, ctx):
        raw = ch.pick(SECRETS, "secret")
        is_seed = ch.flag("seed")
        if not is_seed:
            raw = xeddsa.seed_to_priv(raw)
        disk = Disk()
        disk.kv["/ikp/is_seed"] = json.dumps(is_seed)
        disk.kv["/ikp/key"] = json.dumps(base64.urlsafe_b64encode(raw).decode())
        want = xeddsa.seed_to_ed25519_pub(raw) if is_seed else xeddsa.priv_to_ed25519_pub(raw)
        node = Node(w, OWN, ["n1", "n2"], disk=disk, cache=ch.flag("cache"))
        node.must_start()
        for _ in range(2):
            kp = node.ok(IdentityKeyPair.get(node.storage))
            if kp.identity_key != want or kp.is_seed is not is_seed or kp.is_priv is is_seed:
                raise Violation(f"stored secret (seed: {is_seed}) yields {kp.identity_key.hex()}")
            priv = kp.as_priv()
            if xeddsa.priv_to_ed25519_pub(priv.priv) != want or priv.identity_key != want:
                raise Violation("the private key of the identity does not belong to the identity key")
            if is_seed and (kp.seed != raw or priv.priv != xeddsa.seed_to_priv(raw)) or not is_seed and kp.priv != raw:
                raise Violation("the stored secret is not what is returned")
            for ns in ("n1", "n2"):
                if w.bundles[(ns, OWN, node.device_id)].identity_key != want:
                    raise Violation("published bundle has another identity key")
            if node.disk.get("/ikp/is_seed") is not is_seed or \
                    node.disk.get("/ikp/key") != base64.urlsafe_b64encode(raw).decode():
                raise Violation("looking at the identity changed what is stored")
            node.must_start()
        ctx.outcome(f"seed={is_seed}")
    return run


def scenarios(tier):
    if tier == "quick":
        return [("ids", ids(6)), ("range", full_range()), ("life", life(4)), ("interrupted", interrupted(1)), ("secrets", secrets_())]
    return [("ids", ids(8)), ("range", full_range()), ("life", life(5)), ("interrupted", interrupted(2)), ("secrets", secrets_())]
