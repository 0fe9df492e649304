"""C20: overlapping calls about unrelated accounts do not affect each other."""
import json

from ..env import Node, Peer, World, scenario, ik_of, exc_name, ekms, BundleNotFound
from ..enc import OWN
from ..explore import Violation

PROP = "C20"
BOUNDS = {
    "quick": "all pairs out of 13 operations on two accounts (lists pushed and refreshed in either namespace, queries with "
             "known and unknown identity keys, trust changes, encryptions over existing and new sessions with and without "
             "trust decision and with an unreachable device, decryptions, replacement, purge), storage cache on and off; "
             "8 operations on the own account (lists, label, check, trust) with each of these, and all pairs out of 5 on two "
             "devices of one account; 34 pairs with first messages during history synchronization; every interleaving of their interactions with at most 2 preemptions (1 with the cache off)",
    "thorough": "at most 3 preemptions (2 with the cache off, 4 between devices), and 2 when also switching after the effect of an interaction"
}
ASSUMPTIONS = ["the own account has no other trusted device, whose session two encryptions would share",
               "messages decrypted belong to established sessions"]
B, C = "a@x.b", "a@x.bc"
NSS = ("n1", "n2")
_solo = {}


class Side:
    """One account, and everything prepared for operations on it."""

    def __init__(self, w, node, jid):
        self.w, self.node, self.jid = w, node, jid
        self.p = Peer(w, jid, 1, ik_of(1), NSS, label="l1").publish()          # established
        self.q = Peer(w, jid, 2, ik_of(2 if jid == B else 3), ("n2",)).publish()   # known, trusted, no session
        self.r = Peer(w, jid, 3, ik_of(4 if jid == B else 5), ("n1",)).publish()   # listed, identity key not fetched
        self.s = Peer(w, jid, 4, ik_of(6 if jid == B else 7), ("n2",)).publish(listed=False)

    def prepare(self, op):
        node, w, jid = self.node, self.w, self.jid
        sm = node.sm
        w.lists[("n1", jid)] = {1: "l1"}
        w.lists[("n2", jid)] = {1: "l1", 2: None}
        node.ok(sm.refresh_device_lists(jid))
        node.ok(sm.get_device_information(jid))
        for ik in {self.p.ik, self.q.ik}:
            node.ok(sm.set_trust(jid, ik, "TRUSTED"))
        for ns in NSS:
            node.ok(sm.decrypt(self.p.message(ns, OWN, node.device_id)))
        for _, m, to in w.sent:
            if to == jid:
                self.p.receive(m)
        w.sent.clear()
        if op in ("query-new", "encrypt-new", "encrypt-gone"):
            w.lists[("n1", jid)] = {1: "l1", 3: "l3"}
            node.ok(sm.refresh_device_list("n1", jid))
            if op == "encrypt-gone":
                w.bundles.pop(("n2", jid, 2))
        self.in_n1 = self.p.message("n1", OWN, node.device_id, b"for " + jid.encode())

    def coro(self, op):
        sm, jid, w = self.node.sm, self.jid, self.w
        if op == "push":
            return sm.update_device_list("n1", jid, {1: "new", 3: "x"})
        if op == "empty":
            return sm.update_device_list("n2", jid, {})
        if op == "refresh":
            w.lists[("n1", jid)] = {2: "two"}
            w.lists[("n2", jid)] = {4: "four", 1: None}
            return sm.refresh_device_lists(jid)
        if op in ("query", "query-new"):
            return sm.get_device_information(jid)
        if op == "trust":
            return sm.set_trust(jid, self.p.ik, "DISTRUSTED")
        if op == "encrypt":
            return sm.encrypt(frozenset({jid}), {ns: f"{jid} {ns}".encode() for ns in NSS}, ["n1", "n2"], jid)
        if op in ("encrypt-new", "encrypt-gone"):
            return sm.encrypt(frozenset({jid}), {ns: f"{jid} {ns}".encode() for ns in NSS}, ["n2", "n1"], jid)
        if op == "decrypt":
            return sm.decrypt(self.in_n1)
        if op == "replace":
            return sm.replace_sessions(self.info)
        if op == "purge":
            return sm.purge_bare_jid(jid)
        if op == "chain":
            return sm.get_sending_chain_length(self.info)
        raise AssertionError(op)

    def result(self, out):
        """The outcome without the numbers that depend on when something was generated."""
        if out.kind != "ok":
            return exc_name(out)
        v = out.value
        if isinstance(v, tuple) and len(v) == 2 and not isinstance(v[0], bytes) and isinstance(v[0], dict):
            ms, errors = v
            return (sorted((m.namespace, to == self.jid, sorted((a, ekm.n, kex is not None)
                            for a, (ekm, kex) in ekms(m).items()), sorted(self.receive(m))) for m, to in
                           ((m, self.jid) for m in ms)),
                    sorted((e.namespace, e.bare_jid, e.device_id, type(e.exception).__name__) for e in errors))
        if isinstance(v, tuple) and len(v) == 3:
            return (v[0], v[1])
        if isinstance(v, dict):
            return sorted((k, repr(x)) for k, x in v.items())
        return v

    def receive(self, m):
        out = []
        for p in (self.p, self.q, self.r, self.s):
            if (p.jid, p.dev) in ekms(m) and m.namespace in p.cores:
                out.append((p.dev, p.receive(m)))
        return out

    def observe(self):
        w, node, jid = self.w, self.node, self.jid
        kv = {}
        for k, v in node.disk.kv.items():
            if jid in k.split("/"):
                v = json.loads(v)
                kv[k] = sorted(v) if isinstance(v, list) else v
        ss = {}
        for ns in NSS:
            for (j, d), s in node.sessions(ns).items():
                if j == jid:
                    ss[(ns, d)] = (s["role"], s["conf"], s["pn"], s["sn"], s["rcid"] is None, s["rn"], len(s["used"]),
                                   s["rik"])
        sent = sorted((m.namespace, m.content.empty, sorted(ekms(m))) for _, m, to in w.sent if to == jid)
        asked = sorted((ident, sorted(d.device_id for d in un)) for un, ident in node.decisions if ident == jid)
        return {"core data": kv, "sessions": ss, "sent": sent, "trust questions": asked,
                "devices": node.ok(node.sm.get_device_information(jid))}

    def rest(self):
        w, node = self.w, self.node
        return {"own data": {k: v for k, v in node.disk.kv.items() if not {B, C} & set(k.split("/"))},
                "lists": sorted((k, sorted(v.items())) for k, v in w.lists.items() if k[1] == OWN),
                "bundles": {k: v for k, v in w.bundles.items() if k[1] == OWN} ==
                           {(ns, OWN, node.device_id): node.bundle(ns) for ns in NSS}}


class Own:
    """The own account, without other devices."""

    def __init__(self, w, node, jid):
        self.w, self.node, self.jid = w, node, jid

    def prepare(self, op):
        w, node = self.w, self.node
        if op == "own-stale":
            w.bundles.pop(("n1", OWN, node.device_id))
            w.lists[("n2", OWN)] = {}

    def coro(self, op):
        sm, w, me = self.node.sm, self.w, self.node.device_id
        if op == "own-empty":
            w.lists[("n1", OWN)] = {}
            return sm.update_device_list("n1", OWN, {})
        if op == "own-push":
            return sm.update_device_list("n2", OWN, {me: "pushed"})
        if op == "own-refresh":
            w.lists[("n1", OWN)] = {}
            return sm.refresh_device_lists(OWN)
        if op == "own-label":
            return sm.set_own_label("renamed")
        if op == "own-query":
            return sm.get_own_device_information()
        if op in ("own-check", "own-stale"):
            return sm.ensure_data_consistency()
        if op == "own-trust":
            return sm.set_trust(OWN, ik_of(9), "TRUSTED")
        raise AssertionError(op)

    def result(self, out):
        return exc_name(out) if out.kind != "ok" else out.value

    def observe(self):
        w, node = self.w, self.node
        return {"own device": node.ok(node.sm.get_own_device_information()),
                "core data": {k: v for k, v in node.disk.kv.items() if OWN in k.split("/")}}

    def rest(self):
        w, node = self.w, self.node
        return {"lists": sorted((k, sorted(v.items())) for k, v in w.lists.items() if k[1] == OWN),
                "bundles": {k: v for k, v in w.bundles.items() if k[1] == OWN} ==
                           {(ns, OWN, node.device_id): node.bundle(ns) for ns in NSS}}


class Device:
    """One of two devices of the same account, with sessions."""

    def __init__(self, w, node, jid, dev):
        self.w, self.node, self.jid, self.dev = w, node, jid, dev
        self.p = Peer(w, jid, dev, ik_of(dev), NSS, label=f"l{dev}").publish()

    def prepare(self, op):
        node, w, sm = self.node, self.w, self.node.sm
        node.ok(sm.refresh_device_lists(self.jid))
        node.ok(sm.get_device_information(self.jid))
        node.ok(sm.set_trust(self.jid, self.p.ik, "UNDECIDED" if self.dev == 1 else "TRUSTED"))
        for ns in NSS:
            node.ok(sm.decrypt(self.p.message(ns, OWN, node.device_id)))
        for _, m, to in w.sent:
            if (self.jid, self.dev) in ekms(m):
                self.p.receive(m)
        self.incoming = [self.p.message("n1", OWN, node.device_id, f"hello {i}".encode()) for i in range(2)]
        if op == "jump":
            for _ in range(60):
                self.far = self.p.message("n1", OWN, node.device_id, b"far")

    def coro(self, op):
        sm = self.node.sm
        if op == "decrypt":
            return sm.decrypt(self.incoming[self.dev - 1])
        if op == "jump":
            return sm.decrypt(self.far)
        if op == "replace":
            return sm.replace_sessions(self.info)
        if op == "chain":
            return sm.get_sending_chain_length(self.info)
        if op == "trust":
            return sm.set_trust(self.jid, self.p.ik, "DISTRUSTED" if self.dev == 1 else "FIRST")
        raise AssertionError(op)

    def result(self, out):
        if out.kind != "ok":
            return exc_name(out)
        return out.value

    def observe(self):
        w, node = self.w, self.node
        return {"sessions": {ns: (s["role"], s["conf"], s["pn"], s["sn"], s["rcid"] is None, s["rn"], len(s["used"]), s["rik"])
                             for ns in NSS for s in [node.sessions(ns)[(self.jid, self.dev)]]},
                "sent": sorted((m.namespace, m.content.empty, to, ekms(m)[(self.jid, self.dev)][1] is not None)
                               for _, m, to in w.sent if (self.jid, self.dev) in ekms(m)),
                "device": [d for d in node.ok(node.sm.get_device_information(self.jid)) if d.device_id == self.dev]}

    def rest(self):
        node = self.node
        return {"data": {k: sorted(v) if isinstance(v, list) else v for k, v in
                         ((k, json.loads(v)) for k, v in node.disk.kv.items())}}


class CatchUp(Side):
    """An account during history synchronization, with first messages that have to be answered later."""

    def prepare(self, op):
        node, w, jid = self.node, self.w, self.jid
        super().prepare("query-new")
        t = Peer(w, jid, 5, ik_of(7 if jid == B else 8), ("n1",)).publish()
        node.ok(node.sm.refresh_device_list("n1", jid))
        self.messages = {"first-n1": self.r.message("n1", OWN, node.device_id, b"first of r"),
                         "first-n2": self.q.message("n2", OWN, node.device_id, b"first of q"),
                         "other-n1": t.message("n1", OWN, node.device_id, b"first of t"),
                         "decrypt": self.in_n1}
        if op == "stale":
            for _ in range(60):
                self.messages[op] = self.p.message("n2", OWN, node.device_id, b"stale")

    def coro(self, op):
        if op in self.messages:
            return self.node.sm.decrypt(self.messages[op])
        if op == "sync":
            return self.node.sm.after_history_sync()
        return super().coro(op)

    def rest(self):
        w, node = self.w, self.node
        data = super().rest()
        data["own data"] = {k: v for k, v in data["own data"].items() if not k.startswith("/queue/")}
        node.ok(node.sm.after_history_sync())
        data["replies"] = sorted((m.namespace, m.content.empty, to, sorted(ekms(m))) for _, m, to in w.sent)
        data["left"] = sorted(k for k in node.disk.kv if k.startswith("/queue/"))
        data["bundles afterwards"] = super().rest()["bundles"]
        return data


QUEUES = {"first-n1": "n1", "other-n1": "n1", "first-n2": "n2", "stale": "n2"}


def conflict(kind, ops, what):
    """The known finding: two replies that are queued for the same namespace at the same time."""
    if kind == "catchup" and what in ("core data", "replies", "left") and ops[0] in QUEUES and ops[1] in QUEUES and (
            QUEUES[ops[0]] == QUEUES[ops[1]]):
        return "queued-replies"
    return None


KINDS = {
    "catchup": (lambda w, n: CatchUp(w, n, B), lambda w, n: CatchUp(w, n, C)),
    "accounts": (lambda w, n: Side(w, n, B), lambda w, n: Side(w, n, C)),
    "own": (lambda w, n: Own(w, n, OWN), lambda w, n: Side(w, n, C)),
    "devices": (lambda w, n: Device(w, n, B, 1), lambda w, n: Device(w, n, B, 2)),
}


def build(w, kind, ops, cache):
    node = Node(w, OWN, list(NSS), cache=cache).must_start()
    node.ok(node.sm.after_history_sync())

    async def decide(sm, undecided, identifier):
        for d in sorted(undecided, key=lambda d: d.device_id):
            await sm.set_trust(d.bare_jid, d.identity_key, "TRUSTED")
    node.decide = decide
    sides = [make(w, node) for make in KINDS[kind]]
    for side, op in reversed(list(zip(sides, ops))):
        side.prepare(op)
        if op in ("replace", "chain"):
            side.info = next(d for d in node.ok(node.sm.get_device_information(side.jid)) if d.device_id == side.p.dev)
    w.sent.clear()
    if kind == "catchup":
        node.must_start()
        return node, sides
    if not cache:
        return node, sides
    node.must_start()       # with a cold cache
    node.ok(node.sm.after_history_sync())
    return node, sides


def name(op, side):
    return f"{op} for {side.jid}" + (f"/{side.dev}" if isinstance(side, Device) else "")


def solo(kind, ops, cache):
    """Both operations one after the other, in either order."""
    key = (kind, ops, cache)
    if key not in _solo:
        runs = []
        for order in ((0, 1), (1, 0)):
            w = World()
            try:
                node, sides = build(w, kind, ops, cache)
                res = [None, None]
                for i in order:
                    res[i] = node.call(sides[i].coro(ops[i]))
                res = [s.result(o) for s, o in zip(sides, res)]
                runs.append([(r, s.observe()) for r, s in zip(res, sides)] + [sides[0].rest()])
            finally:
                w.close()
        if runs[0] != runs[1]:
            raise Violation(f"{kind}: the order of {ops} matters")
        _solo[key] = runs[0]
    return _solo[key]


def pairs(kind, combos, bound, caches, phases=1):
    def run(ch, ctx):
        pair = ch.pick(combos, "operations")
        cache = ch.pick(caches, "cache")
        want = solo(kind, pair, cache)
        w = World(ch, ctx)
        try:
            node, sides = build(w, kind, pair, cache)
            # decisions of the callback are part of the schedule
            outs = w.together([(node, s.coro(op)) for s, op in zip(sides, pair)], bound, phases)
            res = [s.result(o) for s, o in zip(sides, outs)]
            for i, s in enumerate(sides):
                if res[i] != want[i][0]:
                    raise Violation(f"{name(pair[i], s)} gives {res[i]} instead of {want[i][0]} when it overlaps with "
                                    f"{name(pair[1 - i], sides[1 - i])}")
                got = s.observe()
                for k in got:
                    if got[k] != want[i][1][k]:
                        raise Violation(f"{name(pair[i], s)} overlapping with {name(pair[1 - i], sides[1 - i])} leaves {k}: "
                                        f"{got[k]} instead of {want[i][1][k]}", sig=conflict(kind, pair, k))
            rest = sides[0].rest()
            for k in rest:
                if rest[k] != want[2].get(k):
                    raise Violation(f"{pair} overlapping changed {k}: {rest[k]} instead of {want[2].get(k)}",
                                    sig=conflict(kind, pair, k))
            ctx.outcome(f"{kind} {pair}")
        finally:
            w.close()
    return run


OPS = ("push", "empty", "refresh", "query", "query-new", "trust", "encrypt", "encrypt-new", "encrypt-gone", "decrypt",
       "replace", "purge", "chain")


PAIRS = [(a, b) for i, a in enumerate(OPS) for b in OPS[i:]]
OWN_OPS = ("own-empty", "own-push", "own-refresh", "own-label", "own-query", "own-check", "own-stale", "own-trust")
OWN_PAIRS = [(a, b) for a in OWN_OPS for b in OPS]
CATCHUP_OPS = ("first-n1", "first-n2", "stale", "decrypt", "encrypt", "encrypt-new", "push", "trust", "replace", "query")
CATCHUP_PAIRS = [(a, b) for i, a in enumerate(CATCHUP_OPS[:4]) for b in CATCHUP_OPS[i:]]
DEV_OPS = ("decrypt", "jump", "replace", "chain", "trust")
DEV_PAIRS = [(a, b) for a in DEV_OPS for b in DEV_OPS]


def scenarios(tier):
    if tier == "quick":
        return [("catchup", pairs("catchup", CATCHUP_PAIRS, 2, (True,))), ("catchup-uncached", pairs("catchup", CATCHUP_PAIRS, 1, (False,))),
                ("devices", pairs("devices", DEV_PAIRS, 2, (True, False))), ("own", pairs("own", OWN_PAIRS, 2, (True, False))),
                ("cached", pairs("accounts", PAIRS, 2, (True,))), ("uncached", pairs("accounts", PAIRS, 1, (False,)))]
    return [("catchup", pairs("catchup", CATCHUP_PAIRS, 3, (True, False))), ("devices", pairs("devices", DEV_PAIRS, 4, (True, False), 2)), ("own", pairs("own", OWN_PAIRS, 3, (True, False), 2)),
            ("uncached", pairs("accounts", PAIRS, 2, (False,))), ("cached-phases", pairs("accounts", PAIRS, 2, (True,), 2)),
            ("cached", pairs("accounts", PAIRS, 3, (True,)))]
