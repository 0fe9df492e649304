"""C25: overlapping calls about one account end as if they had been made one after the other."""
from ..env import Node, Peer, World, exc_name, ekms, ik_of
from ..enc import OWN
from ..explore import Violation
from .c20 import NSS, B, QUEUES, CatchUp, Side

PROP = "C25"
BOUNDS = {
    "quick": "all pairs out of 14 operations on one account and out of 10 on the own account (lists pushed and refreshed in "
             "either namespace, queries with known and unknown identity keys, trust changes, encryptions over existing and new "
             "sessions, decryptions in either namespace, replacement, chain lengths, label changes, consistency check), and 43 pairs during or at the end of history synchronization; every "
             "interleaving of their interactions with at most 2 preemptions, with the storage cache, 1 without",
    "thorough": "at most 3 preemptions with and without the cache, and 2 when also switching after the effect of an interaction"
}
ASSUMPTIONS = ["the account is not purged meanwhile",
               "what queries and encryptions see of a list update under way is not compared, nor the namespaces and activity "
               "of devices left then, only the rest of what is left in the end"]
LISTS = ("push", "push2", "refresh", "own-empty", "own-push", "own-refresh", "own-other", "own-label", "own-check")


class Contact(Side):
    def __init__(self, w, node):
        super().__init__(w, node, B)

    def setup(self, pair):
        node = self.node
        self.prepare("query-new" if {"query-new", "encrypt-new"} & set(pair) else "")
        infos = node.ok(node.sm.get_device_information(B)) if {"replace", "chain"} & set(pair) else ()
        self.info = next((d for d in infos if d.device_id == 1), None)
        self.in_n2 = self.p.message("n2", OWN, node.device_id, b"second")
        self.w.sent.clear()

    def coro(self, op):
        sm, w = self.node.sm, self.w
        if op == "refresh":
            w.lists[("n1", B)] = {2: "two", 6: "six"}
            return sm.refresh_device_list("n1", B)
        if op == "push2":
            return sm.update_device_list("n2", B, {1: "other", 2: None, 5: "five"})
        if op == "decrypt2":
            return sm.decrypt(self.in_n2)
        if op == "trust-new":
            return sm.set_trust(B, self.r.ik, "DISTRUSTED")
        if op == "trust2":
            return sm.set_trust(B, self.q.ik, "DISTRUSTED")
        return super().coro(op)


class OwnAccount:
    """The own account with a second device, and a contact."""
    jid = OWN

    def __init__(self, w, node):
        self.w, self.node = w, node
        self.p = Peer(w, OWN, 5, ik_of(5), NSS, label="five")
        self.q = Peer(w, B, 1, ik_of(1), NSS)
        self.published = 0

    def setup(self, pair):
        w, node, sm = self.w, self.node, self.node.sm
        for p in (self.p, self.q):
            p.publish()
            node.ok(sm.refresh_device_lists(p.jid))
            node.ok(sm.get_device_information(p.jid))
            node.ok(sm.set_trust(p.jid, p.ik, "TRUSTED"))
            for ns in NSS:
                node.ok(sm.decrypt(p.message(ns, OWN, node.device_id)))
        for _, m, to in w.sent:
            for p in (self.p, self.q):
                if (p.jid, p.dev) in ekms(m):
                    p.receive(m)
        w.sent.clear()
        self.incoming = self.p.message("n1", OWN, node.device_id, b"own")

    def coro(self, op):
        sm, w, me = self.node.sm, self.w, self.node.device_id
        if op == "own-empty":
            w.lists[("n1", OWN)] = {}
            return sm.update_device_list("n1", OWN, {})
        if op == "own-push":
            return sm.update_device_list("n2", OWN, {me: "pushed", 5: "renamed"})
        if op == "own-other":
            w.lists[("n2", OWN)] = {5: None, 6: "six"}
            return sm.update_device_list("n2", OWN, {5: None, 6: "six"})
        if op == "own-refresh":
            return sm.refresh_device_list("n1", OWN)
        if op == "own-label":
            return sm.set_own_label("new label")
        if op == "own-query":
            return sm.get_own_device_information()
        if op == "own-check":
            return sm.ensure_data_consistency()
        if op == "own-trust":
            return sm.set_trust(OWN, self.p.ik, "DISTRUSTED")
        if op == "encrypt":
            return sm.encrypt(frozenset({B}), {ns: ns.encode() for ns in NSS}, ["n1", "n2"], "x")
        if op == "decrypt":
            return sm.decrypt(self.incoming)
        raise AssertionError(op)

    def receive(self, m):
        return [(p.jid, p.dev, p.receive(m)) for p in (self.p, self.q) if (p.jid, p.dev) in ekms(m)]

    result = Side.result
    observe = Side.observe

    def rest(self):
        w, node = self.w, self.node
        return {"own data": None, "lists": sorted((k, sorted(v.items())) for k, v in w.lists.items() if k[1] == OWN),
                "bundles": {k: v for k, v in w.bundles.items() if k[1:] == (OWN, node.device_id)} ==
                           {(ns, OWN, node.device_id): node.bundle(ns) for ns in NSS}}


class Sync(CatchUp):
    """A contact during history synchronization."""

    def __init__(self, w, node):
        super().__init__(w, node, B)

    def setup(self, pair):
        self.prepare("stale" if "stale" in pair else "")
        node = self.node
        infos = node.ok(node.sm.get_device_information(B)) if "replace" in pair else ()
        self.info = next((d for d in infos if d.device_id == 1), None)
        self.w.sent.clear()
        node.must_start()
        if "sync" in pair:      # replies that are queued already
            for op in ("first-n1", "first-n2"):
                node.ok(node.sm.decrypt(self.messages[op]))

    def rest(self):
        held = {ns: len(b["hid"]) for ns, b in self.node.disk.backends.items()}
        data = super().rest()
        data["own data"] = None
        data["held back"] = held
        return data


KINDS = {"contact": Contact, "own": OwnAccount, "sync": Sync}


def build(w, kind, pair, cache):
    node = Node(w, OWN, list(NSS), cache=cache).must_start()
    node.ok(node.sm.after_history_sync())

    async def decide(sm, undecided, identifier):
        for d in sorted(undecided, key=lambda d: d.device_id):
            await sm.set_trust(d.bare_jid, d.identity_key, "TRUSTED")
    node.decide = decide
    side = KINDS[kind](w, node)
    side.setup(pair)
    if cache and kind != "sync":
        node.must_start()       # with a cold cache
        node.ok(node.sm.after_history_sync())
    return node, side


def outcome(side, pair, outs):
    """What happened, in parts that are compared one by one."""
    parts = {}
    for i, (op, out) in enumerate(zip(pair, outs)):
        if out.kind == "ok" and "query" in op:
            r = "ok"
        elif out.kind == "ok" and (op.startswith("decrypt") or op in getattr(side, "messages", ())):
            r = out.value[0]
        elif out.kind == "ok" and op.startswith("encrypt"):
            messages, errors = out.value
            for m in messages:
                try:
                    texts = {(x[-2]): x[-1] for x in side.receive(m)}
                except Exception as e:  # a position used twice
                    texts = {"unreadable": type(e).__name__}
                for (jid, dev), (ekm, kex) in ekms(m).items():
                    parts[(f"key {i}", m.namespace, jid, dev)] = (ekm.n, kex is not None, texts.get(dev, texts))
            for e in errors:
                parts[(f"error {i}", e.namespace, e.bare_jid, e.device_id)] = type(e.exception).__name__
            r = "ok"
        else:
            r = side.result(out)
        parts[(f"result {i}",)] = repr(r)
    for name, v in list(side.observe().items()) + list(side.rest().items()):
        if name == "trust questions":
            continue    # both may have to ask
        if isinstance(v, dict):
            for k, x in v.items():
                parts[(name, k)] = repr(sorted(x.items()) if isinstance(x, dict) else x)
        else:
            parts[(name,)] = repr(sorted(v, key=repr) if isinstance(v, (set, frozenset)) else v)
    return parts


_solo = {}


def solo(kind, pair, cache):
    key = (kind, pair, cache)
    if key not in _solo:
        runs = []
        for order in ((0, 1), (1, 0)):
            w = World()
            try:
                node, side = build(w, kind, pair, cache)
                res = [None, None]
                for i in order:
                    res[i] = node.call(side.coro(pair[i]))
                runs.append(outcome(side, pair, res))
            finally:
                w.close()
        _solo[key] = runs
    return _solo[key]


# The sessions each operation uses.
USES = {
    "contact": {"encrypt": {("n1", 1), ("n2", 2)}, "encrypt-new": {("n2", 1), ("n2", 2), ("n1", 3)}, "decrypt": {("n1", 1)},
                "decrypt2": {("n2", 1)}, "replace": {("n1", 1), ("n2", 1)}},
    "sync": {"encrypt": {("n1", 1), ("n2", 2), ("n1", 3), ("n1", 5)}, "encrypt-new": {("n2", 1), ("n2", 2), ("n1", 3), ("n1", 5)},
             "decrypt": {("n1", 1)},
             "replace": {("n1", 1), ("n2", 1)}, "first-n1": {("n1", 3)}, "first-n2": {("n2", 2)}, "stale": {("n2", 1)},
             "other-n1": {("n1", 5)}, "sync": {("n1", 3), ("n2", 2)}},
    "own": {"encrypt": {("n1", 5), ("n1", 1)}, "decrypt": {("n1", 5)}}
}


def conflict(kind, pair, part, began):
    """The known findings: two calls that change the device lists of the account, two that use the same session, two that
    change the same queue of replies, and replies that are queued by a decryption which began before the end of history
    synchronization and ends after it."""
    if pair[0] in LISTS and pair[1] in LISTS:
        return "list-updates"
    if kind == "sync" and not str(part[0]).startswith("result"):
        queues = [{QUEUES.get(op)} - {None} for op in pair]
        if queues[0] & queues[1]:
            return "queued-replies"
        if "sync" in pair and began == [1 - pair.index("sync"), pair.index("sync")] and (queues[0] | queues[1]):
            return "late-replies"
    a, b = (USES[kind].get(op, set()) for op in pair)
    return "same-session" if a & b else None


QUERIES = ("query", "query-new", "encrypt", "encrypt-new", "decrypt", "decrypt2", "replace", "own-query")


def lists_and_query(pair):
    return bool(set(pair) & set(LISTS)) and bool(set(pair) & set(QUERIES))


def pairs(kind, combos, bound, caches, phases=1):
    def run(ch, ctx):
        pair = ch.pick(combos, "operations")
        cache = ch.pick(caches, "cache")
        a, b = solo(kind, pair, cache)
        w = World(ch, ctx)
        try:
            node, side = build(w, kind, pair, cache)
            outs = w.together([(node, side.coro(op)) for op in pair], bound, phases)
            began = [no for no, op in w.schedule if op == "begins"]
            got = outcome(side, pair, outs)
            ctx.outcome(f"{kind} {pair}: {'either' if a == b else 'first' if got == a else 'second' if got == b else 'mixed'}")
            if got in (a, b):
                return
            for k in sorted(set(got) | set(a) | set(b), key=repr):
                if lists_and_query(pair) and str(k[-1]).endswith(("devices", "/namespaces", "/active")):
                    continue    # a query repairs what it finds half-written
                if got.get(k) not in (a.get(k), b.get(k)):
                    raise Violation(f"{pair[0]} overlapping with {pair[1]}: {k} is {got.get(k)} instead of {a.get(k)} or "
                                    f"{b.get(k)}", sig=conflict(kind, pair, k, began))
            if not (pair[0] in LISTS or pair[1] in LISTS):
                raise Violation(f"{pair[0]} overlapping with {pair[1]} is seen partly as if before and partly as if after it",
                                sig=conflict(kind, pair, ("mixed",), began))
        finally:
            w.close()
    return run


OPS = ("push", "push2", "refresh", "query", "query-new", "trust", "trust2", "trust-new", "encrypt", "encrypt-new", "decrypt", "decrypt2", "replace",
       "chain")
OWN_OPS = ("own-empty", "own-push", "own-other", "own-refresh", "own-label", "own-query", "own-check", "own-trust", "encrypt", "decrypt")


def combos(ops):    # except where the answer to the trust question races with another trust change
    return [(a, b) for i, a in enumerate(ops) for b in ops[i:] if (a, b) != ("trust-new", "encrypt-new")]


SYNC_PAIRS = [(a, b) for i, a in enumerate(("first-n1", "other-n1", "first-n2", "stale")) for b in
              ("first-n1", "other-n1", "first-n2", "stale", "decrypt", "encrypt", "encrypt-new", "push", "trust", "replace")[i:]]
SYNC_PAIRS += [("sync", op) for op in ("sync", "other-n1", "stale", "decrypt", "encrypt", "push", "trust", "query", "replace")]


def scenarios(tier):
    if tier == "quick":
        return [("sync", pairs("sync", SYNC_PAIRS, 2, (True,))),
                ("contact", pairs("contact", combos(OPS), 2, (True,))), ("own", pairs("own", combos(OWN_OPS), 2, (True,))),
                ("uncached", pairs("contact", combos(OPS), 1, (False,))), ("own-uncached", pairs("own", combos(OWN_OPS), 1, (False,)))]
    return [("sync", pairs("sync", SYNC_PAIRS, 2, (True, False))), ("phases", pairs("contact", combos(OPS), 2, (True,), 2)), ("own-phases", pairs("own", combos(OWN_OPS), 2, (True,), 2)),
            ("contact", pairs("contact", combos(OPS), 3, (True, False))), ("own", pairs("own", combos(OWN_OPS), 3, (True, False)))]
