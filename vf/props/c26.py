"""C26: a call that fails says so, only as documented, and has its full effect when it is repeated."""
import asyncio
import json

from ..env import (
    FAULTS, Node, Peer, World, exc_name, ekms, ik_of, UnknownTrustLevel, BundleNotFound, KeyExchangeFailed, DecryptionFailed,
    StorageException
)
from ..enc import OWN
from ..explore import Violation

PROP = "C26"
BOUNDS = {
    "quick": "24 calls (setup, restart, backend added and removed, device lists of contacts and of the own account, queries, "
             "trust, label, encryption, decryption, session replacement, consistency check, history synchronization, purges) "
             "in prepared situations with established, new and unfetched devices, storage cache on and off; at every interaction "
             "a failure of the documented kind (as an application-defined subclass) before or after it takes effect, a "
             "cancellation before or after it, or a crash; repeated at once or after a restart",
    "thorough": "two of these per call"
}
ASSUMPTIONS = ["a backend method is atomic",
               "repeating a decryption and the end of history synchronization is left to C21 and C07"]
B, C = "a@x.b", "a@x.bc"
NSS = ("n1", "n2")
BACKEND = {"be.build_active": (KeyExchangeFailed,), "be.build_passive": (KeyExchangeFailed, DecryptionFailed),
           "be.decrypt_km": (DecryptionFailed,), "be.decrypt_plaintext": (DecryptionFailed,)}


def subclass(c):
    return type("Own" + c.__name__, (c,), {})


SUB = {c: subclass(c) for c in {*FAULTS.values(), UnknownTrustLevel, BundleNotFound, KeyExchangeFailed, DecryptionFailed,
                                StorageException}}


class Wrong:
    """Something goes wrong at one of the interactions of the call."""

    def __init__(self, w, node, budget):
        self.w, self.node, self.budget, self.hits, self.task = w, node, budget, [], None
        w.fault = self

    def __call__(self, node, op, args, write):
        if self.budget <= 0:
            return None
        self.task = self.task or asyncio.current_task()
        if self.task is not asyncio.current_task():
            return None     # the signed pre key rotation in the background
        classes = [FAULTS.get(op, StorageException)] + list(BACKEND.get(op, ()))
        if op == "dn_bundle":
            classes.append(BundleNotFound)
        if op == "trust_eval":
            classes = [UnknownTrustLevel]
        options = [None] + [("fail", c) for c in classes] + [("cancel", None)]
        if write:
            options += [("late", classes[0]), ("cancel late", None), ("crash", None)]
        what = self.w.ch.pick(options, f"{op} {args.get('key', args.get('ns', ''))}")
        if what is None:
            return None
        self.budget -= 1
        how, c = what
        e = SUB[c]() if c is not None else self.w.cancellation() if how != "crash" else None
        self.hits.append((op, how, e, args))
        return "crash" if how == "crash" else ("late", e) if "late" in how else e


class Situation:
    def __init__(self, w, cache, op):
        self.w, self.op = w, op
        node = self.node = Node(w, OWN, list(NSS), cache=cache)
        self.live = op not in ("sync", "first-queued")
        if op == "start-first":
            w.lists[("n1", OWN)] = {77: "other"}
            return
        node.must_start()
        node.ok(node.sm.after_history_sync())

        async def decide(sm, undecided, identifier):
            for d in sorted(undecided, key=lambda d: d.device_id):
                await sm.set_trust(d.bare_jid, d.identity_key, "TRUSTED")
        node.decide = decide
        sm, me = node.sm, node.device_id
        p = self.p = Peer(w, B, 1, ik_of(1), NSS, label="l1").publish()
        q = self.q = Peer(w, B, 2, ik_of(2), ("n2",)).publish()
        self.o = Peer(w, OWN, 5, ik_of(5), NSS, label="five").publish()
        self.c = Peer(w, C, 1, ik_of(6), ("n1",)).publish()
        r = self.r = Peer(w, B, 3, ik_of(3), ("n1",)).publish(listed=False)
        for jid in (B, OWN, C):
            node.ok(sm.refresh_device_lists(jid))
            infos = node.ok(sm.get_device_information(jid))
        for x in (p, q, self.o, self.c):
            node.ok(sm.set_trust(x.jid, x.ik, "TRUSTED"))
        for ns in NSS:
            node.ok(sm.decrypt(p.message(ns, OWN, me)))
            node.ok(sm.encrypt(frozenset({C}), {x: b"0" for x in NSS}))
        for _, m, to in w.sent:
            if (B, 1) in ekms(m):
                p.receive(m)
        w.lists[("n1", B)] = {1: "l1", 3: "l3"}
        if op != "unlisted":
            node.ok(sm.refresh_device_list("n1", B))
        self.info = next(d for d in node.ok(sm.get_device_information(B)) if d.device_id == 1) if op in ("replace", "chain") else None
        if op == "decrypt":
            self.message = p.message("n1", OWN, me, b"text")
        elif op in ("first", "first-queued", "sync", "unlisted"):
            self.message = r.message("n1", OWN, me, b"text")
        if op == "own-refresh":
            w.lists[("n1", OWN)] = {5: "five"}
            w.lists[("n2", OWN)] = {}
        elif op == "check":
            w.lists[("n2", OWN)] = {5: "five"}
            w.bundles.pop(("n1", OWN, me))
        elif op == "refresh":
            w.lists[("n1", B)] = {1: "new", 4: "four"}
            w.lists[("n2", B)] = {2: None}
        if not self.live:
            node.must_start()
            if op == "sync":
                node.ok(node.sm.decrypt(self.message))
        elif cache:
            self.restart()
        w.sent.clear()

    def restart(self):
        node = self.node
        saved, self.w.fault = self.w.fault, None
        if not self.op.startswith("start"):
            node.must_start()
            if self.live:
                node.ok(node.sm.after_history_sync())
        self.w.fault = saved

    def run(self):
        node, op = self.node, self.op
        if op.startswith("start"):
            return node.start({"start-add": ["n1", "n3", "n2"], "start-remove": ["n1"]}.get(op))
        sm, me = node.sm, node.device_id
        text = {ns: b"text" for ns in NSS}
        return node.call({
            "list": lambda: sm.update_device_list("n1", B, {1: "new", 4: "four"}),
            "refresh": lambda: sm.refresh_device_lists(B),
            "own-list": lambda: sm.update_device_list("n1", OWN, {5: "x", 6: None}),
            "own-refresh": lambda: sm.refresh_device_lists(OWN),
            "trust": lambda: sm.set_trust(B, ik_of(1), "DISTRUSTED"),
            "label": lambda: sm.set_own_label("renamed"),
            "query": lambda: sm.get_device_information(B),
            "own-query": lambda: sm.get_own_device_information(),
            "encrypt": lambda: sm.encrypt(frozenset({B, C}), text, None, "id"),
            "decrypt": lambda: sm.decrypt(self.message),
            "first": lambda: sm.decrypt(self.message),
            "first-queued": lambda: sm.decrypt(self.message),
            "unlisted": lambda: sm.decrypt(self.message),
            "replace": lambda: sm.replace_sessions(self.info),
            "chain": lambda: sm.get_sending_chain_length(self.info),
            "check": lambda: sm.ensure_data_consistency(),
            "sync": lambda: sm.after_history_sync(),
            "purge-jid": lambda: sm.purge_bare_jid(B),
            "purge-backend": lambda: sm.purge_backend("n2"),
            "purge-other": lambda: sm.purge_backend("n9"),
        }[op]())

    def state(self):
        w, node = self.w, self.node
        def name(k):
            return tuple("me" if x == node.device_id else x for x in k)
        kv = {k: sorted(v) if isinstance(v, list) else v for k, v in ((k, json.loads(v)) for k, v in node.disk.kv.items())
              if not k.startswith("/ikp")}
        if self.op == "start-first":
            kv = None       # see C10
        return {"data": kv, "lists": sorted((k, sorted((str(d) if d != node.device_id else "me", x) for d, x in v.items()))
                                            for k, v in w.lists.items() if v),
                "bundles": sorted(((name(k), k[1] != OWN or k[2] != node.device_id or k[0] not in node.disk.backends or
                                   b == node.bundle(k[0])) for k, b in w.bundles.items()), key=repr),
                "sessions": sorted((ns, k, s["role"], s["rik"]) for ns in node.disk.backends for k, s in node.sessions(ns).items())}


OPS = ("start-first", "start", "start-add", "start-remove", "list", "refresh", "own-list", "own-refresh", "trust", "label", "query",
       "own-query", "encrypt", "decrypt", "first", "first-queued", "unlisted", "replace", "chain", "check", "sync", "purge-jid",
       "purge-backend", "purge-other")
ONCE = ("decrypt", "first", "first-queued", "unlisted", "sync")     # not repeated here
_ref = {}


def undisturbed(op, cache):
    if (op, cache) not in _ref:
        w = World()
        try:
            s = Situation(w, cache, op)
            out = s.run()
            if out.kind != "ok":
                raise Violation(f"{op} without any failure: {out.exc!r}")
            _ref[op, cache] = s.state()
        finally:
            w.close()
    return _ref[op, cache]


def judge(s, out, hits):
    """One or two things went wrong during the call; how may it end?"""
    op = s.op
    where = [(o, how, type(e).__name__) for o, how, e, _ in hits]
    if any(how == "crash" for _, how, _, _ in hits):
        return
    if any(how.startswith("cancel") for _, how, _, _ in hits):
        if out.kind != "cancelled":
            raise Violation(f"{op}: {where}, but the call goes on and ends with {out.exc!r}")
        return
    tolerated, converted = [], ()
    for o, how, e, args in hits:
        if o == "dn_bundle":
            dev = (args["jid"], args["dev"])
            if dev not in {"encrypt": ((OWN, 5), (B, 2)), "replace": ((B, 1),)}.get(op, ()):
                tolerated.append(e)     # its identity key isn't known, or the own bundle is published again
                if op in ("first", "first-queued", "unlisted"):
                    converted += ("SenderNotFound",)
    if out.kind == "ok":
        told = []
        if op == "replace":
            told = list(out.value.values())
        elif op == "encrypt":
            told = [x.exception for x in out.value[1]]
        for _, _, e, _ in hits:
            if e not in told and e not in tolerated:
                raise Violation(f"{op} reports success although something went wrong: {where}")
        for e in told:
            if all(e is not x for _, _, x, _ in hits):
                raise Violation(f"{op} reports {e!r}, but {where} went wrong")
        if op == "query" and tolerated and any(d.device_id == 3 for d in out.value):
            raise Violation("a device without a known identity key is shown")
    elif not (out.kind == "exc" and (any(out.exc is e for _, _, e, _ in hits) or exc_name(out) in converted)):
        raise Violation(f"{op}: {where}, and the call fails with {out.exc!r}")


def calls(ops, budget, caches=(True, False)):
    def run(ch, ctx):
        op = ch.pick(ops, "call")
        cache = ch.pick(caches, "cache")
        want = undisturbed(op, cache)
        w = World(ch, ctx)
        try:
            s = Situation(w, cache, op)
            wrong = Wrong(w, s.node, budget)
            while True:
                n, wrong.task = len(wrong.hits), None
                out = s.run()
                hits = wrong.hits[n:]
                if not hits:
                    break
                judge(s, out, hits)
                ctx.outcome(f"{op}: {sorted({(o, how) for o, how, _, _ in hits})}")
                if out.kind == "crash" or ch.flag("restart"):
                    s.restart()
                if op in ONCE:
                    return
            if out.kind != "ok":
                raise Violation(f"{op} fails with {out.exc!r} when it is repeated" if wrong.hits else f"{op}: {out.exc!r}")
            w.fault = None
            if op == "encrypt":
                got = {(m.namespace, x) for m in out.value[0] for x in ekms(m)}
                if got != {("n1", (B, 1)), ("n2", (B, 2)), ("n1", (B, 3)), ("n1", (OWN, 5)), ("n1", (C, 1))}:
                    raise Violation(f"encrypt reaches only {sorted(got)} when it is repeated")
            got = s.state()
            for k in got:
                if got[k] != want[k]:
                    raise Violation(f"{op} repeated after {[(o, how) for o, how, _, _ in wrong.hits]} leaves {k}: {got[k]} instead of "
                                    f"{want[k]}")
        finally:
            w.close()
    return run


def scenarios(tier):
    if tier == "quick":
        return [("calls", calls(OPS, 1))]
    return [("calls", calls(OPS, 2))]
