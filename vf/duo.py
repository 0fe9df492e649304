"""Two devices that both run the library, and a network that may delay, reorder, repeat and lose."""
import copy

import omemo

from .env import Node, World, exc_name, FakeBackend
from .explore import Violation

_TEMPLATES = {}


def real_backend(which):
    def make(world, node, ns, storage, **kw):
        if which == "twomemo":
            import twomemo
            return twomemo.Twomemo(storage, **kw)
        import oldmemo
        return oldmemo.Oldmemo(storage, **kw)
    return make


KINDS = {"fake": ("n1", None), "twomemo": ("urn:xmpp:omemo:2", "twomemo"),
         "oldmemo": ("eu.siacs.conversations.axolotl", "oldmemo")}


class Duo:
    def __init__(self, w, kind="fake", cache=True):
        self.w, self.kind = w, kind
        self.ns, real = KINDS[kind]
        mk = real_backend(real) if real else FakeBackend
        if kind not in _TEMPLATES:
            _TEMPLATES[kind] = self.template(kind, mk)
        lists, bundles, disks, fresh, rand = copy.deepcopy(_TEMPLATES[kind])
        w.lists.update(lists)
        w.bundles.update(bundles)
        w._fresh, w.rand.n = fresh, rand
        self.nodes = {}
        for j in ("a@x", "a@x.b"):
            self.nodes[j] = Node(w, j, [self.ns], disk=disks[j], make_backend=mk, cache=cache).must_start()
        self.net = []        # dict(no, m, src, dst, text, done)
        self.live = {j: False for j in self.nodes}
        self.log = []
        self.taken = 0
        self.read = {j: set() for j in self.nodes}   # sids this node has read a message of
        self.current = {j: None for j in self.nodes}  # reference model: (sid, role) of the session in use
        self.spent = {j: set() for j in self.nodes}   # reference model: pre keys that are gone
        self.held = {j: set() for j in self.nodes}    # reference model: ... and those held back until live
        self.accepted = {j: set() for j in self.nodes}  # reference model: sessions built passively so far
        self.twice = set()   # reference model: sessions built passively twice, whose two ends differ from then on
        self.crossed = False

    @staticmethod
    def template(kind, mk):
        ns, _ = KINDS[kind]
        from .env import _W
        from . import boot
        outer, clock = _W[0], boot.reactor_proxy.__class__.current
        w = World()
        try:
            a, b = (Node(w, j, [ns], make_backend=mk).must_start() for j in ("a@x", "a@x.b"))
            for n, o in ((a, b), (b, a)):
                n.ok(n.sm.refresh_device_lists(o.jid))
                n.ok(n.sm.get_device_information(o.jid))
                n.ok(n.sm.set_trust(o.jid, o.ik, "TRUSTED"))
            return copy.deepcopy((w.lists, w.bundles, {j: n.disk for j, n in w.nodes.items()}, w._fresh, w.rand.n))
        finally:
            w.close()
            _W[0] = outer
            boot.reactor_proxy.__class__.current = clock
            boot.Rand.current = outer and outer.rand

    def other(self, j):
        return "a@x.b" if j == "a@x" else "a@x"

    def collect(self):
        """Automatic messages go on the wire."""
        for src, m, to in self.w.sent[self.taken:]:
            self.put(src, to, m, None)
        self.taken = len(self.w.sent)

    def put(self, src, dst, m, text):
        self.net.append({"no": len(self.net), "m": m, "src": src, "dst": dst, "text": text, "done": 0})
        for ekm, kex in m.keys:
            self.kex_rule(src, ekm, kex)
        return self.net[-1]

    def kex_rule(self, src, ekm, kex):
        if self.kind != "fake":
            return
        cur = self.current[src]
        if cur is None:
            self.current[src] = cur = (ekm.sid, "I")
        if cur != (ekm.sid, ekm.side):
            raise Violation(f"{src} uses session {ekm.sid} ({ekm.side}) instead of {cur}")
        if ekm.side == "R":
            if kex is not None:
                raise Violation(f"{src} attaches a key exchange to a message of a session it did not initiate")
        elif (kex is None) != (ekm.sid in self.read[src]):
            raise Violation(f"{src}: session {ekm.sid} is {'confirmed' if ekm.sid in self.read[src] else 'unconfirmed'}"
                            f", but the message {'lacks' if kex is None else 'carries'} the key exchange")

    def predict(self, f):
        """Reference model of one first delivery: can the receiver read it, given that a key exchange replaces the
        session in use? (None: not predicted)"""
        dst = f["dst"]
        (ekm, kex), = f["m"].keys
        cur = self.current[dst]
        if kex is None:
            can = cur is not None and cur[0] == ekm.sid
        elif cur == (ekm.sid, "R"):
            can = True
        elif kex.pk in self.spent[dst]:
            can = False
        else:
            can = True
            (self.spent if self.live[dst] else self.held)[dst].add(kex.pk)
            self.current[dst] = (ekm.sid, "R")
            if ekm.sid in self.accepted[dst]:
                self.twice.add(ekm.sid)
            self.accepted[dst].add(ekm.sid)
        return None if ekm.sid in self.twice else can

    # -- operations
    def ops(self, repeats=1, restarts=1, syncs=1, renewals=0):
        out = [("send", "a@x")]
        if self.net:
            out.append(("send", "a@x.b"))
        for f in self.net:
            if not f["done"]:
                out.append(("deliver", f["no"]))
        if repeats > 0:
            out += [("repeat", f["no"]) for f in self.net if f["done"] == 1]
        for j in self.nodes:
            if syncs > 0:
                out.append(("catch-up" if self.live[j] else "live", j))
            if restarts > 0 and self.net:
                out.append(("restart", j))
            if renewals > 0 and self.net:
                out.append(("replace", j))
        return out

    def do(self, op, arg):
        if op == "send":
            node, dst = self.nodes[arg], self.other(arg)
            text = f"message {len(self.net)}".encode()
            out = node.call(node.sm.encrypt(frozenset({dst}), {self.ns: text}))
            if out.kind != "ok" or len(out.value[0]) != 1 or out.value[1]:
                raise Violation(f"{arg} cannot encrypt: {out}")
            (m,) = out.value[0]
            f = self.put(arg, dst, m, text)
            self.log.append(("sent", sorted(k is not None for _, k in m.keys)))
        elif op in ("deliver", "repeat"):
            f = self.net[arg]
            node = self.nodes[f["dst"]]
            first = f["done"] == 0
            f["done"] += 1
            n = len(self.w.sent)
            want = not first or self.kind != "fake" or self.predict(f)
            out = node.call(node.sm.decrypt(f["m"]))
            right = out.kind == "ok" and out.value[0] == f["text"]
            self.log.append((exc_name(out), right, len(self.w.sent) - n))
            if first and self.kind == "fake":
                if not want:
                    # Both sides initiated and each replaced its session by the other's.
                    self.crossed = True
                elif out.kind != "ok":
                    raise Violation(f"message {arg} of {f['src']} does not decrypt at {f['dst']}: {out.exc!r}")
            if out.kind == "ok":
                if not first:
                    raise Violation(f"message {arg} was accepted a second time")
                if not right:
                    raise Violation(f"message {arg} decrypts to {out.value[0]!r} instead of {f['text']!r}")
                d = out.value[1]
                src = self.nodes[f["src"]]
                if (d.bare_jid, d.device_id, d.identity_key) != (f["src"], src.device_id, src.ik):
                    raise Violation(f"message {arg} is attributed to {d}")
                if self.kind == "fake":
                    self.read[f["dst"]].update(k.sid for k, _ in f["m"].keys)
        elif op == "restart":
            self.nodes[arg].must_start()
            self.live[arg] = False
        elif op == "live":
            n = len(self.w.sent)
            self.nodes[arg].ok(self.nodes[arg].sm.after_history_sync(), "after_history_sync")
            self.live[arg] = True
            self.spent[arg] |= self.held[arg]
            self.log.append(("live", len(self.w.sent) - n))
        elif op == "replace":
            # The application replaces the session by a new one and notifies the other side.
            node, n = self.nodes[arg], len(self.w.sent)
            peer = next(d for d in node.ok(node.sm.get_device_information(self.other(arg))))
            errors = node.ok(node.sm.replace_sessions(peer), "replace_sessions")
            new = self.w.sent[n:]
            self.log.append(("replace", len(errors), len(new)))
            if self.kind == "fake":
                if errors or len(new) != (self.current[arg] is not None):
                    raise Violation(f"{arg} replaces its session: {errors}, {len(new)} notifications")
                for _, m, _ in new:
                    ((ekm, _),) = m.keys
                    self.current[arg] = (ekm.sid, "I")
        elif op == "catch-up":
            self.nodes[arg].sm.before_history_sync()
            self.live[arg] = False
        self.collect()
