"""C18: configuration limits are enforced exactly as documented."""
import itertools

import omemo

from ..env import Node, FakeBackend, NodeStorage, Peer, scenario, ik_of
from ..enc import OWN
from ..explore import Violation

PROP = "C18"
BOUNDS = {
    "quick": "per-session limits 0 to 20 and 1000 with per-message limits unset and -2 to two above, by position and by name, "
             "with the stand-in backend and both real ones; thresholds -2 to 130 and all backend lists of up to 3 out of 3 "
             "namespaces, on fresh and on existing storage, followed by a valid setup; every "
             "combination of settings left out, with signed pre keys around a week old and two key exchanges",
    "thorough": "per-session limits 0 to 300, backend lists of up to 4 out of 4 namespaces combined with every threshold in "
                "and around the range"
}
ASSUMPTIONS = ["negative per-session limits are outside of the claim"]


def real_classes():
    out = []
    for name in ("twomemo", "oldmemo"):
        try:
            mod = __import__(name)
            out.append(getattr(mod, name.capitalize()))
        except ImportError:
            pass
    return out


def limits(top, bottom=0):
    @scenario
    def run(w, ch, ctx):
        s = ch.pick(list(range(bottom, top + 1)) + ([1000] if bottom == 0 else []), "per session")
        m = ch.pick([None] + list(range(-2, s + 3)) if s < 1000 else [None, -1, 0, 1, 2, 500, 999, 1000, 1001], "per message")
        node = Node(w, OWN)
        node.token = object()
        storage = NodeStorage(w, node)
        fine = m is None or (m == 0 and s == 0) or 1 <= m <= s
        for make in [lambda *a, **k: FakeBackend(w, node, "n1", storage, **dict(
                zip(("max_num_per_session_skipped_keys", "max_num_per_message_skipped_keys"), a), **k))] + [
                (lambda cls: lambda *a, **k: cls(storage, *a, **k))(cls) for cls in real_classes()]:
            for kw in ({"max_num_per_session_skipped_keys": s, "max_num_per_message_skipped_keys": m}, None,
                       {"max_num_per_session_skipped_keys": s} if m is None else None):
                try:
                    b = make(s, m) if kw is None else make(**kw)
                except ValueError as e:
                    if fine:
                        raise Violation(f"per-session limit {s} with per-message limit {m} is rejected: {e}")
                    continue
                if not fine:
                    raise Violation(f"per-session limit {s} with per-message limit {m} is accepted")
                got = (b.max_num_per_session_skipped_keys, b.max_num_per_message_skipped_keys)
                if got != (s, s if m is None else m):
                    raise Violation(f"limits {s}, {m} are reported as {got}")
            d = make()
            if (d.max_num_per_session_skipped_keys, d.max_num_per_message_skipped_keys) != (1000, 1000):
                raise Violation("the default limits are not 1000")
        ctx.state((s, m))
        ctx.step(1)
        ctx.outcome("accepted" if fine else "rejected")
    return run


def setup(thresholds, backend_lists):
    @scenario
    def run(w, ch, ctx):
        t = ch.pick(thresholds, "threshold")
        nss = ch.pick(backend_lists, "backends")
        existing = ch.flag("existing data")
        node = Node(w, OWN, ["n1"])
        if existing:
            node.must_start()
            node.kill()
        p = Peer(w, OWN, 5, ik_of(5), ("n1", "n2")).publish()
        kv, lists, bundles, log, be = (dict(node.disk.kv), repr(sorted(w.lists.items())), dict(w.bundles), len(w.log),
                                       repr(node.disk.backends))
        node.threshold = t
        out = node.start(list(nss))
        fine = 25 <= t <= 99 and len(set(nss)) == len(nss)
        ctx.outcome("accepted" if fine else "rejected")
        if not fine:
            if out.kind == "ok":
                raise Violation(f"setup with threshold {t} and backends {nss} is accepted")
            if not isinstance(out.exc, ValueError):
                raise Violation(f"threshold {t}, backends {nss}: {out.exc!r} instead of a value error")
            if (dict(node.disk.kv), repr(sorted(w.lists.items())), dict(w.bundles), len(w.log),
                    repr(node.disk.backends)) != (kv, lists, bundles, log, be):
                raise Violation(f"a rejected setup (threshold {t}, backends {nss}) stored or published something")
            node.threshold = 99
            out = node.start(["n1"])
            nss = ["n1"]
        if out.kind != "ok":
            raise Violation(f"setup with threshold {node.threshold} and backends {nss} failed: {out.exc!r}")
        for ns in set(nss):
            if node.device_id not in w.lists.get((ns, OWN), {}) or w.bundles.get((ns, OWN, node.device_id)) != node.bundle(ns):
                raise Violation(f"{ns} is not published after setup")
    return run


WEEK = 7 * 24 * 3600


def defaults():
    """Settings that are left out: asyncio, a rotation once a week, and a refill after every pre key."""
    @scenario
    def run(w, ch, ctx):
        out = ch.pick([c for n in (1, 2, 3) for c in itertools.combinations(("period", "threshold", "framework"), n)], "left out")
        node = Node(w, OWN, ["n1", "n2"]).must_start()
        node.kill()
        age = ch.pick((0, WEEK - 1, WEEK + 1, 2 * WEEK), "age of n2")
        node.disk.backends["n2"]["spk_t"] = w.now() - age
        before = node.disk.backends["n2"]["spk"]
        for x in out:
            setattr(node, x, None)
        if "period" not in out:
            node.period = ch.pick((WEEK // 2, 2 * WEEK), "period")
        if "threshold" not in out:
            node.threshold = ch.pick((25, 98), "threshold")
        node.must_start()
        w.spin()
        if (node.disk.backends["n2"]["spk"] != before) != (age > (node.period or WEEK)):
            raise Violation(f"{out} left out: signed pre key of age {age} rotated: {age <= (node.period or WEEK)}")
        node.ok(node.sm.after_history_sync())
        for n in range(2):
            p = Peer(w, "a@x.b", 1 + n, ik_of(1 + n), ("n1",)).publish()
            node.ok(node.sm.refresh_device_lists("a@x.b"))
            node.ok(node.sm.decrypt(p.message("n1", OWN, node.device_id, b"hi")))
            want = 99 - n if node.threshold else 100
            if node.threshold == 98 and n == 1:
                want = 100
            if len(node.disk.backends["n1"]["vis"]) != want:
                raise Violation(f"{out} left out: {len(node.disk.backends['n1']['vis'])} pre keys after {n + 1} key exchanges "
                                f"instead of {want}")
        ctx.outcome(f"{len(out)} left out")
    return run


def lists_of(names, top):
    return [c for n in range(0, top + 1) for c in itertools.product(names, repeat=n)]


EDGES = (-1, 0, 1, 24, 25, 26, 60, 98, 99, 100, 101)


def scenarios(tier):
    if tier == "quick":
        return [("limits", limits(20)), ("thresholds", setup(list(range(-2, 131)), [("n1", "n2")])),
                ("defaults", defaults()),
                ("backends", setup((24, 25, 99, 100), lists_of(("n1", "n2", "n3"), 3)))]
    return [("limits", limits(300)), ("thresholds", setup(list(range(-2, 1001)), [("n1", "n2")])),
            ("defaults", defaults()),
            ("backends", setup(EDGES, lists_of(("n1", "n2", "n3", "n4"), 4)))]
