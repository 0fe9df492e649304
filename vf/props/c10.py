"""C10: setup publishes everything or can be resumed, never a half-made device."""
from ..env import Node, Peer, scenario, ik_of, exc_name, Faults
from ..enc import OWN
from ..explore import Violation

PROP = "C10"
BOUNDS = {
    "quick": "every setup transition (first run with one to three backends, backends added, removed, exchanged, re-added) with "
             "a failure, a failure after the fact or a crash at every interaction with storage, server and backend; setup "
             "repeated until it succeeds; with and without other own devices online and a label",
    "thorough": "the same with any two interruptions, and three for the first run"
}
ASSUMPTIONS = ["a backend method is atomic"]

MOVES = {
    "first run, one backend": [("n1",)], "first run, two backends": [("n1", "n2")],
    "added": [("n1",), ("n1", "n2")], "removed": [("n1", "n2"), ("n1",)], "exchanged": [("n1",), ("n2",)],
    "rotated": [("n1", "n2"), ("n2", "n3")], "re-added": [("n1", "n2"), ("n1",), ("n2", "n1")],
    "first run, three backends": [("n1", "n2", "n3")], "two added": [("n2",), ("n1", "n2", "n3")],
    "two removed": [("n1", "n2", "n3"), ("n3",)], "two exchanged": [("n1",), ("n2", "n3")],
    "unchanged": [("n1", "n2"), ("n1", "n2")], "interrupted first run, then another backend": [("n1",), ("n1", "n2")],
}


def setup(budget, moves, kinds=("fail", "late", "crash"), others=(False, True)):
    @scenario
    def run(w, ch, ctx):
        move = ch.pick(moves, "transition")
        steps = MOVES[move]
        theirs = {}
        if ch.pick(others, "other own device online"):
            Peer(w, OWN, 5, ik_of(5), ("n1", "n2", "n3")).publish()
            theirs = {5: None}
            for ns in ("n1", "n2", "n3"):
                w.lists[(ns, OWN)] = {5: "o"}
            theirs = {5: "o"}
        label = ch.pick(("me", None, ""), "label")
        node = Node(w, OWN, list(steps[0]), label=label)

        def watch(n, op, args, result):
            if op not in ("up_list", "up_bundle", "del_bundle"):
                return
            for ns in ("n1", "n2", "n3"):
                lst = w.lists.get((ns, OWN), {})
                for dev in lst:
                    if (ns, OWN, dev) not in w.bundles:
                        w.flag(f"device {dev} is listed in {ns} while its bundle is not online (after {op})")
                if {k: v for k, v in lst.items() if k in theirs} != theirs:
                    w.flag(f"entries of other devices were lost from the list of {ns}: {lst}")
        w.after = watch
        faulty = len(steps) - 1
        early = move.startswith("interrupted")
        for i, namespaces in enumerate(steps):
            first = early and i == 0
            faults = Faults(w, node, budget, kinds) if i == faulty or first else None
            tries = 0
            while True:
                tries += 1
                hits = len(faults.hits) if faults else 0
                out = node.start(list(namespaces))
                if out.kind == "ok":
                    break
                if faults is None or len(faults.hits) == hits:
                    raise Violation(f"setup fails without any fault, attempt {tries}: {out.exc!r}")
                node.kill()
                if first:
                    break   # never finished; the next start has another backend
            if faults:
                faults.stop()
                ctx.outcome(f"{move}: {[h[1] for h in faults.hits]}")
            if first and out.kind != "ok":
                continue
            check(w, node, namespaces, label, theirs)
            if (faults is None or not faults.hits) and not early:
                left = [ns for ns in ("n1", "n2", "n3") if ns not in namespaces and (ns, OWN, node.device_id) in w.bundles]
                if left:
                    raise Violation(f"the bundles of the removed backends {left} are still online")
        # A restart finds nothing to do.
        n = len(w.log)
        node.must_start(list(steps[-1]))
        if len(w.log) != n:
            raise Violation(f"a restart after a completed setup publishes again: {w.log[n:]}")
        check(w, node, steps[-1], label, theirs)
    return run


def check(w, node, namespaces, label, theirs):
    me = node.device_id
    for ns in ("n1", "n2", "n3"):
        lst = w.lists.get((ns, OWN), {})
        if ns in namespaces:
            if lst != {**theirs, me: label}:
                raise Violation(f"the list of {ns} is {lst} after setup, this device is {me}, label {label!r}")
            b = w.bundles.get((ns, OWN, me))
            if b is None or b != node.bundle(ns):
                raise Violation(f"the bundle of {ns} is not published after setup")
            if len(b.pks) != 100:
                raise Violation(f"{len(b.pks)} pre keys offered in {ns} after setup")
        elif lst != theirs:
            raise Violation(f"the list of {ns} is {lst} after setup, but {ns} is not in use")
    info, _ = node.ok(node.sm.get_own_device_information())
    if set(info.namespaces) != set(namespaces) or dict(info.active) != {ns: True for ns in namespaces}:
        raise Violation(f"own device is recorded for {sorted(info.namespaces)}, active {sorted(info.active)}")
    if info.label != label or info.device_id != me or info.identity_key != node.ik:
        raise Violation(f"own device information is {info}")


def scenarios(tier):
    one = [("one-interruption", setup(1, sorted(MOVES)))]
    if tier == "quick":
        return one + [("two-crashes", setup(2, ("first run, one backend", "added"), ("crash",), (True,)))]
    return one + [("two-interruptions", setup(2, sorted(MOVES), others=(True,))),
                  ("three-first-run", setup(3, ("first run, one backend",), others=(True,)))]
