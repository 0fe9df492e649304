"""C09: this device stays in its published device lists with its label."""
from ..env import Node, Peer, scenario, ik_of, exc_name, Faults, DeviceListUploadFailed, DeviceListDownloadFailed, LONG_LABEL
from ..enc import OWN
from ..explore import Violation
from .c08 import Model

PROP = "C09"
BOUNDS = {
    "quick": "every sequence of 3 operations out of: own-account list of every shape (this device missing, listed with "
             "no, an empty, the same or another label; another device listed or not) pushed or refreshed in either namespace, lists "
             "of another account (also with this device's id), label changes, restart; with at most one list upload or "
             "download failing (before or after the fact) in every position of sequences of 2",
    "thorough": "4 operations without and 3 with failures, two failures in 2"
}
ASSUMPTIONS = ["a device list push carries the list that is online"]


class Own:
    def __init__(self, w, node):
        self.w, self.node, self.me = w, node, node.device_id
        self.model = Model()
        for ns in node.namespaces:
            self.model.update(ns, OWN, {self.me: node.label})
        self.mark = len(w.log)

    @property
    def label(self):
        return self.model.dev[OWN][self.me][1]

    def uploads(self):
        out = [(e[2], e[3]) for e in self.w.log[self.mark:] if e[0] == "up_list"]
        self.mark = len(self.w.log)
        return out

    def check(self, what):
        rec = self.model.dev[OWN]
        info = {d.device_id: d for d in self.node.ok(self.node.sm.get_device_information(OWN))}
        if set(info) != set(rec):
            raise Violation(f"{what}: own devices {sorted(info)} instead of {sorted(rec)}")
        for dev, (active, label, _) in rec.items():
            if dict(info[dev].active) != active or set(info[dev].namespaces) != set(active):
                raise Violation(f"{what}: device {'(this)' if dev == self.me else dev} is active {sorted(info[dev].active)} "
                                f"instead of {sorted(active.items())}")
            if info[dev].label != label:
                raise Violation(f"{what}: label of {'this device' if dev == self.me else dev} is {info[dev].label!r} "
                                f"instead of {label!r}")
        mine, others = self.node.ok(self.node.sm.get_own_device_information())
        if mine.device_id != self.me or {d.device_id for d in others} != set(rec) - {self.me}:
            raise Violation(f"{what}: own device information reports {mine.device_id} as this device")


def run_op(w, ch, own, op, mode):
    """One operation and everything it must and must not publish. Returns the outcome."""
    node, me = own.node, own.me
    if op[0] == "list":
        ns, shape = op[1:]
        lst = {}
        for k, l in shape.items():
            lst[me if k == "me" else k] = own.label if l == "same" else l
        w.lists[(ns, OWN)] = dict(lst)
        given = dict(lst)
        out = node.call(node.sm.refresh_device_list(ns, OWN) if mode == "refresh" else
                        node.sm.update_device_list(ns, OWN, given))
        if mode != "refresh" and given != lst:
            raise Violation("the caller's device list was modified")
        want = [] if me in lst else [(ns, {**lst, me: own.label})]
        return out, want, lambda: own.model.update(ns, OWN, {**lst, me: own.label} if me not in lst else lst)
    if op[0] == "label":
        new = op[1]
        out = node.call(node.sm.set_own_label(new))
        want = [(ns, {**w.before[(ns, OWN)], me: new}) for ns in node.namespaces]

        def f():
            own.model.dev[OWN][me][1] = new
        return out, want, f
    if op[0] == "other":
        lst = {me: "z"} if op[1] else {}
        w.lists[("n1", "a@x.b")] = dict(lst)
        out = node.call(node.sm.refresh_device_list("n1", "a@x.b"))
        return out, [], lambda: None
    if op[0] == "all":
        out = node.call(node.sm.refresh_device_lists(OWN))
        lists = {ns: dict(w.before.get((ns, OWN), {})) for ns in node.namespaces}
        want, label = [], own.label
        updates = []
        for ns in node.namespaces:
            if me in lists[ns]:
                updates.append((ns, lists[ns]))
                label = lists[ns][me] if lists[ns][me] is not None else label
            else:
                want.append((ns, {**lists[ns], me: label}))
                updates.append(want[-1])

        def f():
            for ns, lst in updates:
                own.model.update(ns, OWN, lst)
        return out, want, f
    if op[0] == "drift":
        # Somebody changes the list, and this device is not told.
        w.lists[("n1", OWN)] = dict(op[1])
        return node.call(node.sm.get_device_information(OWN)), [], lambda: None
    if op[0] == "restart":
        return node.start(), [], lambda: None
    raise AssertionError(op)


SHAPES = [{}, {"me": None}, {"me": "same"}, {"me": "old"}, {"me": ""}, {5: "o"}, {5: None, "me": None}, {5: "o", "me": "same"}]


def history(depth, budget, nss=("n1", "n2")):
    @scenario
    def run(w, ch, ctx):
        node = Node(w, OWN, list(nss), label=ch.pick(("me", None), "initial label"))
        node.must_start()
        node.maybe_live(ch)
        for ns in nss:
            if w.lists.get((ns, OWN)) != {node.device_id: node.label}:
                raise Violation(f"setup published {w.lists.get((ns, OWN))}")
        Peer(w, OWN, 5, ik_of(5), nss).publish(listed=False)
        node.ok(node.sm.get_device_information(OWN))
        own = Own(w, node)
        mode = ch.pick(("push", "refresh"), "mode")
        ops = [("list", ns, s) for ns in nss for s in SHAPES] + [
            ("label", None), ("label", LONG_LABEL), ("label", ""), ("other", True), ("other", False), ("all",), ("restart",),
            ("drift", {}), ("drift", {5: "p"})]
        faults = Faults(w, node, budget, ("fail", "late"), only=lambda op, a, wr: op in ("dn_list", "up_list"))
        for i in range(depth):
            op = ch.pick(ops, f"op {i}")
            w.before = {k: dict(v) for k, v in w.lists.items()}
            own.uploads()
            hits = len(faults.hits)
            out, want, then = run_op(w, ch, own, op, mode)
            got = own.uploads()
            if len(faults.hits) == hits:
                if out.kind != "ok":
                    raise Violation(f"{op} failed without any fault: {out.exc!r}")
                # publishing what is online anyway is neither required nor wrong
                online = [(ns, l) for (ns, jid), l in w.before.items() if jid == OWN]
                if sorted(map(repr, (g for g in got if g not in online))) != \
                        sorted(map(repr, (x for x in want if x not in online))) or \
                        any(g not in want for g in got) or len(got) > len(want):
                    raise Violation(f"{op} published {got} instead of {want}")
                then()
                own.check(op)
                ctx.outcome(f"{op[0]} published {len(got)}")
            else:
                # The failure reaches the caller; nothing wrong was published; the same call repairs it.
                if out.kind == "ok" or not isinstance(out.exc, (DeviceListUploadFailed, DeviceListDownloadFailed)):
                    raise Violation(f"{op}: a failed {faults.hits[-1]} was reported as {out}")
                for g in got:
                    if g not in want:
                        raise Violation(f"{op} published {g}, which is not in {want}")
                ctx.outcome(f"{op[0]} {exc_name(out)}")
                faults_left, faults.budget = faults.budget, 0
                # what is online now counts from here on
                for _ in range(2):
                    if op[0] in ("label", "other", "restart"):
                        w.before = {k: dict(v) for k, v in w.lists.items()}
                        own.uploads()
                        out, want, then = run_op(w, ch, own, op, mode)
                        if out.kind != "ok":
                            raise Violation(f"repeating {op} failed: {out.exc!r}")
                    if op[0] != "label":
                        out = node.call(node.sm.refresh_device_lists(OWN))
                        if out.kind != "ok":
                            raise Violation(f"refresh after a failure failed: {out.exc!r}")
                for ns in nss:
                    lst = w.lists[(ns, OWN)]
                    if own.me not in lst:
                        raise Violation(f"this device is still missing from the list of {ns} after a refresh")
                    lost = {k: v for k, v in w.before[(ns, OWN)].items() if k != own.me and lst.get(k, 0) != v}
                    if op[0] != "list" and lost:
                        raise Violation(f"{op}: entries {lost} were lost from {ns}")
                    if op[0] == "label" and lst[own.me] != op[1]:
                        raise Violation(f"repeating {op} left label {lst[own.me]!r} published")
                return
        faults.stop()
    return run


def scenarios(tier):
    if tier == "quick":
        return [("sequences", history(3, 0)), ("three-backends", history(2, 0, ("n1", "n2", "n3"))), ("failures", history(2, 1))]
    return [("sequences", history(3, 0)), ("three-backends", history(2, 1, ("n1", "n2", "n3"))), ("failures", history(3, 1)), ("deep", history(4, 0, ("n1",)))]
