"""C27: the devices of one account, all running the library, keep each other listed and can all be reached."""
from ..env import Node, UnknownNamespace, scenario, ekms
from ..explore import Violation

PROP = "C27"
BOUNDS = {
    "quick": "two devices of one account (a third joins) and a contact, all running the library, in one or two namespaces: two (3 "
             "preemptions at the accesses to the lists) or three (1) set up at the same time; settled and followed by every "
             "sequence of 2 operations out of: label changes, the list wiped or cut by a foreign client, restarts, refreshes, a third "
             "device, a purged backend, two of these overlapping, delivery of a push; pushes arrive in order but arbitrarily late, "
             "in every order of the receivers; pushes of a device's own changes that arrive while it makes them (3 preemptions)",
    "thorough": "3 operations, more preemptions"
}
ASSUMPTIONS = ["each device receives the pushes of the lists in the order of publication, and the latest ones when it comes online",
               "labels are compared with what is online where overlapping changes of the same list can undo each other",
               "a backend is not purged while another device believes itself unlisted, and a device does not receive pushes for a "
               "backend while it purges it (documented)",
               "a list is wiped completely only with two devices"]
A, B = "a@x", "a@x.b"


class Account:
    def __init__(self, w, nss):
        self.w, self.nss = w, list(nss)
        self.nodes = {}
        self.queues = {}
        self.ids = {}
        self.purged = set()     # (name, ns)
        self.labels = {}        # name -> label, as long as nothing can have undone it
        self.uploads = 0
        self.wiped = False
        self.echo = False       # a device receives the pushes of its own changes while it makes them
        w.after = self.after

    def after(self, node, op, args, result):
        if op == "up_list":
            self.uploads += 1
            if self.uploads > 60:
                raise Violation("the devices do not stop publishing lists")
            self.publish(args["ns"], node.jid)

            if self.echo:
                for name, n in self.nodes.items():
                    while n is node and n.sm is not None and self.queues[name]:
                        self.w.spawn(n, self.receive(name, *self.queues[name].pop(0)))

    async def receive(self, name, ns, jid, lst):
        try:
            await self.nodes[name].sm.update_device_list(ns, jid, dict(lst))
        except UnknownNamespace:
            if (name, ns) not in self.purged:
                raise Violation(f"{name} does not know {ns}")
        except Exception as e:
            raise Violation(f"push of {lst} to {name}: {e!r}")

    def publish(self, ns, jid):
        for q in self.queues.values():
            q.append((ns, jid, dict(self.w.lists[(ns, jid)])))

    def add(self, name, jid):
        n = self.nodes[name] = Node(self.w, jid, self.nss, label=name, undecided="BLINDLY", name=name)
        self.queues[name] = [(ns, j, dict(l)) for (ns, j), l in sorted(self.w.lists.items())]
        if jid == A:
            self.labels[name] = name
        return n

    def started(self, name, out=None):
        self.ids[name] = self.nodes[name].device_id
        if len(set(self.ids.values())) != len(self.ids):
            raise Violation(f"device ids {self.ids}")

    def own(self):
        return [n for n in self.nodes if self.nodes[n].jid == A]

    def deliver(self, name):
        ns, jid, lst = self.queues[name].pop(0)
        node = self.nodes[name]
        if ns in [b.namespace for b in node.backends] and (name, ns) not in self.purged:
            node.ok(node.sm.update_device_list(ns, jid, dict(lst)), f"push of {lst} to {name}")

    def state(self):
        return (sorted(self.w.lists.items()), sorted(self.queues.items()), sorted(self.purged), sorted(self.labels.items()),
                [(n, sorted(node.disk.kv.items())) for n, node in sorted(self.nodes.items())],
                sorted((k, repr(v)) for k, v in self.w.bundles.items()))

    def drain(self, ch, ctx):
        while True:
            ctx.prune(ch, self.state(), 0)
            waiting = [n for n in self.own() if self.queues[n]]
            if not waiting:
                break
            # a push that concerns nothing but its receiver commutes with everything the others do
            quiet = [n for n in waiting if self.harmless(n, 1)]
            self.deliver(quiet[0] if quiet else ch.pick(waiting, "receiver"))
        for n in self.nodes:
            while self.queues[n]:
                self.deliver(n)

    def harmless(self, n, first=None):
        """The receiver will not publish anything because of (the first of) the pushes on their way."""
        return all(jid != A or self.ids[n] in lst or (n, ns) in self.purged for ns, jid, lst in self.queues[n][:first])

    def check(self):
        w = self.w
        labels = {}
        for ns in self.nss:
            want = {self.ids[n] for n in self.own() if (n, ns) not in self.purged}
            lst = w.lists.get((ns, A), {})
            if set(lst) != want:
                raise Violation(f"list of {ns}: {lst}; devices {self.ids}, purged {sorted(self.purged)}")
            for d, l in lst.items():
                labels.setdefault(d, set()).add(l)
            for n in self.own():
                if (n, ns) not in self.purged and w.bundles.get((ns, A, self.ids[n])) != self.nodes[n].bundle(ns):
                    raise Violation(f"bundle of {n} in {ns}: {w.bundles.get((ns, A, self.ids[n]))}")
                if (n, ns) in self.purged and (ns, A, self.ids[n]) in w.bundles:
                    raise Violation(f"the purged bundle of {n} in {ns} is online")
        for name, node in self.nodes.items():
            info = {d.device_id: d for d in node.ok(node.sm.get_device_information(A), "device information")}
            for n in self.own():
                here = [ns for ns in self.nss if (n, ns) not in self.purged and
                        ((name, ns) not in self.purged or n == name)]
                d = info.get(self.ids[n])
                if d is None or not here:
                    if here:
                        raise Violation(f"{name} does not know {n}")
                    continue
                if d.identity_key != self.nodes[n].ik:
                    raise Violation(f"{name} has another identity key of {n}")
                active = {ns for ns, a in dict(d.active).items() if a and (name, ns) not in self.purged}
                if active != set(here):
                    raise Violation(f"{name} sees {n} active in {sorted(active)} instead of {here}")
                if d.label not in labels[self.ids[n]] and not self.purged:
                    raise Violation(f"{name} sees {n} with label {d.label!r}, online is {labels[self.ids[n]]}")
                if n in self.labels and {self.labels[n]} != labels[self.ids[n]]:
                    raise Violation(f"label of {n} online: {labels[self.ids[n]]}, set was {self.labels[n]!r}")

    def talk(self):
        """Every device reaches every other one in every namespace they share."""
        for name, node in self.nodes.items():
            for ns in self.nss:
                if (name, ns) in self.purged:
                    continue
                to = [n for n in self.nodes if n != name and (n, ns) not in self.purged]
                if not any(self.nodes[n].jid != A for n in to) and node.jid == A or not to:
                    continue
                text = f"{name} in {ns}".encode()
                target = B if node.jid == A else A
                messages, errors = node.ok(node.sm.encrypt(frozenset({target}), {ns: text}, [ns]), f"encryption by {name}")
                (m,) = messages
                if errors or set(ekms(m)) != {(self.nodes[n].jid, self.ids[n]) for n in to}:
                    raise Violation(f"{name} encrypts in {ns} for {sorted(ekms(m))} instead of {to}: {errors}")
                for n in to:
                    other = self.nodes[n]
                    got, d, _ = other.ok(other.sm.decrypt(m), f"decryption by {n} of a message by {name}")
                    if got != text or (d.bare_jid, d.device_id, d.identity_key) != (node.jid, self.ids[name], node.ik):
                        raise Violation(f"{n} reads {got!r} of {d}")


SHARED = ("dn_list", "up_list")     # what devices of one account share


def overlap(acc, calls, bound):
    acc.w.points = SHARED
    try:
        return acc.w.together([(acc.nodes[n], c) for n, c in calls], bound)
    finally:
        acc.w.points = None


def need_ok(outs, what):
    for o in outs:
        if o.kind != "ok":
            raise Violation(f"{what} failed without any fault: {o.exc!r}")


def setups(namespaces, bound, three=(False,)):
    """All devices of the account are set up at the same time."""
    @scenario
    def run(w, ch, ctx):
        acc = Account(w, ch.pick(namespaces, "namespaces"))
        names = ["one", "two"] + (["three"] if ch.pick(three, "three") else [])
        acc.add("contact", B).must_start()
        acc.started("contact")
        nodes = [acc.add(n, A) for n in names]
        outs = overlap(acc, [(n, node.creation()) for n, node in zip(names, nodes)], bound)
        need_ok(outs, "setup")
        for n, node, o in zip(names, nodes, outs):
            node.sm = o.value
            acc.started(n)
        acc.labels.clear()  # lists that overwrite each other are restored from the label each device knows of itself
        acc.drain(ch, ctx)
        acc.check()
        acc.talk()
        ctx.outcome(f"{acc.uploads} uploads")
    return run


def settled(w, nss):
    acc = Account(w, nss)
    for n, jid in (("one", A), ("two", A), ("contact", B)):
        acc.add(n, jid).must_start()
        acc.started(n)
    while any(acc.queues.values()):
        for n in acc.nodes:
            while acc.queues[n]:
                acc.deliver(n)
    return acc


def operation(acc, ch, op, bound):
    w, nodes = acc.w, acc.nodes
    kind, n = op[0], op[1] if len(op) > 1 else None
    if kind == "label":
        nodes[n].ok(nodes[n].sm.set_own_label(n + "'"), "label change")
        if n in acc.labels:
            acc.labels[n] = n + "'"
    elif kind == "foreign":
        # a careless client replaces the list
        ns = acc.nss[-1]
        lst = w.lists.get((ns, A), {})
        w.lists[(ns, A)] = {d: l for d, l in lst.items() if n == "one" and d == acc.ids["one"]}
        acc.wiped |= n == "nobody"
        acc.publish(ns, A)
        acc.labels.clear()
    elif kind == "offline":
        # something happens while this device is offline; it learns of the latest lists only
        nodes[n].kill()
        operation(acc, ch, op[2:], bound)
        nodes[n].must_start([ns for ns in acc.nss if (n, ns) not in acc.purged])
        acc.queues[n] = [(ns, j, dict(l)) for (ns, j), l in sorted(w.lists.items())]
    elif kind == "restart":
        nodes[n].must_start([ns for ns in acc.nss if (n, ns) not in acc.purged])
        acc.queues[n] = [(ns, j, dict(l)) for (ns, j), l in sorted(w.lists.items())]
    elif kind == "refresh":
        nodes[n].ok(nodes[n].sm.refresh_device_lists(A), "refresh")
    elif kind == "join":
        acc.add("three", A).must_start()
        acc.started("three")
    elif kind == "purge":
        nodes[n].ok(nodes[n].sm.purge_backend(acc.nss[-1]), "purge")
        acc.purged.add((n, acc.nss[-1]))
    elif kind == "gone":
        operation(acc, ch, ("purge", n), bound)
        operation(acc, ch, ("foreign", "nobody"), bound)
    elif kind == "push":
        acc.deliver(n)
    elif kind == "both":
        names = ("one", "two")
        coros = {"label": lambda x: nodes[x].sm.set_own_label(x + "'"), "refresh": lambda x: nodes[x].sm.refresh_device_lists(A),
                 "check": lambda x: nodes[x].sm.ensure_data_consistency()}
        need_ok(overlap(acc, [(x, coros[k](x)) for x, k in zip(names, op[1:])], bound), f"{op}")
        acc.labels.clear()
    else:
        raise AssertionError(op)


def options(acc):
    out = [("label", "one"), ("label", "two"), ("foreign", "one"), ("foreign", "nobody"), ("restart", "one"), ("restart", "two"),
           ("refresh", "one"), ("both", "label", "label"), ("both", "label", "refresh"), ("both", "label", "check"),
           ("both", "check", "refresh")]
    out += [("offline", "one", "foreign", "nobody"), ("offline", "one", "label", "two")]
    if "three" not in acc.nodes and not acc.wiped:
        out.append(("join",))
    if "three" in acc.nodes:
        out = [o for o in out if o[-1] != "nobody"]   # see BOUNDS
    out += [("push", n) for n in acc.own() if acc.queues[n]]
    if len(acc.nss) > 1 and not acc.purged and all(acc.harmless(n) for n in acc.own()) and \
            all(acc.ids[n] in acc.w.lists.get((ns, A), {}) for n in acc.own() for ns in acc.nss):
        out += [("purge", "two"), ("offline", "one", "purge", "two"), ("offline", "one", "gone", "two")]
    return out


def life(namespaces, depth, bound):
    @scenario
    def run(w, ch, ctx):
        acc = settled(w, ch.pick(namespaces, "namespaces"))
        acc.check()
        for i in range(depth):
            op = ch.pick(options(acc), f"op {i}")
            if any(not acc.harmless(n) for n in acc.own()) and op[0] in ("label", "refresh", "join", "purge", "restart", "offline"):
                acc.labels.clear()
            operation(acc, ch, op, bound)
            ctx.prune(ch, (i, acc.wiped, acc.state()), 0)
        acc.drain(ch, ctx)
        acc.check()
        acc.talk()
        ctx.outcome(f"{acc.uploads} uploads")
    return run


ECHOES = {"label": lambda sm, acc: sm.set_own_label("one'"), "refresh": lambda sm, acc: sm.refresh_device_lists(A),
          "check": lambda sm, acc: sm.ensure_data_consistency()}


def echoes(namespaces, bound):
    """The push of a device's own change arrives while the change is still being made."""
    @scenario
    def run(w, ch, ctx):
        acc = settled(w, ch.pick(namespaces, "namespaces"))
        op = ch.pick(sorted(ECHOES), "operation")
        if op in ("refresh", "check"):
            kind = ch.pick(("foreign", "other", "both"), "before")
            for ns in acc.nss:
                if kind == "other" or ns == acc.nss[0]:
                    lst = w.lists[(ns, A)]
                    for n in ("one",) if kind != "both" else ("one", "two"):
                        lst.pop(acc.ids[n], None)
                    acc.publish(ns, A)
            if ch.flag("not told"):
                acc.queues["one"].clear()
        acc.labels.clear()
        acc.echo = True
        node = acc.nodes["one"]
        need_ok(w.together([(node, ECHOES[op](node.sm, acc))], bound), op)
        acc.echo = False
        acc.drain(ch, ctx)
        acc.check()
        acc.talk()
        ctx.outcome(f"{op} {acc.uploads} uploads")
    return run


def scenarios(tier):
    one, two = (("n1",),), (("n1", "n2"),)
    if tier == "quick":
        return [("echoes", echoes(one + two, 3)), ("setups", setups(one, 3)), ("setups-2", setups(two, 2)), ("setups-3", setups(one, 1, (True,))), ("life", life(one + two, 2, 3))]
    return [("echoes", echoes(one + two, 4)), ("setups", setups(one, 6)), ("setups-2", setups(two, 4)), ("setups-3", setups(one + two, 2, (True,))), ("life", life(one + two, 2, 3)), ("deep", life(one + two, 3, 1))]
