"""C14: storage reads return the latest completed write, cached or not."""
import json

from omemo.storage import Just, Nothing, NothingException, StorageException

from ..env import Node, scenario, exc_name, NodeStorage
from ..enc import OWN
from ..explore import Violation

PROP = "C14"
BOUNDS = {
    "quick": "every sequence of 4 operations (load, delete, store of 3 values, mutation of a value passed in or returned, "
             "restart) on two keys, each medium access failing or not, cache on and off; every sequence of 2 with 14 values "
             "of every JSON shape; every typed load of every value; every interleaving of 2 or 3 overlapping operations on a "
             "key, cached or not before, switching at the start and the completion of each medium access, optionally one "
             "failing before or after the fact",
    "thorough": "sequences of 5, 4 overlapping operations"
}
ASSUMPTIONS = ["values are JSON serialisable and not changed by the caller while a store is running"]

VALUES = [None, True, False, 0, 1, -1.5, "", "text", [], [1, 2], ["a", None], {}, {"a": 1}, {"a": {"b": [1, {"c": "d"}]}}]
SMALL = [None, [1, [2]], {"a": {"b": [1]}}]


def text(v):
    return json.dumps(v, sort_keys=True)


def make(w, cache, disk=None):
    node = Node(w, OWN, [], cache=cache, disk=disk)
    node.token = object()
    w.alive.add(node.token)
    node.storage = NodeStorage(w, node, cache)
    return node


def reboot(w, node):
    node.token = object()
    w.alive.add(node.token)
    node.storage = NodeStorage(w, node, node.cache)


def compare(node, key, want, got, what):
    """want: text of the value or None for nothing"""
    disk = node.disk.kv.get(key)
    disk = None if disk is None else text(json.loads(disk))
    if disk != want:
        raise Violation(f"{what}: the medium holds {disk} for {key} instead of {want}")
    if want is None:
        if not got.is_nothing or got.is_just:
            raise Violation(f"{what}: load({key}) gives {got!r} instead of nothing")
        try:
            got.from_just()
            raise Violation(f"{what}: a value came out of nothing")
        except NothingException:
            pass
        marker = object()
        if got.maybe(marker) is not marker or not got.fmap(lambda v: v).is_nothing:
            raise Violation(f"{what}: default of nothing")
        return
    if not got.is_just or got.is_nothing:
        raise Violation(f"{what}: load({key}) gives nothing instead of {want}")
    for v in (got.from_just(), got.maybe("default"), got.fmap(lambda v: v).from_just()):
        if text(v) != want:
            raise Violation(f"{what}: load({key}) gives {text(v)} instead of {want}")


def mutate(v):
    """Change a value in place, as deep as possible."""
    if isinstance(v, list):
        for x in v:
            mutate(x)
        v.append("changed")
    elif isinstance(v, dict):
        for x in v.values():
            mutate(x)
        v["changed"] = True


def sequences(depth, values, keys=("/k", "/k/x"), mutations=True):
    @scenario
    def run(w, ch, ctx):
        node = make(w, ch.pick((True, False), "cache"))
        want, held = {}, []
        ops = [("load", k) for k in keys] + [("delete", k) for k in keys]
        ops += [("store", k, i) for k in keys for i in range(len(values))]
        ops += [("mutate",), ("reboot",)]
        fail = [False]
        w.fault = lambda n, op, a, wr: "fail" if fail[0] else None
        for i in range(depth):
            op = ch.pick(ops, f"op {i}")
            if op[0] == "mutate":
                for v in held:
                    mutate(v)
                    if isinstance(v, (list, dict)):
                        v.clear()
                        (v.append("x") if isinstance(v, list) else v.update(x=1))
                continue
            if op[0] == "reboot":
                reboot(w, node)
                continue
            fail[0] = ch.flag("medium fails")
            key = op[1]
            before = dict(node.disk.kv)
            n = w.n_env
            if op[0] == "load":
                out = node.call(node.storage.load(key))
            elif op[0] == "delete":
                out = node.call(node.storage.delete(key))
            else:
                v = json.loads(text(values[op[2]]))
                out = node.call(node.storage.store(key, v))
                if text(v) != text(values[op[2]]):
                    raise Violation("store changed the caller's value")
                held.append(v)
            failed = fail[0] and w.n_env > n
            fail[0] = False
            if failed:
                if op[0] == "load" and out.kind == "ok":
                    raise Violation(f"{op} succeeded although the medium failed")
                if not isinstance(out.exc, StorageException):
                    raise Violation(f"{op} with a failing medium: {out}")
                if node.disk.kv != before:
                    raise Violation("failed operation changed the medium")
            else:
                if out.kind != "ok":
                    raise Violation(f"{op}: {out.exc!r}")
                if op[0] == "load":
                    compare(node, key, want.get(key), out.value, op)
                    if out.value.is_just:
                        held += [out.value.from_just(), out.value.maybe(None)]
                        out.value.fmap(lambda v: held.append(v))
                elif op[0] == "delete":
                    want.pop(key, None)
                else:
                    want[key] = text(values[op[2]])
        for key in keys:
            for _ in range(2):
                compare(node, key, want.get(key), node.ok(node.storage.load(key)), "at the end")
        for v in held:
            mutate(v)
        for key in keys:
            compare(node, key, want.get(key), node.ok(node.storage.load(key)), "after changing returned values")
        reboot(w, node)
        for key in keys:
            compare(node, key, want.get(key), node.ok(node.storage.load(key)), "after a restart")
        ctx.outcome(str(sorted(want)))
    return run


TYPES = {"None": type(None), "float": float, "int": int, "str": str, "bool": bool}


def typed():
    @scenario
    def run(w, ch, ctx):
        node = make(w, ch.pick((True, False), "cache"))
        shape = ch.pick(("primitive", "optional", "list", "dict", "bytes"), "load")
        v = ch.pick(VALUES + ["Zm9v", [True], [1, "a"], {"a": "b"}, {"a": 1, "b": "c"}, {"a": True}, ["x", "y"], "absent"],
                    "value")
        if v != "absent":
            node.ok(node.storage.store("/k", v))
            if ch.flag("restarted"):
                reboot(w, node)
        if shape == "bytes":
            out = node.call(node.storage.load_bytes("/k"))
            if v == "absent":
                bad = out.kind != "ok" or not out.value.is_nothing
            elif v == "Zm9v":
                bad = out.kind != "ok" or out.value.from_just() != b"foo"
            elif isinstance(v, str):
                bad = False
            else:
                bad = out.kind == "ok"
            if bad:
                raise Violation(f"load_bytes of {v!r}: {out}")
            raw = ch.pick((b"", b"\x00", b"foo", b"\xfb\xff\xfe", bytes(range(256)), b"\xff" * 33), "bytes")
            node.ok(node.storage.store_bytes("/b", raw))
            for _ in range(2):
                if node.ok(node.storage.load_bytes("/b")).from_just() != raw:
                    raise Violation(f"bytes {raw!r} changed")
                reboot(w, node)
            return
        tname = ch.pick(sorted(TYPES), "type")
        t = TYPES[tname]
        out = node.call(getattr(node.storage, "load_" + shape)("/k", t))
        ctx.outcome(f"{shape} {exc_name(out)}")
        if v == "absent":
            if out.kind != "ok" or not out.value.is_nothing:
                raise Violation(f"load_{shape} of nothing: {out}")
            return

        def exact(x):
            return type(x) is t

        def loose(x):
            return exact(x) or isinstance(x, bool) and t is int
        good = {"primitive": lambda f: f(v), "optional": lambda f: v is None or f(v),
                "list": lambda f: isinstance(v, list) and all(map(f, v)),
                "dict": lambda f: isinstance(v, dict) and all(map(f, v.values()))}[shape]
        if good(exact):
            if out.kind != "ok" or not out.value.is_just or text(out.value.from_just()) != text(v):
                raise Violation(f"load_{shape}({tname}) of {v!r}: {out}")
        elif not good(loose):
            if out.kind == "ok" or not isinstance(out.exc, TypeError):
                raise Violation(f"load_{shape}({tname}) of {v!r} is not refused: {out}")
        if text(json.loads(node.disk.kv["/k"])) != text(v):
            raise Violation("a typed load changed the medium")
    return run


def overlapping(n, bound, failures=False):
    @scenario
    def run(w, ch, ctx):
        node = make(w, ch.pick((True, False), "cache"))
        key = "/k"
        if ch.flag("value exists"):
            node.disk.kv[key] = text("old")
        if ch.flag("cached"):
            node.ok(node.storage.load(key))
        kinds = ["load", "delete", "store 1", "store 2", "store 3"]
        calls, names = [], []
        for i in range(n):
            # stores are interchangeable up to renaming
            options = ["load", "delete", f"store {i}"]
            if i and names[-1] in options:
                options = options[options.index(names[-1]):]
            elif i:
                options = options[2:]
            names.append(ch.pick(options, f"operation {i}"))
        for name in names:
            if name == "load":
                calls.append((node, node.storage.load(key)))
            elif name == "delete":
                calls.append((node, node.storage.delete(key)))
            else:
                calls.append((node, node.storage.store(key, name)))
        history = [node.disk.kv.get(key)]

        def after(nd, op, a, result):
            history.append(node.disk.kv.get(key))
        w.after = after
        if failures:
            left = [1]

            def fault(nd, op, a, wr):
                if not left[0]:
                    return None
                what = ch.pick((None, "fail", "late") if wr else (None, "fail"), op)
                if what:
                    left[0] = 0
                return what
            w.fault = fault
        outs = w.together(calls, bound, phases=2)
        w.fault = w.after = None
        for name, out in zip(names, outs):
            if out.kind == "exc" and not (failures and isinstance(out.exc, StorageException)):
                raise Violation(f"{name} failed: {out.exc!r}")
            if name == "load" and out.kind == "ok":
                got = text(out.value.from_just()) if out.value.is_just else None
                if got not in history:
                    raise Violation(f"a load returned {got}, which was never stored ({history})")
        now = node.disk.kv.get(key)
        ctx.outcome(f"{now}")
        for _ in range(2):
            got = node.ok(node.storage.load(key))
            if (text(got.from_just()) if got.is_just else None) != now:
                raise Violation(f"after {names} overlapped, load gives {got.maybe('nothing')!r}, the medium holds {now}")
        # and from here on everything is in order again
        node.ok(node.storage.store(key, "next"))
        compare(node, key, text("next"), node.ok(node.storage.load(key)), "a later store")
        node.ok(node.storage.delete(key))
        compare(node, key, None, node.ok(node.storage.load(key)), "a later delete")
    return run


def scenarios(tier):
    if tier == "quick":
        return [("sequences", sequences(4, SMALL)), ("values", sequences(2, VALUES, mutations=True)), ("typed", typed()),
                ("two", overlapping(2, 4)), ("three", overlapping(3, 3)), ("two-failing", overlapping(2, 3, True))]
    return [("sequences", sequences(5, SMALL)), ("values", sequences(3, VALUES)), ("typed", typed()),
            ("two", overlapping(2, 9)), ("three", overlapping(3, 9)), ("four", overlapping(4, 3)),
            ("three-failing", overlapping(3, 3, True))]
