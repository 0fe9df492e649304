"""Shared oracle for one encryption (C01, C02): what must come out, computed from the situation alone."""
import copy

import omemo
from omemo.session_manager import (
    StillUndecided, NoEligibleDevices, UnknownNamespace, UnknownTrustLevel, TrustDecisionFailed,
    BundleDownloadFailed, BundleNotFound
)
from omemo.backend import KeyExchangeFailed

from .env import ekms, exc_name
from .explore import Violation

OWN = "a@x"


class Need:
    """Assertions tagged with the property they belong to; only those of the property being decided count."""

    def __init__(self, prop):
        self.prop = prop

    def __call__(self, cond, props, message):
        if not cond and self.prop in props.split():
            raise Violation(message)


def snapshot_sessions(node):
    return {ns: copy.deepcopy(d["sessions"]) for ns, d in node.disk.backends.items()}


def check_encrypt(w, node, need, recipients, order, plaintexts, identifier, decided):
    """Run one encryption and compare with what the situation demands.

    decided: callable(jid, dev, ik) -> trust level name set by the callback, or None; or an exception class."""
    sm = node.sm
    own_dev = node.device_id
    loaded = [b.namespace for b in node.backends]
    before = snapshot_sessions(node)
    node.decisions.clear()
    policy = dict(node.policy)
    jids = frozenset(recipients) | {OWN}
    trust_before = {}

    # What the library shows about the devices. Asking first would store identity keys; the levels are taken from the
    # callback and from what was set, the keys from the public information after the call.
    out = node.call(sm.encrypt(frozenset(recipients), dict(plaintexts), None if order is None else list(order),
                               identifier))
    decisions = list(node.decisions)
    after = snapshot_sessions(node)
    n_sent = len(w.sent)

    effective = loaded if order is None else order
    if any(ns not in loaded for ns in effective):
        need(exc_name(out) == "UnknownNamespace", "C02", f"priority order {order} with {loaded} loaded: {out}")
        need(after == before, "C02", "a refused encryption changed sessions")
        return "unknown-namespace"

    devices = {}
    for jid in sorted(jids):
        for d in node.ok(sm.get_device_information(jid), "get_device_information"):
            devices[(jid, d.device_id)] = d

    eligible = {}
    for key, d in devices.items():
        if key == (OWN, own_dev):
            continue
        act = dict(d.active)
        usable = [ns for ns in effective if ns in d.namespaces and act.get(ns) is True]
        if usable:
            eligible[key] = usable[0]

    def level(key):
        d = devices[key]
        name = node.trust_log.get((key[0], d.identity_key), node.undecided)
        return name

    def meaning(names, policy=None):
        return {k: node.evaluate(n, *k, policy) for k, n in names.items()}

    names = {k: level(k) for k in eligible}
    if None in meaning(names, policy).values():
        need(exc_name(out) == "UnknownTrustLevel", "C01", f"unknown trust level among recipients: {out}")
        need(after == before, "C01 C03", "a refused encryption changed sessions")
        return "unknown-trust"

    undecided = {k for k, n in meaning(names, policy).items() if n is omemo.TrustLevel.UNDECIDED}
    if undecided:
        need(len(decisions) == 1, "C01", f"{len(decisions)} trust decision requests instead of one")
        if decisions:
            asked, ident = decisions[0]
            got = sorted((d.bare_jid, d.device_id, d.identity_key) for d in asked)
            want = sorted((k[0], k[1], devices[k].identity_key) for k in undecided)
            need(got == want, "C01", f"trust decision asked for {got}, undecided eligible devices are {want}")
            need(ident == identifier, "C01", f"identifier {ident!r} passed instead of {identifier!r}")
        if isinstance(decided, type):
            need(out.kind == "exc" and isinstance(out.exc, TrustDecisionFailed), "C01",
                 f"failed trust decision: {out}")
            need(after == before, "C01", "an encryption without trust decision changed sessions")
            return "decision-failed"
        for k in undecided:
            name = decided(k[0], k[1], devices[k].identity_key)
            if name is not None:
                node.trust_log[(k[0], devices[k].identity_key)] = name
        for (jid, ik), name in getattr(decided, "side", {}).items():
            node.trust_log[(jid, ik)] = name
        names = {k: level(k) for k in eligible}
        if None in meaning(names).values():
            need(exc_name(out) == "UnknownTrustLevel", "C01", f"unknown trust level set by the callback: {out}")
            return "unknown-trust"
        if omemo.TrustLevel.UNDECIDED in meaning(names).values():
            need(exc_name(out) == "StillUndecided", "C01", f"undecided device left: {out}")
            need(after == before, "C01", "an encryption without trust decision changed sessions")
            return "still-undecided"
    else:
        need(not decisions, "C01", "trust decision requested although nothing is undecided")

    trusted = {k for k, n in meaning(names).items() if n is omemo.TrustLevel.TRUSTED}
    want_keys, want_errors = {}, set()
    for k in sorted(trusted):
        ns = eligible[k]
        if before.get(ns, {}).get(k) is not None:
            want_keys[k] = (ns, False)
            continue
        b = w.bundles.get((ns,) + k)
        if b is None or b is BundleNotFound:
            want_errors.add((ns,) + k + (BundleNotFound,))
        elif b is BundleDownloadFailed:
            want_errors.add((ns,) + k + (BundleDownloadFailed,))
        elif b.bad or not b.pks or b.identity_key != devices[k].identity_key:
            want_errors.add((ns,) + k + (KeyExchangeFailed,))
        else:
            want_keys[k] = (ns, True)
    without = frozenset(j for j in recipients if j != OWN and not any(k[0] == j for k in want_keys))

    if out.kind == "ok":
        # Safety first: nobody gets a key who must not.
        for m in out.value[0]:
            for (jid, dev), (ekm, kex) in ekms(m).items():
                d = devices.get((jid, dev))
                need(d is not None, "C01", f"key for unknown device {jid}/{dev}")
                name = node.trust_log.get((jid, d.identity_key), node.undecided)
                need(node.evaluate(name, jid, dev) is omemo.TrustLevel.TRUSTED, "C01",
                     f"key for {jid}/{dev}, whose identity key is {name}")
                need(ekm.rik == d.identity_key, "C01",
                     f"session with {jid}/{dev} is bound to {ekm.rik.hex()}, but {d.identity_key.hex()} is the key "
                     "that is shown and trusted")
    if without:
        need(exc_name(out) == "NoEligibleDevices", "C02", f"recipients {sorted(without)} are without a device: {out}")
        if exc_name(out) == "NoEligibleDevices":
            need(frozenset(out.exc.bare_jids) == without, "C02",
                 f"NoEligibleDevices names {sorted(out.exc.bare_jids)} instead of {sorted(without)}")
        need(after == before, "C02", "an encryption that failed changed sessions")
        return "no-eligible"

    need(out.kind == "ok", "C02", f"encryption failed: {out.exc!r}")
    if out.kind != "ok":
        return "other-failure"
    messages, errors = out.value
    got_errors = set()
    for e in errors:
        t = next((t for t in (BundleNotFound, BundleDownloadFailed, KeyExchangeFailed) if isinstance(e.exception, t)),
                 type(e.exception))
        got_errors.add((e.namespace, e.bare_jid, e.device_id, t))
    need(got_errors == want_errors, "C02", f"errors {got_errors} instead of {want_errors}")
    seen_ns, got = [], {}
    for m, pkm in messages.items():
        seen_ns.append(m.namespace)
        need(m.bare_jid == OWN and m.device_id == own_dev, "C02", f"message is from {m.bare_jid}/{m.device_id}")
        need(not m.content.empty and m.content._t[2] == plaintexts.get(m.namespace), "C02",
             f"message for {m.namespace} carries {m.content}")
        need(getattr(pkm, "key", None) == m.content._t[1], "C02", "returned key material does not open the content")
        for ekm, kex in m.keys:
            k = (ekm.bare_jid, ekm.device_id)
            need(k not in got, "C02", f"device {k} is served twice")
            got[k] = (m.namespace, ekm, kex)
            need(ekm.key == m.content._t[1], "C02", f"key for {k} does not open the content")
    need(len(seen_ns) == len(set(seen_ns)), "C02", f"several messages for one namespace: {seen_ns}")
    need({k: v[0] for k, v in got.items()} == {k: v[0] for k, v in want_keys.items()}, "C02",
         f"keys for {sorted((k, v[0]) for k, v in got.items())} instead of "
         f"{sorted((k, v[0]) for k, v in want_keys.items())}")
    for k, (ns, ekm, kex) in got.items():
        stored = after[ns].get(k)
        need(stored is not None and stored["sid"] == ekm.sid, "C02 C03", f"session with {k} is not stored")
        want_kex = stored is not None and stored["role"] == "I" and not stored["conf"]
        need((kex is not None) == want_kex and (not want_kex or kex == stored["kex"]), "C02 C05",
             f"key exchange for {k}: {kex}")
        b = w.bundles.get((ns,) + k)
        if want_keys.get(k, (ns, False))[1] and kex is not None and not isinstance(b, (type, type(None))):
            need(kex.spk == b.spk and kex.pk in b.pks, "C02",
                 f"the session with {k} was started with keys that are no longer published: {kex} instead of {b}")
    touched = {(v[0], k) for k, v in got.items()}
    for ns in set(before) | set(after):
        for k in set(before.get(ns, {})) | set(after.get(ns, {})):
            if (ns, k) not in touched:
                need(before.get(ns, {}).get(k) == after.get(ns, {}).get(k), "C02 C03",
                     f"session of {k} in {ns} changed although it got no key")
    need(len(w.sent) == n_sent, "C02", "an encryption sent something by itself")
    # What arrives can be read.
    return f"ok keys={len(got)} errors={len(got_errors)}"


def set_trust(node, jid, ik, name):
    node.ok(node.sm.set_trust(jid, ik, name), "set_trust")
    node.trust_log[(jid, ik)] = name
