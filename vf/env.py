"""The closed world around the library: server, disk, clock, backends, peers and a fault/schedule controller.

Everything the library can observe goes through `World.env`, one call per interaction. That is where faults, crashes
and interleavings are decided. Nothing in here looks at how the library is written: the library is driven through its
public API and observed through the server, the disk and the results of public calls.
"""
import asyncio
import copy
import json
from collections import namedtuple

from . import boot
from .explore import Violation

import omemo
from omemo.message import PlainKeyMaterial
from omemo.session import Session, Initiation
from omemo.identity_key_pair import IdentityKeyPair
from omemo.session_manager import (
    BundleUploadFailed, BundleDownloadFailed, BundleNotFound, BundleDeletionFailed, DeviceListUploadFailed,
    DeviceListDownloadFailed, MessageSendingFailed, UnknownNamespace, UnknownTrustLevel, TrustDecisionFailed
)
from omemo.backend import DecryptionFailed, KeyExchangeFailed, TooManySkippedMessageKeys
from omemo.storage import StorageException, Just, Nothing

ENV_BUDGET = 60000


class Crash(BaseException):
    """The process of a node dies here."""


class Runaway(BaseException):
    """An operation made absurdly many interactions or can never finish."""


Outcome = namedtuple("Outcome", "kind value exc")  # kind: ok | exc | crash


def exc_name(o):
    return None if o.kind == "ok" else ("Crash" if o.kind == "crash" else type(o.exc).__name__)


# ------------------------------------------------------------------------------------------------ event loop

class _Selector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout):
        loop = self.loop
        if timeout is not None and timeout <= 0:
            return []
        if loop.world.pending:
            loop.world.release_one()
            return []
        if timeout is None:
            raise Runaway("every task waits for something that can never happen")
        loop.vtime += timeout
        loop.world.on_time(timeout)
        return []


class VLoop(asyncio.base_events.BaseEventLoop):
    """An asyncio loop without I/O, on virtual time."""

    def __init__(self, world):
        super().__init__()
        self.world = world
        self.vtime = 0.0
        self._selector = _Selector(self)
        self._clock_resolution = 1e-6
        self.set_task_factory(self._factory)

    def _factory(self, loop, coro, **kw):
        t = asyncio.Task(coro, loop=loop, **kw)
        t._vf_node = self.world.current
        if t._vf_node is None:
            try:
                t._vf_node = getattr(asyncio.current_task(loop), "_vf_node", None)
            except RuntimeError:
                pass
        self.world.tasks.append(t)
        return t

    def time(self):
        return self.vtime

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        pass


class _Clock:
    """Twisted clock on the same virtual time (subset of IReactorTime that the library may use)."""

    def __init__(self, world):
        from twisted.internet.task import Clock
        self.clock = Clock()
        self.world = world

    def callLater(self, *a, **k):  # noqa: N802
        return self.clock.callLater(*a, **k)

    def seconds(self):
        return self.clock.seconds()

    def getDelayedCalls(self):  # noqa: N802
        return self.clock.getDelayedCalls()


# ------------------------------------------------------------------------------------------------ crypto stand-in

class Bundle(omemo.Bundle):
    def __init__(self, ns, jid, dev, ik, spk, pks, bad=False):
        self._t = (ns, jid, dev, ik, spk, frozenset(pks), bad)

    namespace = property(lambda s: s._t[0])
    bare_jid = property(lambda s: s._t[1])
    device_id = property(lambda s: s._t[2])
    identity_key = property(lambda s: s._t[3])
    spk = property(lambda s: s._t[4])
    pks = property(lambda s: s._t[5])
    bad = property(lambda s: s._t[6])

    def __eq__(self, o):
        return isinstance(o, Bundle) and o._t == self._t

    def __hash__(self):
        return hash(self._t)

    def __repr__(self):
        t = self._t
        return f"Bundle({t[0]},{t[1]},{t[2]},ik={t[3][:4].hex()},spk={t[4]},pks={len(t[5])},bad={t[6]})"

    def replace(self, **kw):
        d = dict(ns=self._t[0], jid=self._t[1], dev=self._t[2], ik=self._t[3], spk=self._t[4], pks=self._t[5],
                 bad=self._t[6])
        d.update(kw)
        return Bundle(**d)


class Content(omemo.Content):
    def __init__(self, cid, key, plaintext):
        self._t = (cid, key, plaintext)

    empty = property(lambda s: s._t[2] is None)

    def __eq__(self, o):
        return isinstance(o, Content) and o._t == self._t

    def __hash__(self):
        return hash(self._t)

    def __repr__(self):
        return f"Content{self._t}"


class PKM(PlainKeyMaterial):
    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, PKM) and o.key == self.key

    def __hash__(self):
        return hash(("pkm", self.key))

    def __repr__(self):
        return f"PKM({self.key})"


class EKM(omemo.EncryptedKeyMaterial):
    """(jid, dev) of the addressee; (sid, side, cid, n): position, i.e. the n-th key of sending chain cid of that side
    of the session; parent: the chain of the other side the sending chain was derived from; pn: length of the sender's
    previous chain; key: the transported key; rik: identity key of the addressee the session is bound to; bad: tampered
    with on the way."""

    NAMES = ("jid", "dev", "sid", "side", "cid", "n", "parent", "pn", "key", "rik", "bad")

    def __init__(self, jid, dev, sid, side, cid, n, parent, pn, key, rik, bad=False):
        self._t = (jid, dev, sid, side, cid, n, parent, pn, key, rik, bad)

    bare_jid = property(lambda s: s._t[0])
    device_id = property(lambda s: s._t[1])
    sid = property(lambda s: s._t[2])
    side = property(lambda s: s._t[3])
    cid = property(lambda s: s._t[4])
    n = property(lambda s: s._t[5])
    parent = property(lambda s: s._t[6])
    pn = property(lambda s: s._t[7])
    key = property(lambda s: s._t[8])
    rik = property(lambda s: s._t[9])
    bad = property(lambda s: s._t[10])
    pos = property(lambda s: s._t[2:6])

    def replace(self, **kw):
        d = dict(zip(self.NAMES, self._t))
        d.update(kw)
        return EKM(**d)

    def __eq__(self, o):
        return isinstance(o, EKM) and o._t == self._t

    def __hash__(self):
        return hash(self._t)

    def __repr__(self):
        t = self._t
        return f"EKM(to={t[0]}/{t[1]},pos={t[2:6]})"


class KEX(omemo.KeyExchange):
    def __init__(self, ik, sid, spk, pk):
        self._t = (ik, sid, spk, pk)

    identity_key = property(lambda s: s._t[0])
    sid = property(lambda s: s._t[1])
    spk = property(lambda s: s._t[2])
    pk = property(lambda s: s._t[3])

    def builds_same_session(self, other):
        return isinstance(other, KEX) and other._t == self._t

    def replace(self, **kw):
        d = dict(zip(("ik", "sid", "spk", "pk"), self._t))
        d.update(kw)
        return KEX(**d)

    def __eq__(self, o):
        return isinstance(o, KEX) and o._t == self._t

    def __hash__(self):
        return hash(self._t)

    def __repr__(self):
        t = self._t
        return f"KEX(ik={t[0][:4].hex()},sid={t[1]},spk={t[2]},pk={t[3]})"


class Sess(Session):
    """A double ratchet session, symbolically. Mutable like the real ones; only what is stored persists."""

    # cid/parent/pn/sn: own sending chain, the chain it derives from, length of the previous one, next position
    # rcid/rn: current receiving chain and its length; past: lengths of superseded receiving chains
    FIELDS = ("ns", "jid", "dev", "sid", "role", "conf", "kex", "rik", "cid", "parent", "pn", "sn", "rcid", "rn",
              "used", "past")

    def __init__(self, **kw):
        for f in self.FIELDS:
            setattr(self, f, kw[f])
        self.used, self.past = set(self.used), dict(self.past)

    def dump(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d["used"], d["past"] = frozenset(self.used), dict(self.past)
        return d

    namespace = property(lambda s: s.ns)
    bare_jid = property(lambda s: s.jid)
    device_id = property(lambda s: s.dev)
    initiation = property(lambda s: Initiation.ACTIVE if s.role == "I" else Initiation.PASSIVE)
    confirmed = property(lambda s: s.conf)
    key_exchange = property(lambda s: s.kex)
    receiving_chain_length = property(lambda s: None if s.rcid is None else s.rn)
    sending_chain_length = property(lambda s: s.sn)

    def __hash__(self):
        return hash((self.ns, self.jid, self.dev, self.sid))

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return f"Sess({self.jid}/{self.dev},sid={self.sid},{self.role},conf={self.conf},cid={self.cid},sn={self.sn})"


class Core:
    """What a backend computes, without I/O: data in, data out. `d` is the persistent state of one backend."""

    def __init__(self, world, ns, d, ik, max_skip=1000):
        self.world, self.ns, self.d, self.ik, self.max_skip = world, ns, d, ik, max_skip

    @staticmethod
    def fresh(world, spk_time=None):
        base = world.fresh() * 100000
        return {"base": base, "next": 1, "spk": base, "spk_old": None, "vis": frozenset(), "hid": frozenset(),
                "spk_t": world.now() if spk_time is None else spk_time, "sessions": {}}

    def generate(self, n):
        if n < 0:
            raise ValueError("negative number of pre keys")
        d = self.d
        d["vis"] = d["vis"] | frozenset(d["base"] + d["next"] + i for i in range(n))
        d["next"] += n

    def rotate(self):
        d = self.d
        d["spk_old"] = d["spk"]
        d["spk"] = d["base"] + d["next"]
        d["next"] += 1
        d["spk_t"] = self.world.now()

    def bundle(self, jid, dev):
        return Bundle(self.ns, jid, dev, self.ik, self.d["spk"], self.d["vis"])

    def load(self, jid, dev):
        s = self.d["sessions"].get((jid, dev))
        return None if s is None else Sess(**s)

    def save(self, s):
        self.d["sessions"] = dict(self.d["sessions"])
        self.d["sessions"][(s.jid, s.dev)] = s.dump()

    def active(self, jid, dev, bundle, pkm):
        if bundle.bad or not bundle.pks or bundle.namespace != self.ns:
            raise KeyExchangeFailed("unusable bundle")
        sid = self.world.fresh()
        kex = KEX(self.ik, sid, bundle.spk, min(bundle.pks))
        s = Sess(ns=self.ns, jid=jid, dev=dev, sid=sid, role="I", conf=False, kex=kex, rik=bundle.identity_key,
                 cid=self.world.fresh(), parent=("spk", bundle.spk), pn=0, sn=0, rcid=None, rn=0, used=(), past={})
        return s, self.encrypt(s, pkm)

    def encrypt(self, s, pkm):
        m = EKM(s.jid, s.dev, s.sid, s.role, s.cid, s.sn, s.parent, s.pn, pkm.key, s.rik)
        s.sn += 1
        return m

    def passive(self, jid, dev, kex, ekm):
        d = self.d
        if kex.spk not in (d["spk"], d["spk_old"]):
            raise KeyExchangeFailed("unknown signed pre key")
        if kex.pk not in d["vis"] and kex.pk not in d["hid"]:
            raise KeyExchangeFailed("unknown pre key")
        if ekm.bad or ekm.sid != kex.sid or ekm.side != "I" or ekm.parent != ("spk", kex.spk) or ekm.rik != self.ik:
            raise DecryptionFailed("initial message")
        if ekm.n > self.max_skip:
            raise DecryptionFailed("too many skipped")
        s = Sess(ns=self.ns, jid=jid, dev=dev, sid=kex.sid, role="R", conf=False, kex=kex, rik=kex.identity_key,
                 cid=self.world.fresh(), parent=ekm.cid, pn=0, sn=0, rcid=ekm.cid, rn=ekm.n + 1,
                 used={(ekm.cid, ekm.n)}, past={})
        return s, PKM(ekm.key)

    def decrypt(self, s, ekm):
        if ekm.bad or ekm.sid != s.sid or ekm.side == s.role or (ekm.cid, ekm.n) in s.used:
            raise DecryptionFailed("key material")
        # The identity keys of both parties are bound into the session (associated data).
        if ekm.rik != self.ik:
            raise DecryptionFailed("key material bound to another identity")
        if ekm.cid == s.rcid:
            if ekm.n - s.rn > self.max_skip:
                raise TooManySkippedMessageKeys("skipped")
            s.rn = max(s.rn, ekm.n + 1)
        elif ekm.cid in s.past:
            if ekm.n >= s.past[ekm.cid]:
                raise DecryptionFailed("beyond the end of a closed chain")
        elif ekm.parent == s.cid:
            if ekm.n + (ekm.pn - s.rn if s.rcid is not None else 0) > self.max_skip:
                raise TooManySkippedMessageKeys("skipped")
            if s.rcid is not None:
                s.past[s.rcid] = ekm.pn
            s.rcid, s.rn = ekm.cid, ekm.n + 1
            s.cid, s.parent, s.pn, s.sn = self.world.fresh(), ekm.cid, s.sn, 0
        else:
            raise DecryptionFailed("chain unknown to this session")
        s.used.add((ekm.cid, ekm.n))
        s.conf = True
        return PKM(ekm.key)


class FakeBackend(omemo.Backend):
    """A backend whose methods are one atomic interaction each, on the disk of its node."""

    def __init__(self, world, node, ns, storage, **kw):
        super().__init__(**kw)
        self._w, self._node, self._ns, self._storage = world, node, ns, storage
        self._tok = node.token
        self._ik = None

    def __hash__(self):
        return hash(self._ns)

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return f"<backend {self._ns}>"

    namespace = property(lambda s: s._ns)

    def _core(self):
        bd = self._node.disk.backends
        if self._ns not in bd:
            bd[self._ns] = Core.fresh(self._w)
        return Core(self._w, self._ns, bd[self._ns], self._ik, self.max_num_per_message_skipped_keys)

    async def _do(self, op, f, write=False, **args):
        if self._ik is None:
            self._ik = (await IdentityKeyPair.get(self._storage)).identity_key
        return await self._w.env(self._node, self._tok, "be." + op, dict(args, ns=self._ns),
                                 lambda: f(self._core()), write=write)

    async def load_session(self, bare_jid, device_id):
        return await self._do("load_session", lambda c: c.load(bare_jid, device_id), jid=bare_jid, dev=device_id)

    async def store_session(self, session):
        return await self._do("store_session", lambda c: c.save(session), True, session=session,
                              jid=session.jid, dev=session.dev)

    async def build_session_active(self, bare_jid, device_id, bundle, plain_key_material):
        return await self._do("build_active", lambda c: c.active(bare_jid, device_id, bundle, plain_key_material),
                              jid=bare_jid, dev=device_id, bundle=bundle)

    async def build_session_passive(self, bare_jid, device_id, key_exchange, encrypted_key_material):
        return await self._do(
            "build_passive", lambda c: c.passive(bare_jid, device_id, key_exchange, encrypted_key_material),
            jid=bare_jid, dev=device_id)

    async def encrypt_plaintext(self, plaintext):
        k = self._w.fresh()
        return await self._do("encrypt_plaintext", lambda c: (Content(k, k, plaintext), PKM(k)), plaintext=plaintext)

    async def encrypt_empty(self):
        k = self._w.fresh()
        return await self._do("encrypt_empty", lambda c: (Content(k, k, None), PKM(k)))

    async def encrypt_key_material(self, session, plain_key_material):
        return await self._do("encrypt_km", lambda c: c.encrypt(session, plain_key_material), session=session)

    async def decrypt_plaintext(self, content, plain_key_material):
        def f(c):
            if content._t[1] != plain_key_material.key:
                raise DecryptionFailed("content")
            if content.empty:
                raise AssertionError("decrypt_plaintext called for an empty message")
            return content._t[2]
        return await self._do("decrypt_plaintext", f)

    async def decrypt_key_material(self, session, encrypted_key_material):
        return await self._do("decrypt_km", lambda c: c.decrypt(session, encrypted_key_material), session=session)

    async def signed_pre_key_age(self):
        return await self._do("spk_age", lambda c: int(self._w.now() - c.d["spk_t"]))

    async def rotate_signed_pre_key(self):
        return await self._do("rotate", lambda c: c.rotate(), True)

    async def hide_pre_key(self, session):
        def f(c):
            pk = session.kex.pk
            if pk in c.d["vis"]:
                c.d["vis"] = c.d["vis"] - {pk}
                c.d["hid"] = c.d["hid"] | {pk}
                return True
            return False
        return await self._do("hide", f, True, session=session)

    async def delete_pre_key(self, session):
        def f(c):
            pk = session.kex.pk
            found = pk in c.d["vis"] or pk in c.d["hid"]
            c.d["vis"] = c.d["vis"] - {pk}
            c.d["hid"] = c.d["hid"] - {pk}
            return found
        return await self._do("delete_pk", f, True, session=session)

    async def delete_hidden_pre_keys(self):
        def f(c):
            c.d["hid"] = frozenset()
        return await self._do("delete_hidden", f, True)

    async def get_num_visible_pre_keys(self):
        return await self._do("num_visible", lambda c: len(c.d["vis"]))

    async def generate_pre_keys(self, num_pre_keys):
        return await self._do("generate", lambda c: c.generate(num_pre_keys), True, n=num_pre_keys)

    async def get_bundle(self, bare_jid, device_id):
        return await self._do("get_bundle", lambda c: c.bundle(bare_jid, device_id))

    async def purge(self):
        def f(c):
            self._node.disk.backends.pop(self._ns, None)
        return await self._do("purge", f, True)

    async def purge_bare_jid(self, bare_jid):
        def f(c):
            c.d["sessions"] = {k: v for k, v in c.d["sessions"].items() if k[0] != bare_jid}
        return await self._do("purge_jid", f, True, jid=bare_jid)


# ------------------------------------------------------------------------------------------------ storage and node

class Disk:
    """What survives a restart."""

    def __init__(self):
        self.kv = {}
        self.backends = {}

    def snapshot(self):
        return copy.deepcopy((self.kv, self.backends))

    def get(self, key):
        return json.loads(self.kv[key]) if key in self.kv else None


class NodeStorage(omemo.Storage):
    def __init__(self, world, node, cache=True):
        super().__init__(disable_cache=not cache)
        self._w, self._node, self._tok = world, node, node.token

    async def _load(self, key):
        kv = self._node.disk.kv
        return await self._w.env(self._node, self._tok, "load", {"key": key},
                                 lambda: Just(json.loads(kv[key])) if key in kv else Nothing())

    async def _store(self, key, value):
        text = json.dumps(value)

        def f():
            self._node.disk.kv[key] = text
        await self._w.env(self._node, self._tok, "store", {"key": key, "value": text}, f, write=True)

    async def _delete(self, key):
        def f():
            self._node.disk.kv.pop(key, None)
        await self._w.env(self._node, self._tok, "delete", {"key": key}, f, write=True)


FAULTS = {
    "load": StorageException, "store": StorageException, "delete": StorageException,
    "up_bundle": BundleUploadFailed, "dn_bundle": BundleDownloadFailed, "del_bundle": BundleDeletionFailed,
    "up_list": DeviceListUploadFailed, "dn_list": DeviceListDownloadFailed, "send": MessageSendingFailed,
    "trust_decide": TrustDecisionFailed
}
NETWORK = ("up_bundle", "dn_bundle", "del_bundle", "up_list", "dn_list", "send")

LEVELS = {"TRUSTED": omemo.TrustLevel.TRUSTED, "BLINDLY": omemo.TrustLevel.TRUSTED,
          "DISTRUSTED": omemo.TrustLevel.DISTRUSTED, "UNDECIDED": omemo.TrustLevel.UNDECIDED,
          "NEW": omemo.TrustLevel.UNDECIDED}

_W = [None]
_CLASSES = {}


def sm_class(jid, dmin=None, dmax=None, base=None, name=None):
    """The application side of the library: a SessionManager subclass bound to an account of the current world."""
    key = (jid, dmin, dmax, base, name)
    if key in _CLASSES:
        return _CLASSES[key]

    def node():
        return _W[0].nodes[name or jid]

    class SM(base or omemo.SessionManager):
        @staticmethod
        async def _upload_bundle(bundle):
            w, n = _W[0], node()
            n.check_ns(bundle.namespace)

            def f():
                w.bundles[(bundle.namespace, jid, bundle.device_id)] = bundle
                w.log.append(("up_bundle", jid, bundle))
            await w.env(n, n.token, "up_bundle", {"ns": bundle.namespace, "bundle": bundle}, f, write=True)

        @staticmethod
        async def _download_bundle(namespace, bare_jid, device_id):
            w, n = _W[0], node()
            n.check_ns(namespace)

            def f():
                b = w.bundles.get((namespace, bare_jid, device_id))
                if b is None:
                    raise BundleNotFound()
                if isinstance(b, type) and issubclass(b, Exception):
                    raise b()
                return b
            return await w.env(n, n.token, "dn_bundle", {"ns": namespace, "jid": bare_jid, "dev": device_id}, f)

        @staticmethod
        async def _delete_bundle(namespace, device_id):
            w, n = _W[0], node()
            n.check_ns(namespace, purge=True)

            def f():
                w.bundles.pop((namespace, jid, device_id), None)
                w.log.append(("del_bundle", jid, namespace, device_id))
            await w.env(n, n.token, "del_bundle", {"ns": namespace, "dev": device_id}, f, write=True)

        @staticmethod
        async def _upload_device_list(namespace, device_list):
            w, n = _W[0], node()
            n.check_ns(namespace, purge=True)
            lst = dict(device_list)

            def f():
                w.lists[(namespace, jid)] = dict(lst)
                w.log.append(("up_list", jid, namespace, dict(lst)))
            await w.env(n, n.token, "up_list", {"ns": namespace, "list": lst}, f, write=True)

        @staticmethod
        async def _download_device_list(namespace, bare_jid):
            w, n = _W[0], node()
            n.check_ns(namespace, purge=True)
            return await w.env(n, n.token, "dn_list", {"ns": namespace, "jid": bare_jid},
                               lambda: dict(w.lists.get((namespace, bare_jid), {})))

        async def _evaluate_custom_trust_level(self, device):
            w, n = _W[0], node()

            def f():
                level = n.evaluate(device.trust_level_name, device.bare_jid, device.device_id)
                if level is None:
                    raise UnknownTrustLevel(device.trust_level_name)
                return level
            return await w.env(n, n.token, "trust_eval", {"device": device}, f)

        async def _make_trust_decision(self, undecided, identifier):
            w, n = _W[0], node()
            await w.env(n, n.token, "trust_decide", {"undecided": undecided, "identifier": identifier}, lambda: None)
            n.decisions.append((frozenset(undecided), identifier))
            if n.decide is not None:
                await n.decide(self, undecided, identifier)

        @staticmethod
        async def _send_message(message, bare_jid):
            w, n = _W[0], node()
            n.check_ns(message.namespace)

            def f():
                w.sent.append((jid, message, bare_jid))
                w.log.append(("send", jid, message, bare_jid))
            await w.env(n, n.token, "send", {"ns": message.namespace, "message": message, "jid": bare_jid}, f,
                        write=True)

    if dmin is not None:
        SM.DEVICE_ID_MIN = dmin
    if dmax is not None:
        SM.DEVICE_ID_MAX = dmax
    SM.__name__ = f"SM_{jid}"
    _CLASSES[key] = SM
    return SM


class Node:
    """One device under test: its disk, and the process currently running on it (if any)."""

    def __init__(self, world, jid, namespaces=("n1",), label="me", cache=True, undecided="UNDECIDED", threshold=99,
                 period=7 * 24 * 3600, framework=None, dmin=None, dmax=None, disk=None, base=None, make_backend=None,
                 skip=None, name=None):
        self.w, self.jid, self.namespaces, self.label, self.cache = world, jid, list(namespaces), label, cache
        self.undecided, self.threshold, self.period = undecided, threshold, period
        self.framework = framework or omemo.AsyncFramework.ASYNCIO
        self.cls = sm_class(jid, dmin, dmax, base, name)
        self.disk = disk or Disk()
        self.make_backend = make_backend or FakeBackend
        self.skip = skip or {}
        self.sm = self.storage = self.backends = self.token = None
        self.decisions, self.decide = [], None
        self.policy = {}        # (jid, dev) -> TrustLevel of the level "POLICY"
        self.known_ns = None  # namespaces the application can talk about; None: the loaded ones
        world.nodes[name or jid] = self

    def check_ns(self, ns, purge=False):
        known = self.known_ns if self.known_ns is not None else self.namespaces
        if ns not in known and not purge:
            raise UnknownNamespace(ns)

    def start(self, namespaces=None):
        out = self.w.call(self, self.creation(namespaces))
        if out.kind == "ok":
            self.sm = out.value
        return out

    def creation(self, namespaces=None):
        self.kill()
        if namespaces is not None:
            self.namespaces = list(namespaces)
        self.token = object()
        self.w.alive.add(self.token)
        self.storage = NodeStorage(self.w, self, self.cache)
        self.backends = [self.make_backend(self.w, self, ns, self.storage, **self.skip) for ns in self.namespaces]
        return self.cls.create(
            list(self.backends), self.storage, self.jid, self.label, self.undecided, *self.settings()
        ) if None not in self.settings() else self.cls.create(
            # those set to None are left out
            backends=list(self.backends), storage=self.storage, own_bare_jid=self.jid, initial_own_label=self.label,
            undecided_trust_level_name=self.undecided, **{k: v for k, v in zip(
                ("signed_pre_key_rotation_period", "pre_key_refill_threshold", "async_framework"), self.settings()
            ) if v is not None}
        )

    def evaluate(self, name, jid, dev, policy=None):
        """The application's trust policy: levels may have a fixed meaning, or one that depends on the device and may change."""
        return (self.policy if policy is None else policy).get((jid, dev), omemo.TrustLevel.UNDECIDED) if name == "POLICY" else LEVELS.get(name)

    def settings(self):
        return self.period, self.threshold, self.framework

    def must_start(self, namespaces=None):
        out = self.start(namespaces)
        if out.kind != "ok":
            raise Violation(f"setup of {self.jid} failed without any fault: {out.exc!r}")
        return self

    def maybe_live(self, ch):
        """History synchronization is over, or not."""
        if ch.flag("live"):
            self.ok(self.sm.after_history_sync(), "after_history_sync")

    def kill(self):
        if self.token is not None:
            self.w.alive.discard(self.token)
            self.w.stop_tasks(self)
        self.sm = self.token = self.storage = self.backends = None

    def call(self, coro):
        return self.w.call(self, coro)

    def ok(self, coro, what=""):
        out = self.w.call(self, coro)
        if out.kind != "ok":
            raise Violation(f"{what or 'operation'} failed without any fault: {out.exc!r}")
        return out.value

    @property
    def device_id(self):
        return self.disk.get("/own_device_id")

    @property
    def ik(self):
        import xeddsa.bindings as x
        import base64
        key = self.disk.get("/ikp/key")
        if key is None:
            return None
        raw = base64.urlsafe_b64decode(key)
        return x.seed_to_ed25519_pub(raw) if self.disk.get("/ikp/is_seed") else x.priv_to_ed25519_pub(raw)

    def bundle(self, ns):
        """The local bundle as the backend would report it, without an interaction."""
        return Core(self.w, ns, self.disk.backends[ns], self.ik).bundle(self.jid, self.device_id)

    def sessions(self, ns):
        return self.disk.backends.get(ns, {}).get("sessions", {})


class World:
    def __init__(self, ch=None, ctx=None):
        self.ch, self.ctx = ch, ctx
        self._steps = 0
        self.lists, self.bundles, self.sent, self.log = {}, {}, [], []
        self.nodes, self.alive, self.tasks = {}, set(), []
        self.current = None
        self.pending = []
        self.last = None
        self.fault = None       # callable(node, op, args, write) -> None | "fail" | "late" | "crash" | exception
        self.monitor = None     # callable(node, op, args) before the effect
        self.after = None       # callable(node, op, args, result) after the effect
        self.flags = []
        self.n_env = 0
        self._fresh = 0
        self.rand = boot.Rand()
        self.scheduled = False
        self.n_spawned = 0
        self.points = None      # the interactions at which another task may run; None: all
        self.loop = VLoop(self)
        self.clock = _Clock(self) if boot.HAVE_TWISTED else None
        _W[0] = self
        boot.reactor_proxy.__class__.current = self.clock
        boot.Rand.current = self.rand

    # -- nondeterminism that is not a choice
    def fresh(self):
        self._fresh += 1
        return self._fresh

    def cancellation(self):
        """What a cancelled call sees."""
        return asyncio.CancelledError()

    def now(self):
        return self.loop.vtime + 1000000

    def on_time(self, dt):
        if self.clock is not None:
            self.clock.clock.advance(dt)

    # -- the single point through which everything goes
    async def env(self, node, token, op, args, effect, write=False):
        self.n_env += 1
        if self.n_env > ENV_BUDGET:
            raise Runaway("an operation does not come to an end")
        if token not in self.alive:
            raise Crash()
        if self.scheduled and (self.points is None or op in self.points):
            await self.point((node.jid, op))
            if token not in self.alive:
                raise Crash()
        if self.monitor is not None:
            self.monitor(node, op, args)
        late = None
        if self.fault is not None:
            what = self.fault(node, op, args, write)
            if what == "fail":
                raise FAULTS.get(op, StorageException)("injected failure")
            if what == "crash":
                self.alive.discard(token)
                raise Crash()
            if what == "late":
                late = FAULTS.get(op, StorageException)("injected failure after the fact")
            elif isinstance(what, tuple):
                late = what[1]
            elif isinstance(what, BaseException):
                raise what
        result = effect()
        if self.after is not None:
            self.after(node, op, args, result)
        if late is not None:
            raise late
        if self.scheduled == 2 and (self.points is None or op in self.points):
            await self.point((node.jid, op + "'"))
        return result

    async def point(self, label):
        fut = self.loop.create_future()
        task = asyncio.current_task()
        self.pending.append((getattr(task, "_vf_no", 99), label, fut))
        await fut

    def release_one(self):
        self.pending.sort(key=lambda p: (p[0] != self.last, p[0]))
        k = 0
        if len(self.pending) > 1 and self.switches > 0:
            k = self.ch.choose(len(self.pending), "run")
        if k != 0 and self.pending[0][0] == self.last:
            self.switches -= 1
        no, label, fut = self.pending.pop(k)
        self.last = no
        self.schedule.append((no, label[1]))
        self.n_points += 1
        fut.set_result(None)

    # -- running things
    def call(self, node, coro):
        self.current = node
        try:
            try:
                value = self.loop.run_until_complete(coro)
                out = Outcome("ok", value, None)
            except Crash as e:
                out = Outcome("crash", None, e)
            except Runaway as e:
                raise Violation(str(e))
            except Violation:
                raise
            except asyncio.CancelledError as e:
                out = Outcome("cancelled", None, e)
            except Exception as e:
                out = Outcome("exc", None, e)
        finally:
            self.current = None
        if out.kind == "crash":
            node.kill()
        self.account()
        self.raise_flags()
        return out

    def digest(self):
        nodes = []
        for jid in sorted(self.nodes):
            d = self.nodes[jid].disk
            nodes.append((jid, frozenset(d.kv.items()), tuple(
                (ns, b["spk"], b["spk_old"], b["vis"], b["hid"], repr(sorted(b["sessions"].items())))
                for ns, b in sorted(d.backends.items()) if isinstance(b, dict) and "spk" in b)))
        return hash((tuple(nodes), repr(sorted(self.lists.items())), frozenset(self.bundles.items()), len(self.sent)))

    def account(self):
        if self.ctx is not None:
            self.ctx.step(self.n_env - self._steps)
            self._steps = self.n_env
            self.ctx.states.add(self.digest())

    def together(self, calls, bound, phases=1):
        """Run several coroutines concurrently, every interleaving with at most `bound` preemptions."""
        self.switches, self.last, self.n_points = bound, None, 0
        self.pending, self.spawned, self.spawned_results, self.schedule = [], [], [], []

        async def begin(node, coro):
            await self.point((node.jid, "begins"))
            return await coro

        async def main():
            ts = []
            for i, (node, coro) in enumerate(calls):
                self.current = node
                t = self.loop.create_task(begin(node, coro))
                t._vf_no = i
                ts.append(t)
            self.current = None
            res = await asyncio.gather(*ts, return_exceptions=True)
            while self.spawned:
                self.spawned_results += await asyncio.gather(*self.spawned.pop(0), return_exceptions=True)
            return res
        self.scheduled = phases
        try:
            try:
                res = self.loop.run_until_complete(main())
            except Runaway as e:
                raise Violation(str(e))
        finally:
            self.scheduled = False
        self.account()
        self.raise_flags()
        for r in res + self.spawned_results:
            if isinstance(r, Violation):
                raise r
        return [Outcome("crash", None, r) if isinstance(r, Crash) else
                Outcome("exc", None, r) if isinstance(r, BaseException) else Outcome("ok", r, None) for r in res]

    def spawn(self, node, coro):
        """Within `together`: another call of the application on the same node starts now."""
        self.current, saved = node, self.current
        t = self.loop.create_task(coro)
        self.current = saved
        self.n_spawned += 1
        t._vf_no = 10 + self.n_spawned
        self.spawned.append([t])

    def spin(self):
        """Let background tasks run until they wait for time."""
        async def nop():
            for _ in range(200):
                await asyncio.sleep(0)
                if not self.loop._ready:
                    break
        self.loop.run_until_complete(nop())
        self.raise_flags()

    def advance(self, seconds):
        self.loop.run_until_complete(asyncio.sleep(seconds))
        self.account()
        self.raise_flags()

    def stop_tasks(self, node):
        mine = [t for t in self.tasks if getattr(t, "_vf_node", None) is node and not t.done()]
        for t in mine:
            t.cancel()
        self.tasks = [t for t in self.tasks if not t.done() and t not in mine]
        if mine:
            async def nop():
                await asyncio.sleep(0)
            try:
                self.loop.run_until_complete(nop())
            except BaseException:
                pass
        if self.clock is not None and node.framework is omemo.AsyncFramework.TWISTED:
            for c in list(self.clock.getDelayedCalls()):
                c.cancel()

    def flag(self, message, sig=None):
        self.flags.append((message, sig))

    def raise_flags(self):
        if self.flags:
            message, sig = self.flags[0]
            raise Violation(message, sig)

    def close(self):
        for t in self.tasks:
            if not t.done():
                t._log_destroy_pending = False
        for n in self.nodes.values():
            if n.token is not None:
                self.alive.discard(n.token)
        for t in self.tasks:
            if not t.done():
                t.cancel()
        try:
            self.loop.run_until_complete(asyncio.sleep(0))
        except BaseException:
            pass
        self.loop.close()


# ------------------------------------------------------------------------------------------------ remote devices

LONG_LABEL = "Ger\u00e4t \U0001f511 / " + "x" * 300 + " "


def spread(n):
    """n device ids across the whole range, with both ends of it."""
    return [1 + i * (2 ** 31 - 2) // (n - 1) for i in range(n)]


def ik_of(i):
    """Arbitrary, distinct 32 byte identity keys; their base64 form contains the characters that differ between
    alphabets, and different keys share prefixes."""
    return bytes([0xfb, 0xff, 0xfe, 0x3e]) * 7 + bytes([0xfb, 0xff, i & 0xff, 0xff - (i & 0xff)])


class Peer:
    """A remote device that follows the protocol but is not the code under test."""

    def __repr__(self):
        return f"{self.jid}/{self.dev}"

    def __init__(self, world, jid, dev, ik, namespaces=("n1",), label=None):
        self.w, self.jid, self.dev, self.ik, self.label = world, jid, dev, ik, label
        self.cores = {}
        for ns in namespaces:
            c = Core(world, ns, Core.fresh(world), ik)
            c.generate(100)
            self.cores[ns] = c

    def publish(self, namespaces=None, listed=True):
        for ns in (namespaces or self.cores):
            self.w.bundles[(ns, self.jid, self.dev)] = self.cores[ns].bundle(self.jid, self.dev)
            if listed:
                self.w.lists.setdefault((ns, self.jid), {})[self.dev] = self.label
        return self

    def build(self, ns, node_jid, node_dev, bundle=None):
        """Actively start a session with a device of the library; returns (session, first ekm, key)."""
        c = self.cores[ns]
        b = bundle or self.w.bundles[(ns, node_jid, node_dev)]
        k = self.w.fresh()
        s, ekm = c.active(node_jid, node_dev, b, PKM(k))
        c.save(s)
        return s, ekm, k

    def message(self, ns, node_jid, node_dev, plaintext=b"hi", pk=None, fresh_session=False, extra_keys=()):
        """Encrypt one message for a device of the library, as a compliant client would."""
        c = self.cores[ns]
        s = None if fresh_session else c.load(node_jid, node_dev)
        k = self.w.fresh()
        if s is None:
            b = self.w.bundles[(ns, node_jid, node_dev)]
            if pk is not None:
                b = b.replace(pks={pk})
            s, ekm = c.active(node_jid, node_dev, b, PKM(k))
        else:
            ekm = c.encrypt(s, PKM(k))
        kex = s.kex if s.role == "I" and not s.conf else None
        c.save(s)
        return omemo.Message(ns, self.jid, self.dev, Content(k, k, plaintext),
                             frozenset({(ekm, kex)} | set(extra_keys)))

    def receive(self, message):
        """Decrypt a message of the library; returns plaintext (None: empty). Raises like a backend."""
        c = self.cores[message.namespace]
        for ekm, kex in message.keys:
            if ekm.bare_jid == self.jid and ekm.device_id == self.dev:
                break
        else:
            raise LookupError("not for this device")
        s = c.load(message.bare_jid, message.device_id)
        if kex is not None and not (s is not None and s.role == "R" and s.kex.builds_same_session(kex)):
            s, pkm = c.passive(message.bare_jid, message.device_id, kex, ekm)
            c.d["vis"] = c.d["vis"] - {kex.pk}
        else:
            if s is None:
                raise DecryptionFailed("no session")
            pkm = c.decrypt(s, ekm)
        c.save(s)
        if message.content._t[1] != pkm.key:
            raise DecryptionFailed("content")
        return message.content._t[2]


def ekms(message):
    return {(e.bare_jid, e.device_id): (e, k) for e, k in message.keys}


# ------------------------------------------------------------------------------------------------ faults

NO_FAULT = frozenset({"trust_eval", "be.spk_age"})


class Faults:
    """Any of the next interactions of `node` may go wrong, at most `budget` of them; the explorer decides which.

    kinds: "fail" (the operation fails, no effect), "late" (it takes effect, but a failure is reported), "crash" (the
    process dies instead of a write)."""

    def __init__(self, world, node, budget=1, kinds=("fail", "crash"), only=None):
        self.w, self.node, self.budget, self.kinds, self.only = world, node, budget, kinds, only
        self.hits = []
        world.fault = self

    def __call__(self, node, op, args, write):
        if self.budget <= 0 or node is not self.node or op in NO_FAULT:
            return None
        if self.only is not None and not self.only(op, args, write):
            return None
        options = [None]
        if "fail" in self.kinds:
            options.append("fail")
        if "late" in self.kinds and write and op in NETWORK:
            options.append("late")
        if "crash" in self.kinds and write:
            options.append("crash")
        if len(options) == 1:
            return None
        what = self.w.ch.pick(options, f"{op} {args.get('key', args.get('ns', ''))}")
        if what is not None:
            self.budget -= 1
            self.hits.append((op, what))
        return what

    def stop(self):
        self.budget = 0
        self.w.fault = None


def scenario(f):
    """Wrap f(w, ch, ctx) into an explorable scenario with a fresh world."""
    def run(ch, ctx):
        w = World(ch, ctx)
        try:
            f(w, ch, ctx)
        finally:
            w.close()
    run.__name__ = f.__name__
    return run
