"""Makes sure that `omemo` is what lies in /repo right now, and that nothing outside the harness is random.

Imported before anything else. No byte code is read from or written to /repo, so a check always sees the current
working tree.
"""
import hashlib
import logging
import os
import random
import secrets
import sys
import tempfile

REPO = os.environ.get("VF_REPO", "/repo")

sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "vf-no-such-pycache-prefix")
sys.path.insert(0, REPO)


class Rand:
    """Where all randomness of Python code comes from while a world is being explored."""

    current = None      # the source in use; None: the real thing

    def __init__(self):
        self.n = 0

    def token_bytes(self, n=None):
        self.n += 1
        out = hashlib.sha512(f"{self.n}".encode()).digest()
        n = 32 if n is None else n
        while len(out) < n:
            out += hashlib.sha512(out).digest()
        return out[:n]

    def randbelow(self, n):
        self.n += 1
        return int.from_bytes(hashlib.sha512(f"b{self.n}".encode()).digest()[:8], "big") % n

    def getrandbits(self, k):
        return int.from_bytes(self.token_bytes((k + 7) // 8), "big") >> (-k % 8)

    def random(self):
        return self.getrandbits(53) / (1 << 53)

    @classmethod
    def install(cls):
        def via(name, real):
            def f(*a):
                return getattr(cls.current, name)(*a) if cls.current is not None else real(*a)
            return f
        bits, real_urandom = random.SystemRandom(), os.urandom

        def method(name, real):
            def f(self, *a):
                return getattr(cls.current, name)(*a) if cls.current is not None else real(self, *a)
            return f
        secrets.token_bytes = via("token_bytes", secrets.token_bytes)
        secrets.randbelow = via("randbelow", secrets.randbelow)
        secrets.randbits = via("getrandbits", bits.getrandbits)
        os.urandom = random._urandom = via("token_bytes", real_urandom)
        for c in (random.SystemRandom, random.Random):
            for attr, name in (("_randbelow", "randbelow"), ("getrandbits", "getrandbits"), ("random", "random"),
                               ("randbytes", "token_bytes")):
                setattr(c, attr, method(name, getattr(c, attr)))
        for attr, name in (("getrandbits", "getrandbits"), ("random", "random"), ("randbytes", "token_bytes")):
            setattr(random, attr, via(name, getattr(random, attr)))


Rand.install()


class _ReactorProxy:
    """Stands in for the Twisted reactor; the current world decides which virtual clock it is."""

    current = None

    def callLater(self, *a, **k):  # noqa: N802
        return type(self).current.callLater(*a, **k)

    def seconds(self):
        return type(self).current.seconds()

    def callWhenRunning(self, f, *a, **k):  # noqa: N802
        return type(self).current.callLater(0, f, *a, **k)

    def getDelayedCalls(self):  # noqa: N802
        return type(self).current.getDelayedCalls()


reactor_proxy = _ReactorProxy()

try:
    import twisted.internet
    from zope.interface import directlyProvides
    from twisted.internet import interfaces as _ti
    directlyProvides(reactor_proxy, _ti.IReactorTime)
    sys.modules["twisted.internet.reactor"] = reactor_proxy
    twisted.internet.reactor = reactor_proxy
    HAVE_TWISTED = True
except ImportError:  # pragma: no cover
    HAVE_TWISTED = False

import omemo  # noqa: E402
import omemo.storage, omemo.session_manager, omemo.backend, omemo.identity_key_pair  # noqa: E402,E401

if not os.path.realpath(omemo.__file__).startswith(os.path.realpath(REPO) + os.sep):
    raise SystemExit(f"omemo was imported from {omemo.__file__}, not from {REPO}")

logging.disable(logging.CRITICAL)

# Pure functions, memoized: the same few keys are derived in every execution.
import functools  # noqa: E402
import xeddsa.bindings as _x  # noqa: E402
for _n in ("seed_to_ed25519_pub", "priv_to_ed25519_pub", "seed_to_priv"):
    setattr(_x, _n, functools.lru_cache(maxsize=4096)(getattr(_x, _n)))
