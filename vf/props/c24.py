"""C24: the fingerprint of an identity key is its Curve25519 form, in eight groups of eight digits."""
import hashlib

import omemo

from ..env import Node, Peer, scenario
from ..enc import OWN
from ..explore import Violation

PROP = "C24"
BOUNDS = {
    "quick": "all identity keys that are a multiple 1 to 2048 of the base point and all those of seeds with a single nonzero "
             "byte, both signs of each; fingerprints of own and other devices as shown by two instances",
    "thorough": "multiples up to 65536, seeds with two adjacent nonzero bytes out of 16 values"
}
ASSUMPTIONS = ["the conversion to Curve25519 is the map of RFC 7748, computed here independently of the library"]
P = 2 ** 255 - 19
D = -121665 * pow(121666, P - 2, P) % P
L = 2 ** 252 + 27742317777372353535851937790883648493
BY = 4 * pow(5, P - 2, P) % P
BX = 15112221349535400772501151409588531511454012693041857206046113283949847762202
B = (BX, BY, 1, BX * BY % P)


def add(a, b):
    x1, y1, z1, t1 = a
    x2, y2, z2, t2 = b
    e, f = (y1 - x1) * (y2 - x2) % P, (y1 + x1) * (y2 + x2) % P
    c, d = 2 * t1 * t2 * D % P, 2 * z1 * z2 % P
    e, f, g, h = f - e, d - c, d + c, f + e
    return e * f % P, g * h % P, f * g % P, e * h % P


def mul(k, a=B):
    out = (0, 1, 1, 0)
    while k:
        if k & 1:
            out = add(out, a)
        a, k = add(a, a), k >> 1
    return out


def affine(a):
    z = pow(a[2], P - 2, P)
    return a[0] * z % P, a[1] * z % P


def encode(x, y):
    return (y | (x & 1) << 255).to_bytes(32, "little")


def reference(y):
    return ((1 + y) * pow(1 - y, P - 2, P) % P).to_bytes(32, "little").hex()


def compare(x, y, what):
    shown = []
    for sx in (x, P - x):
        groups = omemo.SessionManager.format_identity_key(encode(sx, y))
        if not isinstance(groups, list) or len(groups) != 8 or any(not isinstance(g, str) or len(g) != 8 for g in groups):
            raise Violation(f"{what}: the fingerprint is not eight groups of eight digits: {groups}")
        if any(c not in "0123456789abcdef" for g in groups for c in g):
            raise Violation(f"{what}: the fingerprint has other characters than lowercase hex digits: {groups}")
        if "".join(groups) != reference(y):
            raise Violation(f"{what}: fingerprint {groups}, the Curve25519 form of the key is {reference(y)}")
        shown.append(groups)
    return "".join(shown[0])


def multiples(top, block=128):
    @scenario
    def run(w, ch, ctx):
        start = ch.pick(list(range(1, top, block)), "first multiple")
        a, seen = mul(start), set()
        for k in range(start, start + block):
            s = compare(*affine(a), f"multiple {k} of the base point")
            if s in seen:
                raise Violation(f"multiple {k} of the base point shares its fingerprint with another key")
            seen.add(s)
            a = add(a, B)
        ctx.state(start)
        ctx.outcome(f"{len(seen)} fingerprints")
    return run


def from_seed(seed):
    h = bytearray(hashlib.sha512(seed).digest()[:32])
    h[0] &= 248
    h[31] = h[31] & 127 | 64
    return affine(mul(int.from_bytes(h, "little") % L))


def seeds(values, width):
    @scenario
    def run(w, ch, ctx):
        pos = ch.pick(list(range(32)), "position")
        first = ch.pick(values[0], "first value") if width == 2 else None
        seen = set()
        for v in values[-1]:
            s = bytearray(32)
            s[pos] = v
            if width == 2:
                s[(pos + 1) % 32] = first
            s = compare(*from_seed(bytes(s)), f"seed {bytes(s).hex()}")
            if s in seen:
                raise Violation("two keys share a fingerprint")
            seen.add(s)
        ctx.state((pos, first))
        ctx.outcome(f"{len(seen)} fingerprints")
    return run


def shown(keys):
    """Two sides comparing fingerprints see the same digits exactly if they hold the same key."""
    @scenario
    def run(w, ch, ctx):
        k = ch.pick(keys, "key")
        node = Node(w, OWN, ["n1"], cache=ch.flag("cache")).must_start()
        ik = encode(*affine(mul(k)))
        Peer(w, "a@x.b", 1, ik).publish()
        Peer(w, "a@x.b", 2, encode(*affine(mul(k + 1)))).publish()
        Peer(w, "a@x.bc", 1, ik).publish()
        if ch.flag("restart"):
            node.must_start()
        for jid in ("a@x.b", "a@x.bc"):
            node.ok(node.sm.refresh_device_lists(jid))
        f = node.sm.format_identity_key
        info = {(d.bare_jid, d.device_id): "".join(f(d.identity_key)) for jid in ("a@x.b", "a@x.bc", OWN)
                for d in node.ok(node.sm.get_device_information(jid))}
        want = {("a@x.b", 1): reference(affine(mul(k))[1]), ("a@x.b", 2): reference(affine(mul(k + 1))[1]),
                ("a@x.bc", 1): reference(affine(mul(k))[1]),
                (OWN, node.device_id): reference(int.from_bytes(node.ik, "little") & (1 << 255) - 1)}
        if info != want:
            raise Violation(f"fingerprints {info} instead of {want}")
        ctx.outcome("compared")
    return run


def scenarios(tier):
    if tier == "quick":
        return [("multiples", multiples(2048)), ("seeds", seeds([range(1, 256)], 1)), ("shown", shown(range(1, 33)))]
    small = (1, 2, 3, 4, 8, 16, 32, 64, 127, 128, 129, 192, 224, 240, 254, 255)
    return [("multiples", multiples(65536)), ("seeds", seeds([range(1, 256)], 1)), ("seed-pairs", seeds([small, small], 2)),
            ("shown", shown(range(1, 513)))]
