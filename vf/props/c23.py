"""C23: blind trust (example) ends with the first manual decision."""
import importlib.util
import os

import omemo

from .. import boot
from ..env import Node, Peer, scenario, ik_of, exc_name, ekms, _W, sm_class
from ..enc import OWN
from ..explore import Violation

PROP = "C23"
BOUNDS = {
    "quick": "all assignments of the 4 trust levels to three devices of one account and one of another and of the own account, "
             "one of them inactive or none, every answer of the prompt; followed by another device appearing",
    "thorough": "the same with two devices of the own account and unrecorded instead of explicit undecided levels"
}
ASSUMPTIONS = ["all stored trust levels are levels of this trust system"]
B, C = "a@x.b", "a@x.bc"
LEVELS = ("UNDECIDED", "BLINDLY_TRUSTED", "TRUSTED", "DISTRUSTED")
_spec = importlib.util.spec_from_file_location("vf_btbv", os.path.join(boot.REPO, "examples", "btbv_session_manager.py"))
btbv = importlib.util.module_from_spec(_spec)
_spec.loader.exec_module(btbv)


class Manager(btbv.BTBVSessionManager, sm_class(OWN)):
    async def _devices_blindly_trusted(self, blindly_trusted, identifier):
        _W[0].nodes[OWN].told.append((blindly_trusted, identifier))

    async def _prompt_manual_trust(self, manually_trusted, identifier):
        n = _W[0].nodes[OWN]
        n.asked.append((manually_trusted, identifier))
        for d in manually_trusted:
            if n.answer is not None:
                await self.set_trust(d.bare_jid, d.identity_key, n.answer)


def run_one(own_devices, explicit):
    @scenario
    def run(w, ch, ctx):
        node = Node(w, OWN, ["n1"])
        node.cls, node.told, node.asked = Manager, [], []
        node.must_start()
        node.maybe_live(ch)
        keys = [(B, 1), (B, 2), (B, 3), (C, 1)] + [(OWN, 5 + i) for i in range(own_devices)]
        peers, level = {}, {}
        for i, k in enumerate(keys):
            peers[k] = Peer(w, k[0], k[1], ik_of(1 if k[1] == 1 else i + 1), ("n1",)).publish()
        for jid in (B, C, OWN):
            node.ok(node.sm.refresh_device_lists(jid))
            node.ok(node.sm.get_device_information(jid))
        for k in keys:
            level[k] = ch.pick(LEVELS, f"{k}")
            if level[k] != "UNDECIDED" or explicit:
                node.ok(node.sm.set_trust(k[0], peers[k].ik, level[k]))
        gone = ch.pick((None, (B, 2), (C, 1)), "inactive")
        if gone is not None:
            del w.lists[("n1", gone[0])][gone[1]]
            node.ok(node.sm.update_device_list("n1", gone[0], w.lists[("n1", gone[0])]))
        node.answer = ch.pick(("TRUSTED", "DISTRUSTED", None), "answer of the prompt")

        def one(what):
            node.told.clear(), node.asked.clear()
            before = dict(level)
            eligible = [k for k in keys if k != gone]
            undecided = [k for k in eligible if level[k] == "UNDECIDED"]
            blind, manual = set(), set()
            for k in undecided:
                others = [before[o] for o in keys if o[0] == k[0]]
                (blind if all(x in ("UNDECIDED", "BLINDLY_TRUSTED") for x in others) else manual).add(k)
            out = node.call(node.sm.encrypt(frozenset({B, C}), {"n1": b"x"}, None, "ident"))
            for name, calls, want in (("blind trust", node.told, blind), ("manual prompt", node.asked, manual)):
                got = [({(d.bare_jid, d.device_id) for d in ds}, i) for ds, i in calls]
                if got != ([(want, "ident")] if want else []):
                    raise Violation(f"{what}: {name} for {got}, expected {sorted(want)}")
            for k in blind:
                level[k] = "BLINDLY_TRUSTED"
            if node.answer is not None:
                for k in manual:
                    level[k] = node.answer
            for jid in (B, C, OWN):
                for d in node.ok(node.sm.get_device_information(jid)):
                    k = (jid, d.device_id)
                    if k in level and d.trust_level_name != level[k]:
                        raise Violation(f"{what}: {k} is {d.trust_level_name}, expected {level[k]} (was {before[k]})")
            targets = {k for k in eligible if level[k] in ("TRUSTED", "BLINDLY_TRUSTED")}
            if manual and node.answer is None:
                if exc_name(out) != "StillUndecided":
                    raise Violation(f"{what}: {out} although a device is undecided")
            elif {B, C} - {k[0] for k in targets}:
                if exc_name(out) != "NoEligibleDevices":
                    raise Violation(f"{what}: {out} although a recipient has no trusted device")
            else:
                if out.kind != "ok" or out.value[1]:
                    raise Violation(f"{what}: encryption failed: {out}")
                m, = out.value[0]
                if set(ekms(m)) != targets:
                    raise Violation(f"{what}: encrypted for {sorted(ekms(m))}, trusted are {sorted(targets)}")
            return blind, manual
        r = one("first")
        ctx.outcome(f"blind {len(r[0])} manual {len(r[1])}")
        # Another device shows up.
        k = (B, 4)
        keys.append(k)
        peers[k] = Peer(w, B, 4, ik_of(44), ("n1",)).publish()
        level[k] = "UNDECIDED"
        node.ok(node.sm.refresh_device_lists(B))
        one("new device")
    return run


def scenarios(tier):
    if tier == "quick":
        return [("levels", run_one(1, True))]
    return [("levels", run_one(2, True)), ("unrecorded", run_one(2, False))]
