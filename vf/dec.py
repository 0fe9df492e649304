"""Helpers for decryption checks."""
import copy

from .env import Core


def observe(w, node):
    """Everything a refused message must leave alone."""
    return copy.deepcopy((
        {ns: (d["spk"], d["vis"], d["hid"], d["sessions"]) for ns, d in node.disk.backends.items()},
        {k: v for k, v in w.bundles.items() if k[1] == node.jid and k[2] == node.device_id},
        len(w.sent)
    ))


def pending_replies(w, node):
    """How many automatic replies would go out if catch-up ended now. Changes the node; call last."""
    n = len(w.sent)
    node.sm.before_history_sync()
    node.ok(node.sm.after_history_sync(), "after_history_sync")
    return [(m, to) for _, m, to in w.sent[n:]]
