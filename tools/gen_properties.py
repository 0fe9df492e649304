"""Writes properties.jsonl. The statements live here so that they stay readable and diffable."""
import json, pathlib

SM = "omemo/session_manager.py"
P = []


def prop(id, title, statement, over, quant, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


prop("C01", "Content is only encrypted for identity keys that are currently trusted",
     "Whatever the device lists, published bundles, existing sessions, stored trust levels and answers of the trust-decision callback are, every key in the messages returned by an encryption belongs to an identity key that evaluates to trusted for that account when the encryption returns, and a session that the encryption builds is bound to exactly the identity key that is shown and trusted for that device, even if the server hands out a bundle with another key. "
     "Undecided identity keys of eligible devices (own other devices included) are submitted to the trust-decision callback in one single call that contains exactly those devices, with the caller's identifier passed through; if one of them is still undecided afterwards, or the callback fails, the encryption fails with the documented error and neither returns a message nor changes a stored session.",
     ["inputs", "histories", "configurations"],
     "all combinations of per-device trust level, decision-callback answer, identity-key/bundle relation and session presence for up to three devices over two accounts and two backends, and all operation sequences of trust changes and encryptions up to the stated depth",
     "The two existing tests only encrypt with a callback that trusts everything and an honest server; no test has a distrusted or undecided device, a callback that refuses, or a bundle whose key differs from the known one.",
     [SM, "omemo/types.py"],
     [("trust filtering, decision query and re-evaluation in SessionManager.encrypt", SM),
      ("identity key comparison before session building", SM)],
     [("trust store", "custom trust level per bare JID and identity key", SM)],
     ["SessionManager.encrypt", "SessionManager._make_trust_decision", "Backend.build_session_active"])

prop("C02", "Encryption reaches exactly the eligible devices, once each, by priority",
     "An encryption returns at most one message per namespace and, over all messages, key material for exactly the trusted devices of the recipients and of the own account, other than this device, that are active under a usable namespace: each exactly once, under the first namespace of the effective priority order the device is active in, in a message carrying the plaintext given for that namespace. "
     "A device whose bundle cannot be downloaded, does not exist or cannot be used for a key exchange is reported in the returned error set with its namespace and does not affect any other device; sessions are started with the keys published at that time. "
     "If a recipient other than the own account is left without a single device, the call fails naming exactly those recipients and stores nothing; a priority order naming an unavailable namespace is rejected.",
     ["inputs", "configurations", "fault_sequences"],
     "all device/namespace activity patterns, priority orders, session patterns and bundle failure patterns for up to three devices over two recipients plus own devices and two backends",
     "The existing tests have one recipient with one device and never an inactive device, a second own device, a failing bundle or more than one candidate namespace.",
     [SM],
     [("recipient filtering, priority application and error collection in SessionManager.encrypt", SM)],
     [("activity flags", "per device and namespace, whether listed in the latest device list", SM)],
     ["SessionManager.encrypt"])

prop("C03", "No ratchet key position is released twice, whatever fails or crashes",
     "Over any history of encryptions, automatic replies, network and storage failures, crashes and restarts, with calls made one after the other (C25 is about overlapping ones), no two released messages (returned to the caller or handed to the transport) are encrypted at the same position of the same session: a message of an encryption or automatic reply is released only when the advanced session has been persisted. "
     "An encryption that fails for any reason other than storage leaves every persisted session as it was, and one that returns has persisted the session of every key it returned.",
     ["crash_points", "fault_sequences", "histories"],
     "every single failure (quick) and pair of failures (thorough) and every crash point among the interactions of a history of encryptions and key exchange replies",
     "No test injects a failure or a crash; reuse becomes visible only when the process dies or storage fails between two particular steps.",
     [SM],
     [("sessions stored as the final step before returning from encrypt", SM),
      ("session persisted before an empty message is sent", SM)],
     [("persisted session", "sending chain position per device", "backend storage")],
     ["SessionManager.encrypt", "SessionManager._send_message", "Backend.store_session"])

prop("C04", "Decryption only accepts content from known, non-distrusted, matching senders",
     "Decryption returns the sent plaintext (or nothing for an empty message) with the information of the sending device exactly if the namespace is loaded, the message holds key material for this device, the sending device is known or can be found by one refresh of its device list and its identity key is available, that key does not evaluate to distrusted (undecided is accepted), any attached key exchange carries exactly the known identity key, and the cryptography checks out. "
     "In every other case it fails with the documented error for that case and leaves sessions, pre keys, published data and queued or sent replies untouched.",
     ["inputs", "histories", "configurations"],
     "all combinations of namespace, addressing, sender knowledge, bundle availability, trust level, key exchange presence/identity, existing session kind, key material validity and content kind, in both history modes",
     "Existing tests only decrypt valid messages of trusted, known senders; the rejection paths and their lack of side effects are not exercised at all.",
     [SM],
     [("gate sequence in SessionManager.decrypt", SM), ("identity key comparison for key exchanges", SM)],
     [("session", "one stored session per device and namespace", "backend storage")],
     ["SessionManager.decrypt"])

prop("C05", "Every delivered message decrypts, under any order, loss, repetition, restart",
     "Between two devices that use the library, every message that is delivered for the first time decrypts to exactly what was encrypted, in whatever order messages arrive and whichever others are lost, repeated or delayed, across restarts and history synchronization on both sides; repeated deliveries are refused without harming the session (known exception: both sides starting a session with each other at the same time). "
     "Until an actively built session is confirmed by an incoming message, each message of it carries the key exchange; afterwards none does.",
     ["histories", "schedules"],
     "all interleavings of encryptions, deliveries, losses, duplications, restarts and synchronization mode changes of two complete session managers up to the stated number of steps",
     "The regression test exchanges messages strictly in order, without loss, duplication, restart or catch-up.",
     [SM, "omemo/message.py", "omemo/session.py"],
     [("key exchange attached while the active session is unconfirmed", SM),
      ("key exchanges that rebuild the stored session are recognised", SM),
      ("session stored after each en-/decryption", SM)],
     [("session", "initiation, confirmed flag and ratchet state", "omemo/session.py")],
     ["SessionManager.encrypt", "SessionManager.decrypt", "SessionManager._send_message"])

prop("C06", "Pre keys are one-time, held back in catch-up, refilled and republished",
     "A pre key consumed by a successfully decrypted key exchange is no longer part of the local or published bundle when that decryption returns; outside history synchronization it can never be used again, during history synchronization other key exchanges naming it still work until synchronization ends, at which point all held-back pre keys are gone. "
     "After each successful decryption and after setup of a backend the number of offered pre keys is above the configured refill threshold and at most 100 (a refill restores exactly 100 and happens only when the number is at or below the threshold), and the published bundle equals the local one.",
     ["histories", "configurations"],
     "all sequences of key exchanges from several senders naming the same or different pre keys, follow-ups, mode switches and restarts up to the stated depth, for several thresholds",
     "Existing tests consume at most one pre key per backend, never in synchronization mode, with one threshold, and never look at the pre keys or the published bundle.",
     [SM],
     [("pre key hiding/deletion and refill after key exchanges in decrypt", SM),
      ("hidden pre keys deleted in after_history_sync", SM)],
     [("synchronizing flag", "history synchronization mode", SM), ("pre keys", "visible and hidden pre keys", "backend storage")],
     ["SessionManager.decrypt", "SessionManager.after_history_sync", "Backend.get_bundle", "SessionManager._upload_bundle"])

prop("C07", "Automatic empty replies go out exactly when needed, once per session",
     "Outside history synchronization a successfully decrypted message triggers exactly one empty message to the sending device if it carried a key exchange or left the receiving chain longer than 53, and none otherwise; it is addressed to that account and encrypted for that device in the same namespace, independent of trust, and carries a key exchange only if the session is actively built and unconfirmed. "
     "During history synchronization no empty message is sent; when synchronization ends exactly one is sent for each session that became due since (also before a restart), provided the session still exists (if sending one of them fails, the others are still sent and the failure is reported), and a session is not served twice, also if the process dies meanwhile.",
     ["histories", "schedules"],
     "all sequences of key exchange, plain and chain-advancing messages from several devices and namespaces, mode switches, restarts and session removals up to the stated depth, including every receiving chain length around the limit",
     "The existing test sees only immediate replies to key exchanges; queueing, deduplication, restart survival and the chain limit are untested.",
     [SM],
     [("reply/queue decision at the end of decrypt", SM), ("queue drain in after_history_sync", SM)],
     [("queue", "per namespace and account, device ids with a pending empty message", SM)],
     ["SessionManager._send_message", "SessionManager.decrypt", "SessionManager.after_history_sync"])

prop("C08", "Device information is the exact merge of all device-list updates",
     "For every history of device-list updates and refreshes over accounts and namespaces, device information reports every device ever listed for the account (if its identity key is known or obtainable), with exactly the namespaces it was ever listed under, active precisely for those whose latest list contains it, and the last label any list gave it (an absent label does not erase one); the identity key of a device never changes once known, updates for other accounts and for namespaces that are not loaded have no effect, and the caller's list is not modified. "
     "If an update is interrupted at any storage write, device information stays available and applying the same list again gives the same result as an uninterrupted update.",
     ["histories", "crash_points"],
     "all sequences of updates drawn from all small lists over two accounts and two namespaces, with queries, trust changes, bundle outages and restarts in between, and a crash at every storage write",
     "Existing tests perform one refresh per namespace and never a second, different list.",
     [SM],
     [("update_device_list merging", SM), ("device list stored last", SM), ("identity key caching in device information", SM)],
     [("device records", "namespaces, activity, label, identity key per device", SM)],
     ["SessionManager.get_device_information", "SessionManager.update_device_list"])

prop("C09", "This device stays in its published device lists with its label",
     "Whenever a device-list update or refresh for the own account in a loaded namespace lacks this device, the list is republished with all its entries plus this device under its current label, and this device stays active locally; lists that contain it, and lists of other accounts, never cause a publication. "
     "Changing the own label republishes, for every loaded namespace, the current online list with only this device's label changed, and the own label is reported locally; a failed publication is reported to the caller, a list that lacks this device is repaired by the next refresh, and repeating a failed label change completes it.",
     ["histories", "inputs", "fault_sequences"],
     "all sequences of own-account list updates over all small lists, label changes, refreshes and upload/download failures for two namespaces up to the stated depth",
     "Existing tests only see the initial publication of an empty list.",
     [SM],
     [("own device re-added in update_device_list", SM), ("set_own_label", SM)],
     [("online device list", "published per namespace", "XMPP server")],
     ["SessionManager._upload_device_list", "SessionManager.update_device_list", "SessionManager.set_own_label"])

prop("C10", "Setup publishes everything or can be resumed, never a half-made device",
     "If setup (first run, a backend added, a backend removed) fails or the process dies at any interaction with storage, server or backend, then repeating it until it succeeds ends in the same kind of state as an undisturbed setup: every loaded backend has 100 pre keys, its bundle is published and the device is listed in its device list, and the device is withdrawn from the lists of removed backends. "
     "At every intermediate point, a published device list names this device only if its bundle for that namespace is online, and entries of other devices are never lost.",
     ["crash_points", "fault_sequences", "configurations"],
     "every failure and crash point of every setup transition between backend sets, with one (quick) and two (thorough) successive interruptions",
     "Existing tests only run one undisturbed first-run setup.",
     [SM],
     [("initialization order in SessionManager.create", SM), ("device list updated last", SM)],
     [("own device record", "namespaces initialised for this device", SM)],
     ["SessionManager.create", "XMPP server state"])

prop("C11", "One stable identity key and one unique device id, shared by all backends",
     "The device id generated on first run lies in the allowed range and differs from every id in the own account's published device lists of all loaded backends; from then on device id and identity key are the same in every published bundle, device list entry, sent message and device information, across all backends, restarts and backend changes. "
     "The stored identity secret (seed or private key) always yields the same public key as before, and an interrupted first generation is completed by the next start.",
     ["inputs", "histories", "crash_points"],
     "all subsets of already taken ids in a small id range, all restart/backend-change sequences up to the stated depth, a crash at every storage write of the first start, and both kinds of identity secret",
     "Existing tests never have taken ids, restart, or look at the identity.",
     [SM, "omemo/identity_key_pair.py"],
     [("device id generation in create", SM), ("IdentityKeyPair.get", "omemo/identity_key_pair.py")],
     [("identity secret", "seed or private key", "omemo/identity_key_pair.py"), ("own device id", "persisted on first run", SM)],
     ["SessionManager.create", "IdentityKeyPair.get", "published bundles"])

prop("C12", "Trust belongs to account and identity key; the latest setting wins",
     "The trust level reported and used for a device is the one most recently set for its account and identity key, or the configured undecided level if none was set: it is shared by all devices and namespaces of that account using the same identity key, independent of other accounts with the same key, and unaffected by device-list updates, encryption, decryption and restarts. "
     "Trust may be set before a device with that key is ever seen.",
     ["histories"],
     "all sequences of trust settings for two accounts and two keys, list updates, queries, messages and restarts up to the stated depth",
     "Existing tests only ever set one key to trusted once.",
     [SM],
     [("set_trust and the trust lookups", SM)],
     [("trust store", "custom trust level per bare JID and identity key", SM)],
     ["SessionManager.get_device_information", "SessionManager.set_trust"])

prop("C13", "Purging an account removes all of its data and nothing else",
     "After purging an account (other than the own one), its devices, identity keys, trust levels of its devices' keys and sessions in all loaded backends are gone from storage, so that it behaves like an account never seen before, while all data of other accounts, the own identity and the backends is unchanged. "
     "A purge interrupted at any point and repeated leaves the same result as an undisturbed one.",
     ["histories", "crash_points"],
     "all histories of list updates, trust settings and sessions for two accounts up to the stated depth followed by a purge, with a crash or storage failure at every step of the purge and a repetition",
     "No existing test purges anything.",
     [SM],
     [("purge_bare_jid", SM)],
     [("storage", "all keys mentioning the account", "omemo/storage.py")],
     ["SessionManager.purge_bare_jid", "storage content"])

prop("C14", "Storage reads return the latest completed write, cached or not",
     "For every sequence of loads, stores and deletes, with the cache on or off, a load returns exactly the value of the latest completed store (or nothing after a delete), equal to what the underlying medium holds, unaffected by later mutation of values passed in or returned, and failed operations change nothing; typed loads return the value or refuse a value of another type. "
     "Under every interleaving of overlapping operations on a key, once all have completed, loads agree with what the underlying medium holds, so nothing changes by restarting.",
     ["histories", "schedules", "inputs", "fault_sequences"],
     "all operation sequences up to the stated depth on two keys with a value alphabet covering every JSON shape, failures at every medium access, and all interleavings of up to three overlapping operations at the start and completion of each medium access",
     "The test storage disables the cache, so no test runs the caching code at all, and none overlaps operations.",
     ["omemo/storage.py"],
     [("Storage cache", "omemo/storage.py"), ("Maybe deep copies", "omemo/storage.py"), ("typed loads", "omemo/storage.py")],
     [("cache", "last known Maybe per key", "omemo/storage.py")],
     ["Storage.load*", "Storage.store*", "Storage.delete"])

prop("C15", "Signed pre keys rotate on schedule and every rotation is published",
     "While the library runs, each loaded backend's signed pre key is rotated once its age exceeds the configured period and no later than a minute after that became due (not counting time spent retrying an earlier publication), never earlier, and each rotation is followed by publishing the new bundle. "
     "A failed publication is retried after 60 seconds and then with doubled delays of at most one hour until it succeeds, during which no further rotation happens; this holds under asyncio and Twisted, and a backend that was purged in the meantime is neither rotated nor republished, nor does its data come back.",
     ["schedules", "fault_sequences", "configurations"],
     "all upload failure patterns up to the stated length, initial ages around the limit, two backends, both frameworks and a purge at every wake-up, in virtual time",
     "Tests end before the first rotation could happen; the background task never acts in them.",
     [SM],
     [("background signed pre key rotation loop", SM)],
     [("signed pre key age", "seconds since last rotation", "backend")],
     ["Backend.rotate_signed_pre_key", "SessionManager._upload_bundle", "virtual clock"])

prop("C16", "Manual session replacement is atomic per backend and notifies the peer",
     "Replacing the sessions of a device sends, for every loaded backend that has a session with it, one empty message carrying the key exchange of a new session and then makes the new session the stored one; backends without a session are not touched. "
     "If a step fails for a backend, the result maps that namespace to the failure, the old session stays stored and usable (unless storing itself failed), and the other backends are still processed; a bundle whose identity key is not the one known for the device is never used. The reported sending chain lengths of a device are those of its stored sessions, none where there is no session.",
     ["fault_sequences", "configurations", "crash_points"],
     "all session/backend patterns with a failure or crash at each interaction of the replacement",
     "No existing test replaces a session.",
     [SM],
     [("replace_sessions ordering: build, send, then store", SM)],
     [("session", "one stored session per device and namespace", "backend storage")],
     ["SessionManager.replace_sessions", "SessionManager._send_message", "Backend.store_session"])

prop("C17", "The consistency check restores the published data from any divergence",
     "Whatever the published device lists and bundle of this device look like (missing, stale, foreign content, failing downloads), a successful consistency check leaves, for every loaded backend, the published bundle equal to the local one and this device listed, with all other list entries preserved and the local device records updated from the lists; if nothing diverges it publishes nothing.",
     ["inputs", "fault_sequences"],
     "all combinations of list and bundle divergence for two backends, with a failure at each server interaction",
     "No existing test runs the consistency check.",
     [SM],
     [("ensure_data_consistency", SM)],
     [("online data", "device list and bundle per namespace", "XMPP server")],
     ["SessionManager.ensure_data_consistency", "XMPP server state"])

prop("C18", "Configuration limits are enforced exactly as documented",
     "A backend accepts a per-message skipped-key limit exactly if it is unset (then it equals the per-session limit), zero with a zero per-session limit, or between one and the per-session limit, and reports the configured values; setup accepts pre key refill thresholds from 25 to 99 only and at most one backend per namespace, and rejected settings raise a value error before anything is stored or published. Settings that are left out take their documented defaults: 1000 skipped keys, a rotation once a week, a refill after every used pre key, asyncio.",
     ["inputs", "configurations"],
     "all limit pairs and thresholds in and around the allowed ranges and all small backend lists with and without duplicates",
     "Existing tests only use the defaults.",
     ["omemo/backend.py", SM],
     [("Backend.__init__ validation", "omemo/backend.py"), ("argument validation in create", SM)],
     [],
     ["Backend constructor", "SessionManager.create"])

prop("C19", "Purging a backend withdraws this device first and leaves the rest intact",
     "Purging a namespace removes this device (and nothing else) from its published device list before any local or bundle data goes, deletes its bundle and, if the backend is loaded, its local data and the backend itself, after which operations in that namespace are refused; all other namespaces, devices, trust and sessions keep working unchanged. "
     "A failure or crash at any step never leaves this device listed in a published list without its bundle, and the purge can be repeated to completion.",
     ["crash_points", "fault_sequences", "configurations"],
     "all loaded/unloaded and online-state combinations for two backends with a failure or crash at each interaction",
     "No existing test purges a backend.",
     [SM],
     [("purge_backend ordering", SM)],
     [("own device record", "namespaces of this device", SM)],
     ["SessionManager.purge_backend", "XMPP server state"])

prop("C20", "Overlapping calls about unrelated accounts do not affect each other",
     "When two operations overlap that concern different accounts and share no session (device-list updates, device queries, trust changes, encryptions, decryptions of already established sessions, session replacements, purges of accounts; for the own account its list, label and consistency check), or that use or replace the established sessions of different devices of one account, under every interleaving of their storage, server and backend interactions both deliver the results, and leave the stored and published data, that they would when run one after the other. During history synchronization this includes first messages, whose replies are queued; known exception: two replies queued for the same namespace at the same time.",
     ["schedules"],
     "all pairs from the listed operations and all interleavings of their interactions up to the stated preemption bound",
     "Existing tests never run two calls at the same time.",
     [SM, "omemo/storage.py"],
     [("per-account storage keys and call-local state", SM)],
     [("session manager instance state", "shared between overlapping calls", SM)],
     ["all public coroutines"])

prop("C21", "A decryption that fails on the network can be repeated",
     "If a decryption fails because a server interaction failed (device list or bundle download, bundle upload, sending a reply), the same message still decrypts to the same plaintext when the call is repeated after the failure is over.",
     ["fault_sequences"],
     "every server interaction of decrypting each kind of message, failing once, in both history modes, followed by a repetition",
     "No existing test injects a network failure.",
     [SM],
     [("session persisted following successful decryption", SM)],
     [("session", "receiving chain state", "backend storage")],
     ["SessionManager.decrypt"])

prop("C22", "Data persisted by the released version stays readable",
     "A storage filled in the layout of the released version (which also the migration tool of the legacy backend writes) with any combination of identity secret, own device, known devices, namespaces, activity, labels, identity keys, trust levels and queued replies is loaded with exactly that meaning, and what the library writes follows the same layout; device records naming a namespace without activity information are repaired instead of failing.",
     ["inputs", "configurations"],
     "all combinations of small field domains of the persisted records",
     "The migration test loads one fixed data set and only decrypts one message.",
     [SM, "omemo/storage.py", "omemo/identity_key_pair.py"],
     [("storage keys used throughout the session manager", SM)],
     [("persisted records", "key/value layout", SM)],
     ["storage content", "SessionManager.get_device_information"])

prop("C23", "Blind trust (example) ends with the first manual decision",
     "In the shipped blind-trust-before-verification session manager, an undecided device is trusted blindly exactly if no known device of the same account was manually trusted or distrusted; all others are passed to the manual prompt in one call, and neither path touches devices that were already decided.",
     ["inputs"],
     "all trust level assignments over up to three devices of two accounts",
     "No existing test imports the example.",
     ["examples/btbv_session_manager.py"],
     [("BTBVSessionManager._make_trust_decision", "examples/btbv_session_manager.py")],
     [],
     ["SessionManager._make_trust_decision"])

prop("C24", "The fingerprint shown for a key identifies exactly that key",
     "The fingerprint of an identity key is eight groups of eight lowercase hexadecimal digits which together are the complete Curve25519 form of the key: it depends on the key alone, is the same for both signs of the Ed25519 form, and keys with different Curve25519 forms never share one. The keys shown in device information yield the same fingerprint on every device that knows them.",
     ["inputs"],
     "all identity keys that are small multiples of the base point or come from seeds with few nonzero bytes, within the stated bounds",
     "No existing test formats a key.",
     [SM],
     [("format_identity_key", SM)],
     [("identity key", "Ed25519 form, as stored and published", SM)],
     ["SessionManager.format_identity_key", "SessionManager.get_device_information"])

prop("C25", "Overlapping calls about one account end as if made one after the other",
     "When two calls about the same account overlap in time (device-list updates and refreshes, queries, trust changes, encryptions, decryptions, session replacements, label changes, the consistency check, the end of history synchronization, but no purge), then under every interleaving of their interactions both complete with a result they have in one of the two orders, and the stored, published and sent data in the end are those of one of the two orders (next to a list update: each part of it is that of one of them, except what a query that overlaps with it tells and leaves as namespaces and activity of the devices). "
     "Known exceptions: two calls that both change the device lists of the account, two that use the same session, two that touch the same queue of replies during history synchronization, and the replies queued by a decryption that began before the end of history synchronization and is overtaken by it.",
     ["schedules"],
     "all pairs from the listed operations and all interleavings of their interactions up to the stated preemption bound",
     "Existing tests never run two calls at the same time.",
     [SM, "omemo/storage.py"],
     [("read-modify-write sequences on storage", SM)],
     [("device records, trust levels, sessions", "of the account", SM)],
     ["all public coroutines about one account"])

prop("C26", "A call that fails says so, as documented, and can simply be repeated",
     "Whenever something goes wrong at an interaction of a public call (a failure of storage, server, transport, backend or trust callback of the documented kinds or a subclass the application defines, before or after the fact; or a cancellation), the call does not report success: it raises that very exception, or reports it where documented (encryption errors, result of a session replacement), or continues where documented (the bundle of a device whose identity key is not known is unavailable; SenderNotFound for a sender without bundle; an own bundle that cannot be downloaded is published again by the consistency check). No other exception escapes. "
     "Repeating the call, in the same process or after a restart, or restarting and repeating it after a crash, succeeds and leaves the stored data, published lists and bundles, and the kinds of sessions as if nothing had happened (repeated decryptions are C21, the end of history synchronization is C07, the data of a repeated first setup is C10).",
     ["fault_sequences", "crash_points"],
     "all listed calls in prepared situations, with every kind of failure, cancellation or crash at every one of their interactions",
     "Existing tests never let anything fail.",
     [SM, "omemo/storage.py"],
     [("exception handling and order of writes in all public coroutines", SM)],
     [("everything stored or published", "by the calls", SM)],
     ["all public coroutines"])

prop("C27", "Devices of one account keep each other listed, known and reachable",
     "When several devices of one account run the library, every one of them ends up in the published device list of every backend it has loaded, however their setups, label changes, refreshes, restarts, and the delivery of list pushes overlap, and even if another client publishes a list without them; they stop publishing. "
     "Every one of these devices and every contact then knows the same devices, with the right identity keys and activity and the published labels, and a message encrypted in a namespace reaches and is readable on all devices that have it loaded, own ones included. "
     "A device that purged a backend does not come back in its list.",
     ["histories", "schedules"],
     "two or three devices of one account and a contact, all running the library, with every order of delivering pushes and overlapping accesses to the published lists",
     "Existing tests never run two devices of one account.",
     [SM],
     [("update_device_list, refresh_device_list(s), set_own_label, create, ensure_data_consistency, purge_backend", SM)],
     [("published device lists", "read and overwritten by all devices of the account", SM)],
     ["create", "update_device_list", "refresh_device_lists", "set_own_label", "ensure_data_consistency", "purge_backend", "encrypt", "decrypt"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P))
