_T = "stateless model checking of the real code: "
_X = "exhaustive enumeration of "
NOTES = {
    "C01": (_T + _X + "device/trust/bundle/callback configurations", "all configurations of up to 3 remote and 1 own device within the stated alphabet, oracle: independent reference of who may be addressed"),
    "C02": (_T + _X + "activity/priority/bundle configurations", "all configurations of the stated alphabet, oracle: independent reference of the addressee set, namespace, error set and failure"),
    "C03": (_T + _X + "operation histories x fault and crash points", "every single fault/crash of all histories of 3 (quick); monitor on every released key and on what was persisted at that moment"),
    "C04": (_T + _X + "incoming message shapes x receiver states", "full product of the stated alphabet, oracle: decision table; refused messages must leave disk and server byte-identical"),
    "C05": (_T + _X + "network schedules of two real instances, conformance replay on twomemo/oldmemo", "all schedules of 6 operations on a symbolic ratchet; all schedules of 4 replayed on both real cryptographic backends and compared step by step; one known finding"),
    "C06": (_T + _X + "operation sequences", "all sequences of 4 (one namespace) and 3 (two) operations, oracle: reference of offered and held-back pre keys"),
    "C07": (_T + _X + "operation sequences, and of failing sends/crashes at the end of catch-up", "all sequences of 4 operations over 4 sessions, oracle: reference set of due replies"),
    "C08": (_T + _X + "device-list update sequences, and of interruption points", "all sequences within the stated depth, oracle: reference merge; every storage access of an update as interruption point"),
    "C09": (_T + _X + "list/label operation sequences with failing uploads", "all sequences of 3 operations, oracle: reference of the published lists"),
    "C10": (_T + _X + "interruption points of every setup transition", "every interaction as failure/late failure/crash point of 9 transitions; invariant on the server state at every step"),
    "C11": (_T + _X + "id allocations, operation sequences and interruption points", "all id collisions in a scaled-down id range; all sequences of 4; every interruption of the first start"),
    "C12": (_T + _X + "operation sequences", "all sequences of 3 operations, oracle: last-writer-wins map by account and key"),
    "C13": (_T + _X + "histories before a purge x interruption points of the purge", "all histories of 3, oracle: what is left equals what the other accounts own; behaves like never seen"),
    "C14": (_T + _X + "operation sequences and interleavings of storage operations", "all sequences of 4 on two keys, all interleavings of 3 overlapping operations; oracle: dictionary / the medium"),
    "C15": (_T + "virtual time, " + _X + "failure patterns and purge times", "all patterns within the stated bounds under asyncio and Twisted, oracle: timing rules of the statement"),
    "C16": (_T + _X + "session/bundle states x interruption points", "full product of the stated alphabet, then every interruption point"),
    "C17": (_T + _X + "divergences x interruption points", "full product of list and bundle divergences for two backends"),
    "C18": (_T + _X + "the configuration space within ranges", "all limits, thresholds and backend lists within the stated ranges"),
    "C19": (_T + _X + "purge configurations x interruption points", "every interaction of a purge as failure/late failure/crash point; invariants on server state at every step"),
    "C20": (_T + _X + "interleavings with bounded preemptions (CHESS style)", "all pairs of 13 operations on two accounts, 8 own-account operations with each, 5 on two devices, and 34 pairs during history synchronization, all interleavings with at most 2 preemptions; oracle: the same operations run one after the other"),
    "C21": (_T + _X + "failure points of a decryption, then repetition", "every interaction preceding the effect and every server interaction as failure point; two known findings"),
    "C22": (_T + _X + "stored states in the released layout and of write histories", "full product of the record alphabet, oracle: meaning defined independently of the code"),
    "C23": (_T + _X + "trust assignments of the shipped example", "all assignments for up to 5 devices"),
    "C24": (_T + _X + "the keys of a bounded key space", "all multiples of the base point up to 2048 and all single-byte seeds, oracle: independent RFC 7748 map"),
    "C26": (_T + _X + "fault, cancellation and crash injection at every interaction", "24 calls in prepared situations, at every interaction every kind of failure (before or after the fact), cancellation or crash; repeated at once or after a restart; oracle: the exception itself, and the state an undisturbed call leaves"),
    "C27": (_T + _X + "operation sequences of several devices x delivery orders x interleavings", "2-3 devices of one account and a contact, every history of 2 operations, every relevant order of delivery, overlapping accesses to the lists with up to 3 preemptions; oracle: lists, views and messages of all devices agree"),
    "C25": (_T + _X + "interleavings with bounded preemptions (CHESS style)", "all pairs of 14 operations on one account, 10 on the own account and 43 pairs around history synchronization, all interleavings with at most 2 preemptions; oracle: the same operations run in either order"),
}
