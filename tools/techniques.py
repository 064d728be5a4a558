BASE = ("Violations are reported only from observed executions of the real code; silence means no violation in the "
        "counted executions (all choices from VERIF_SEED), not absence.")
TECH = {
 "C01": ("runtime monitor: independent XOR oracle over every accepted/rejected (corrupted) sentence", BASE + " Trusts the oracle's 1-line XOR."),
 "C02": ("runtime monitor: exception-type, termination and end-of-stream monitors under hostile fuzzed input", BASE),
 "C03": ("runtime monitor: sys.settrace work meter, tracemalloc and attribute count against a linear budget in sentence length", BASE + " The linear budget's constants are generous (an order of magnitude above what was measured)."),
 "C04": ("runtime monitor: serialize/parse/repr round-trip oracle over recorded sentences", BASE),
 "C05": ("runtime monitor: reference decoder (independent reimplementation over a frozen catalogue) compared with every parsed message", BASE + " Trusts golden/catalogue.json (frozen from the reviewed tree) and mon/spec.py."),
 "C06": ("runtime monitor: frame/field oracle over generated messages, then parse-back comparison", BASE + " Trusts golden/catalogue.json and mon/spec.py."),
 "C07": ("runtime monitor: sign/hemisphere/magnitude oracle in exact rationals over parsed and generated positions", BASE),
 "C08": ("runtime monitor: offline checker of the delivered history against the composed stream (exactly once, order, bytes)", BASE),
 "C09": ("runtime monitor: exactly-once checker of handler calls, log records and exceptions against the composed stream", BASE),
 "C10": ("runtime monitor: byte-conservation ledger and model comparison on an instrumented socket with scripted segmentation, timeouts and errors", BASE),
 "C11": ("runtime monitor: conservation checker of decoded bytes against chunk contents under scripted segmentation (every split point)", BASE),
 "C12": ("runtime monitor: before/after snapshots around every mutation attempt and caller-side aliasing", BASE),
 "C13": ("runtime monitor: differential of operation histories and threads against a pristine forked process, plus catalogue and caller-object digests", BASE),
 "C14": ("runtime monitor: offline history checker (exactly once, per-thread order, intact, termination) under injected scheduling delays", BASE + " Interleavings are provoked by delays inside a thread-safe stream, not enumerated."),
 "C15": ("runtime monitor: independent conversion oracle, exhaustive over dates and seconds of day, random elsewhere", BASE),
 "C16": ("runtime monitor: exact-rational oracle over formatted text and its inverse", BASE),
 "C17": ("runtime monitor: high-precision Decimal oracle for the closed form and round-trip error monitor", BASE),
 "C18": ("runtime monitor: independent vector-form geometry oracle and metamorphic relations", BASE),
 "C19": ("runtime monitor: independent integer millisecond time-scale oracle around every leap second, week and rollover", BASE + " Trusts the published leap second list up to 2017."),
 "C20": ("runtime monitor: injected clock and independent latest-past-instant oracle", BASE + " The clock is injected by replacing the module's datetime; if that stops working the real clock is used."),
 "C21": ("runtime monitor: recognition oracle over the frozen catalogue and generated user definitions, direct and by reader", BASE),
 "C22": ("runtime monitor: prefix/extension oracle at every length of every definition", BASE),
 "C23": ("runtime monitor: reference group expansion compared with parsed and generated messages", BASE),
 "C24": ("runtime monitor: layout-discrimination oracle for every variant family", BASE),
 "C25": ("runtime monitor: gated stream that aborts any request beyond the arrived bytes, position and operation recorder, live pipes/terminals/sockets", BASE),
 "C26": ("runtime monitor: tracemalloc, gc object counts, weak references and descriptor/thread/handler registries over growing histories", BASE + " Growth below the slack (about 20 bytes per operation) is not seen."),
 "C29": ("runtime monitor: differential of operations across interpreter environments, audit-event and process-state monitors", BASE + " No locale but C is installed here, so other locales are not tried."),
 "C30": ("runtime monitor: fault injection (exception before every line executed in the package, sys.settrace) with differential and history oracles", BASE + " Interrupts come between lines, not inside them."),
 "C31": ("runtime monitor: liveness and differential monitor of other threads' operations while readers verifiably wait; offline checker of request/response conversations", BASE + " Held up means: not done within 30 seconds."),
 "C28": ("runtime monitor: snapshot comparison of copies, unpickled messages (other processes, threads) and errors with the originals", BASE),
 "C27": ("runtime monitor: fault injection at every stream operation and handler call, offline checker of exceptions and delivered history", BASE),
 "C32": ("runtime monitor: reference decoder names the culprit; texts, classes and causes of raised, handled and logged errors are searched for it", BASE + " Words are looked for, not wordings."),
}
