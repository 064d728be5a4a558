"""Writes DESIGN.md from tools/DESIGN.in.md, the check modules, properties.jsonl, known_findings.txt and seeded/."""
import ast
import glob
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from techniques import TECH  # noqa: E402

ORACLE = {
    "C01": "The judge XORs the bytes between `$` and `*` itself and compares them with the two digits found in the bytes; it never asks the library. A corrupted copy whose checksum happens to match again is judged as valid. Streams: what is delivered must be exactly the valid ones.",
    "C02": "Any exception other than the four documented types, any case that uses 30 s of CPU or blocks, any failure of str()/repr()/serialize() of a returned message, or a reader that does not reach the end of its stream is a violation.",
    "C03": "Line events are budgeted linearly in bytes and fields (ordinary parsing uses under half); attributes <= fields; traced peak memory <= 300 kB + 2 kB per byte; quadrupling the length may at most multiply lines by 1.5x and CPU by 2.7x of the ratio (repeated excess only); 100 kB of any unit anywhere within 1 s of CPU (best of 3; normally 10-50 ms), which sees quadratic work inside C functions (regular expressions, string searches).",
    "C04": "serialize() must be the sentence's own bytes, payload its own fields, re-parsing the serialization and eval(repr()) must give an equal snapshot (attributes, types, identity, payload, checksum, str, bytes).",
    "C05": "mon/spec.py decodes independently from the frozen catalogue: names, order, exact values (floats as nearest double of the decimal text, positions in exact rationals with the documented rounding), types. Nominal fields, type errors and absent values included.",
    "C06": "Each field's text is predicted by the reference conversion or, for times and dates of 'now', bracketed by the clock before and after; the frame and checksum are recomputed; parsing back gives the values within the field's resolution.",
    "C07": "Value sign == hemisphere letter, magnitude == exact rational of the text; building: letter == sign of the value given, whatever letter was given; zero counts as N/E.",
    "C08": "Each sentence carries a unique number; the delivered history must be the composed list, byte for byte and in order, each message equal to its direct parsing.",
    "C09": "The composed stream yields an event list (deliver/report/nothing) per policy; recorded handler calls, log records (name, level) and exceptions are compared event by event, including after growth of the stream.",
    "C10": "Ledger: bytes handed to the wrapper == bytes returned by read/readline + bytes still buffered, in order; read(n) gives exactly n or fewer only when data ended. Messages equal those of a file with the same bytes.",
    "C11": "Decoded bytes must be a prefix of the concatenated chunk contents after every read and equal to it at the end; messages equal those of the plain file.",
    "C12": "Every attempt must raise NMEAMessageError and leave the full snapshot unchanged; afterwards, mutating anything passed in or got out must leave it unchanged too.",
    "C13": "The result of every operation (snapshot or exception type) must equal that of the same operation as first and only operation of a forked process, in any history and under threads; digests of the module-level catalogue and of caller-owned objects must not change.",
    "C14": "Offline checker of recorded histories: union exactly once, per-thread order, intact pairs (raw, message), one report per bad line, every thread ends. A stream whose operations yield, sleep or stall until another thread arrives provokes the interleavings; the sequence of threads per operation is recorded as evidence.",
    "C15": "Text built digit by digit by the oracle, calendar arithmetic of its own; every impossible value must give '' (or the documented error).",
    "C16": "Text is re-read digit by digit as a rational: form (digits, minutes < 60, hemisphere), distance to the exact value of the float <= half a unit of the last printed digit (plus the float's own rounding), inverse functions within their documented rounding.",
    "C17": "Forward: foot point + normal in 45-digit Decimal, error below 1 um for every ellipsoid. Inverse: below 1e-8 degrees and 1 mm, at the poles, the equator and the branch point of the algorithm too.",
    "C18": "Vector-form (cross/dot product) oracle in 45-digit Decimal; allowed error derived from the rounding of each formula; symmetry, scaling by the radius, bounds and identity as metamorphic relations.",
    "C19": "Integer milliseconds since each epoch, own leap second list; forward and inverse compared exactly, and composed.",
    "C20": "Enumerates every instant with the given week residue and time of week and picks the latest one not after the injected present.",
    "C21": "Acceptance by membership in the frozen catalogue per mode and flags; decoding by reference model; a user definition serves only the call it is given to, and never overrides a built-in one.",
    "C22": "Reference decoder at every length, plus prefix comparison with the library's own decoding of the complete sentence, plus byte equality of payload and serialization.",
    "C23": "Reference expansion of groups; items compared with fields one by one; counts 0..130, 1000, partial items, shuffled keywords with gaps.",
    "C24": "Layout selection table (number of fields, first field, attribute names) written from the interface documentation; parsed, built and parsed back.",
    "C25": "A gate on the stream or socket: asking for more than has arrived aborts the run and is the violation; position after each delivery must be exactly behind the line feed; calls of write/seek/flush/close and attribute assignments are recorded and must not happen, also at the end of the stream. Real pipes, terminals and sockets are fed one item at a time.",
    "C26": "Measurements after warm-up and after each further 3000 operations: growth in every window beyond the slack (60 kB, 300 objects, 0 descriptors/threads/handlers/loggers) is a violation; of any 100 weak references to results at most 2 may be alive.",
    "C29": "Results computed in the plain process are compared one by one with those from interpreters started in each of the environments; a snapshot of the process state before the import must equal those after the import and after use; an audit hook records writes, processes and connections; standard output and error must be empty.",
    "C30": "The exception object that comes out must be the injected one; results of the same and four other operations afterwards must equal those of pristine forked processes; message snapshots and catalogue digest unchanged; delivered history against the composed stream with at most one sentence missing per interrupt; a second thread must get its turn.",
    "C31": "Operations run in another thread while every waiting reader is known (from its instrumented stream or socket) to wait, must come back within 30 seconds with the results computed beforehand, the waiters still waiting; bytes written are compared at the peer; a released waiter must return exactly its sentence. Conversations: multiset of commands at the device equal to those sent, replies delivered once each and in order per reader thread, all threads end.",
    "C32": "The reference decoder finds the first field that cannot be converted (and its group), the right checksum, the unknown part and the mode, from the sentence alone; each must stand as a word in the error's text. Error seen by a raising reader, by a handler and in the log record must equal that of direct parsing.",
    "C28": "The snapshot taken of the original before copying (attributes, types, order, str, repr, bytes, identity, mode, payload, checksum) must equal that of every copy, also computed in another process; every mutation attempt on a copy must fail; the original's snapshot must be unchanged.",
    "C27": "Each injected exception object must be seen by the caller of that read, once, identical; everything the fault did not strike is delivered once in order; reports as without faults; another thread can use the reader afterwards; a handler may itself read.",
}


def consts(path):
    out = {}
    for n in ast.parse(open(path, encoding="utf-8").read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


COST = json.load(open(os.path.join(V, "tools", "cost.json")))
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"), encoding="utf-8")]
parts = []
for p in props:
    i = p["id"]
    c = consts(os.path.join(V, "mon", "checks", i.lower() + ".py"))
    q, t = COST.get(i, ["?", "?"])
    parts.append(
        f"### {i} {p['title']}\n\n"
        f"*Technique*: {TECH[i][0]}.\n\n*Workload and what counts*: {c['RULE']}\n\n*Oracle*: {ORACLE[i]}\n\n"
        f"*Bounds*: random and exhaustive parts as stated; at least "
        + ", ".join(f"{v} {k.replace('_', ' ')}" for k, v in c["NEED"].items())
        + f". *Cost*: {q} s / {t} s.\n\n*Beyond tests*: {p['why_tests_cant']}\n")
fixed = [x[7:].strip() for x in open(os.path.join(V, "known_findings.txt"), encoding="utf-8") if x.startswith("fixed:")]
also = json.load(open(os.path.join(V, "tools", "matrix.json"))) if os.path.exists(os.path.join(V, "tools", "matrix.json")) else {}
seeds = ["| planted bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json"), encoding="utf-8"))
    n = os.path.basename(d)
    by = sorted(set([m["property"]] + also.get(n, [])))
    seeds.append(f"| {n} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {' '.join(by)} |".replace("\n", " "))
text = open(os.path.join(V, "tools", "DESIGN.in.md"), encoding="utf-8").read()
text = text.replace("%PROPS%", "\n".join(parts)).replace("%FIXED%", "\n".join("* " + x for x in fixed))
text = text.replace("%SEEDS%", "\n".join(seeds))
open(os.path.join(V, "DESIGN.md"), "w", encoding="utf-8").write(text)
print(len(text), len(seeds) - 2)
