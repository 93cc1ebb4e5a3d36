"""Which harness packages decide which property, and what counts as a non-trivial case."""
INSTR_PKGS = ["hashmap", "cache", "lock", "pool/gopool", "pool/buffer", "fastio", "mmap", "buffer", "uuid", "keystore"]

def plain(pkg, quick=4, thorough=8, **k):
    return dict(pkg="checks/" + pkg, shards={"quick": quick, "thorough": thorough}, **k)

def sched(pkg, quick=6, thorough=8, **k):
    return dict(pkg="checks/" + pkg, shards={"quick": quick, "thorough": thorough}, instr=True, gomaxprocs=1, **k)

def race(pkg, quick=2, thorough=4, scale=40, **k):
    """The same generated cases under the race detector; each finding is an unsynchronised access."""
    return dict(pkg="checks/" + pkg, name="race", shards={"quick": quick, "thorough": thorough}, race=True, scale=scale, **k)

SLOW = {"c03", "c11", "c11s", "c21", "c24", "c33", "c34", "c36", "c37"}

def check(parts, rule, technique, note):
    for p in parts:  # quick runs generate twice the cases where they are cheap
        p.setdefault("scale", 100 if p["pkg"].split("/")[1] in SLOW else 200)
    return dict(parts=parts, rule=rule, technique=technique, note=note)

REAL = "Assurance is that of the cases generated: no counterexample among them. Trusts rapid, the Go runtime and the reference named."
SCHED = ("Assurance is that of the schedules generated: no counterexample among them. Interleavings are drawn at statement granularity of the gofer sources "
         "(an instrumented copy of the current tree, run in virtual time), so weak-memory effects below a statement are not explored.")

CHECKS = {
 "C01": check([plain("c01")], "rapid draws 64-bit numbers (powers of 58, edges, uniform) and texts (valid, mutated, overflowing); non-trivial: a number of at least two digits, or any decode case; distinct by value/text",
              "property-based round-trip and differential testing against big-integer arithmetic", REAL),
 "C02": check([plain("c02")], "rapid draws integers over the whole ranges, short byte strings and arrays, also with part of an integer at the end; non-trivial: beyond one byte or negative, non-empty input",
              "property-based round-trip testing against encoding/binary", REAL),
 "C03": check([plain("c03", gomaxprocs=4), race("c03", scale=5)], "format x level x payload texture x size; truncations and single-byte corruptions of the compressed form; garbage; concurrent callers; non-trivial: non-empty payload or any fault; distinct by payload and fault",
              "property-based round-trip testing and corruption fuzzing with reference decoders as oracle", REAL),
 "C04": check([plain("c04", gomaxprocs=4), race("c04", scale=10)], "as C03 for the utility helpers, plus foreign gzip streams and detector inputs; non-trivial: non-empty payload or any fault",
              "property-based round-trip testing and corruption fuzzing with reference decoders as oracle", REAL),
 "C05": check([plain("c05"), race("c05")], "byte strings of varied size and texture, compared with reference digests, also from concurrent goroutines; non-trivial: non-empty input",
              "differential property-based testing against reference digests", REAL),
 "C06": check([plain("c06"), race("c06", scale=20)], "records, scalars, containers, thrift and protobuf messages drawn structurally; truncated and mutated encodings, text after JSON, used and ignorant protobuf messages; concurrent callers; non-trivial: a record with some content",
              "property-based round-trip testing and truncation fuzzing", REAL),
 "C07": check([plain("c07"), race("c07")], "messages, secrets and spare capacities; ciphertexts malformed by length, padding, damage; concurrent use of one cipher; non-trivial: non-empty message or any malformed ciphertext",
              "differential property-based testing against crypto/aes + cipher", REAL),
 "C08": check([plain("c08")], "messages around the key's capacity, built-in and generated keys as bytes and files, damaged ciphertexts and keys; non-trivial: non-empty message or any bad key",
              "property-based round-trip testing and key/ciphertext fuzzing with crypto/rsa as oracle", REAL),
 "C09": check([plain("c09"), race("c09")], "histories of write/read/open over several handles and files; concurrent readers and writers; non-trivial: at least two writes",
              "model-based stateful property testing", REAL),
 "C10": check([plain("c10"), race("c10")], "histories of put/delete/reload/reopen over four categories compared with a map model after every step; concurrent goroutines on their own names; non-trivial: more than one step",
              "model-based stateful property testing", REAL),
 "C11": check([plain("c11"), dict(pkg="checks/c11b", shards={"quick": 1, "thorough": 1}, name="many", scale=100), sched("c11s"), race("c11", scale=10)], "identifiers from several goroutines and from several concurrent processes, compared for repetition over everything generated; repeats and single bits counted among thousands of 32-bit ids; schedules of the generator; non-trivial: more than one goroutine",
              "property-based testing of a uniqueness invariant over goroutines, child processes and fuzzed schedules", SCHED),
 "C12": check([plain("c12")], "16-byte values (uniform, sparse, generated), near misses of the text form; non-trivial: not all zero, any rejected text",
              "property-based round-trip testing against an independent formatter and grammar", REAL),
 "C13": check([plain("c13")], "histories over keys and values of several types, compared with a Go map after every step; non-trivial: a present key is put again or values include zero and nil ones",
              "model-based stateful property testing", REAL),
 "C14": check([sched("c14"), plain("c14p"), race("c14p", scale=100)], "2-4 goroutines with up to 4 operations each on one container under a drawn schedule, history plus sequential observation checked for linearizability; also parallel load with goroutine-owned keys; non-trivial: every case",
              "schedule fuzzing with linearizability checking (porcupine) of recorded histories; parallel property testing", SCHED),
 "C15": check([plain("c15")], "histories over degrees and key types compared with a sorted model, iteration in both directions with early stops; non-trivial: several entries",
              "model-based stateful property testing", REAL),
 "C16": check([plain("c16")], "histories over capacities, key and value types compared with a list model; non-trivial: an eviction occurs",
              "model-based stateful property testing", REAL),
 "C17": check([plain("c17")], "histories over capacities, segment counts and all key types (also strings with equal hashes) compared with a list model; non-trivial: an eviction, or several keys present",
              "model-based stateful property testing", REAL),
 "C18": check([plain("c18")], "histories over limits compared with a list model; iterators both ways with deletion of yielded entries; non-trivial: an eviction occurs",
              "model-based stateful property testing", REAL),
 "C19": check([plain("c19")], "histories of adding and removing nodes compared with a fresh ring of the same nodes, before/after relations for one added or removed node, successors against rings without the preceding nodes, other processes; non-trivial: a node is removed, or more than two nodes",
              "metamorphic and differential property testing", REAL),
 "C20": check([plain("c20")], "histories over bounds, key and value types compared with a list model; non-trivial: an eviction occurs",
              "model-based stateful property testing", REAL),
 "C21": check([sched("c21"), plain("c21p"), race("c21p")], "histories of adds and lookups over sizes and error rates, concurrent adders under drawn schedules and in parallel; non-trivial: at least two items, or several goroutines",
              "model-based property testing and schedule fuzzing", SCHED),
 "C22": check([sched("c22"), plain("c22p"), race("c22p", scale=100)], "2-4 goroutines locking keys for drawn times under a drawn schedule, exclusion monitored; parallel load with a guarded counter; non-trivial: two goroutines contend for one key",
              "schedule fuzzing of a mutual-exclusion and progress invariant", SCHED),
 "C23": check([sched("c23", run="TestSchedules|TestPromptness|TestWide"), plain("c23", run="TestParallel"), race("c23", scale=100, run="TestParallel")], "goroutines locking a bounded number of places with timeouts under drawn schedules and durations; limits up to a thousand places and timeouts up to a year in virtual time; non-trivial: more goroutines than places",
              "schedule fuzzing of a bounded-occupancy invariant", SCHED),
 "C24": check([sched("c24")], "waiters, closers and contexts over several ids under drawn schedules, every return value checked against the history; non-trivial: a wait meets a close or an expiry",
              "schedule fuzzing against a history oracle", SCHED),
 "C25": check([sched("c25")], "waiters, closers and contexts over several ids under drawn schedules, every return value checked against the history; non-trivial: a wait meets a close or an expiry",
              "schedule fuzzing against a history oracle", SCHED),
 "C26": check([sched("c26"), plain("c26p"), race("c26p", scale=100)], "one to four submitters of quick, sleeping, panicking, goroutine-ending and submitting functions over limits and queue sizes, scheduling turned off and on and the pool closed at drawn times, under drawn schedules; parallel load with and without closing; non-trivial: more than one function",
              "schedule fuzzing of an exactly-once invariant; parallel property testing", SCHED),
 "C27": check([sched("c27"), plain("c26p", run="TestParallel")], "gated functions submitted and let go in drawn order, occupancy compared with min(maximum, outstanding) after every step; free-running load with the maximum monitored; non-trivial: more functions than places",
              "stateful property testing against an occupancy model under fuzzed schedules", SCHED),
 "C28": check([sched("c28"), plain("c28p"), race("c28p", scale=100)], "goroutines getting, dirtying and returning objects and buffers of several pools under drawn schedules and in parallel, every holder marks what it holds; non-trivial: something is returned",
              "schedule fuzzing of an exclusive-ownership invariant", SCHED),
 "C29": check([plain("c29")], "histories of every write and read form over one to three buffers made in any of the four ways, compared with a byte-slice model after every step; non-trivial: both reads and writes",
              "model-based stateful property testing", REAL),
 "C30": check([sched("c30"), plain("c30"), race("c30")], "one to five goroutines writing records through one to three openings of a file with earlier content, closed at rest or meanwhile, and nine to two hundred goroutines at once, under drawn schedules and in parallel; the file is parsed record by record; non-trivial: several goroutines",
              "stateful property testing with a parsing oracle under fuzzed schedules", SCHED),
 "C31": check([sched("c31"), plain("c31"), race("c31", scale=100)], "as C30 with a file closed underneath, read-only, on a full device, for a while or for good, or at the process's size limit with room for part of a record; every reported success is looked up in the file; non-trivial: every case",
              "fault-injecting stateful property testing under fuzzed schedules", SCHED),
 "C32": check([plain("c32"), sched("c32", run="TestConcurrent"), race("c32")], "histories of appends, positioned writes, flushes and reopenings over files of one byte to four pages with offsets around every edge and at the ends of the integer range, compared with a byte-array model after every step; concurrent writers under drawn schedules; non-trivial: a write takes place",
              "model-based stateful property testing; schedule fuzzing of concurrent writers", SCHED),
 "C38": check([plain("c38")], "files of 1 to 40 pages, synchronous appends and positioned writes of generated place and length from one to four goroutines, flushed histories; after every round the kernel's account of the mapping is read; non-trivial: every case where the file system tells changed pages from stored ones",
              "property-based testing of a durability invariant against the kernel's page accounting", REAL),
 "C33": check([plain("c33"), race("c33"), dict(pkg="checks/c33s", shards={"quick": 1, "thorough": 1}, name="slow", scale=100)], "one to six concurrent posts of generated body, headers, cookie, path and query over http and https to recording servers with generated answers, also of large headers; servers that answer, read or redirect late; connections left by repeated posts; failing exchanges of ten kinds; non-trivial: several posts, a body or headers, any failure",
              "property-based testing against a recording server; fault injection", REAL),
 "C34": check([plain("c34"), race("c34"), dict(pkg="checks/c34s", shards={"quick": 1, "thorough": 1}, name="idle", scale=100)], "one to three clients with several senders and server messages of generated sizes and types over ws and wss, ended in eight ways by either side; hand-made frame sequences with pings, fragments and cuts; connections idle for up to a minute; message callbacks that wait for the end; refused connections; non-trivial: any message",
              "property-based testing against recording servers; fault injection", REAL),
 "C37": check([plain("c37"), race("c37", scale=50)], "steps of registering one to three handlers at once for generated signal sets and of sending the process one or several distinct signals; every handler's calls compared with the first signals of its set; non-trivial: a handler is due",
              "model-based stateful property testing with real signals", REAL),
 "C36": check([plain("c36")], "images of several formats (sizes only where the format loses pixels), sizes, pixel kinds and option combinations, modes and boxes, animated GIFs, cut and damaged files; non-trivial: an option or size asked for, more than one frame",
              "model-based property testing against pixel-by-pixel definitions and size rules", REAL),
 "C35": check([plain("c35"), race("c35", run="TestConcurrent", scale=100)], "file contents and names, date-time texts, bounds, strings and patterns; non-trivial: non-empty file, any date text, bound above one",
              "differential property-based testing against the standard library", REAL),
}
