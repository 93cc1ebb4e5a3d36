#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so ids, anchors and wording stay consistent)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Base58 integer encoding is lossless and rejects what it did not produce",
  "Encoding any unsigned 64-bit integer yields text over the 58-character alphabet that decodes back to exactly that integer, and different integers encode differently. Decoding text that contains a character outside the alphabet, or that denotes a value larger than 64 bits, reports failure instead of returning a wrong number, and decoding never changes the caller's bytes.",
  ["inputs"], "every uint64 and every byte string",
  "No test exercises base58 at all; the domain is 2^64 integers and all byte strings, with boundary cases around powers of 58 and 64-bit overflow.",
  ["base58/base58.go"], [("EncodeForInt64 digit loop", "base58/base58.go:16"), ("DecodeForInt64 table walk", "base58/base58.go:33")],
  ["return values of encode/decode"])
p("C02", "Integers and byte strings convert back and forth without loss",
  "Converting any 16-, 32- or 64-bit integer to bytes gives its fixed-width big-endian two's-complement form and converting back returns the same integer; a shorter byte string converts as if padded with leading zero bytes. An array of 64-bit integers converted to bytes and back is the same array; bytes that end with part of an integer give the whole integers before it.",
  ["inputs"], "every int16/int32/int64, every byte string of any length up to the width, every []int64",
  "Existing tests convert one or two constants; sign, byte order and short-input handling must hold over the full integer ranges.",
  ["util/num.go"], [("Int64ToBytes/BytesToInt64 and 32/16-bit siblings", "util/num.go:15"), ("IntArrayToBytes/BytesToIntArray", "util/num.go:84")],
  ["return values"])
p("C03", "The compression package restores every payload exactly and detects damage",
  "For every format offered by the compression package (zlib, gzip, snappy, zstd, each at every supported level) decompressing what was compressed returns the original bytes, for any content and size including empty, also from many goroutines at once, and inputs are left unmodified. Decompressing a truncated stream of any format, or a damaged stream of a checksummed format, returns an error or the original data, never silently shortened or altered data; arbitrary input that is not a valid stream is an error and never a crash. Streams that other encoders of a format made, at any level and of several gzip members or zstd frames, decompress to what was put into them.",
  ["inputs", "fault_sequences"], "every payload, every format and level, every truncation point and single-byte corruption of the compressed form, arbitrary garbage",
  "The compression package has no tests; truncations and corruptions of a stream number in the thousands per payload.",
  ["compress/compress.go"], [("Zlib/ZlibLevel/UnZlib", "compress/compress.go:18"), ("Gzip/UnGzip", "compress/compress.go:60"), ("Snappy/UnSnappy", "compress/compress.go:87"), ("Zstd/ZstdLevel/UnZstd", "compress/compress.go:97")],
  ["returned bytes and errors"])
p("C04", "The utility compression helpers restore payloads exactly and report damage",
  "For the zlib, gzip and snappy helpers of the utility package, decompressing what was compressed returns the original bytes for any content and size including empty. Decompressing a truncated or damaged zlib or gzip stream is reported as an error (never silently shortened or altered data passed off as success), truncated or malformed snappy data yields no data, nothing crashes, streams that other encoders made (any level, several gzip members) decompress to what was put into them, and the gzip detector accepts every gzip stream and rejects what does not begin with a gzip header.",
  ["inputs", "fault_sequences"], "every payload; every truncation and single-byte corruption of the compressed form; arbitrary byte strings",
  "Existing tests compress one constant string with each helper and print the result.",
  ["util/compress.go"], [("Zlib/UnZlib", "util/compress.go:18"), ("Gzip/UnGzip", "util/compress.go:44"), ("SnappyEncode/SnappyDecode", "util/compress.go:76"), ("CheckGzipType", "util/compress.go:69")],
  ["returned bytes and errors"])
p("C05", "Digests and checksums equal the standard algorithms on every input",
  "The digest helpers return exactly the standard digest of their input: MD5 and SHA-1 (raw from bytes, upper-case hexadecimal from text), CRC-8 (polynomial 0x07, initial value 0), CRC-32 (IEEE), CRC-64 (ECMA), 32- and 64-bit FNV-1a, and unkeyed BLAKE2b-256. The in-memory 64-bit hash is a deterministic function of the bytes alone within a process and distinguishes different inputs except for chance collisions; none of the helpers modifies its input or depends on earlier or concurrent calls.",
  ["inputs", "schedules"], "every byte string, any order and concurrency of calls",
  "The single CRC test prints a value without asserting; equality with the standard must hold for all lengths and contents and under concurrent use.",
  ["util/encode.go"], [("MD5/Sha1/CRC8/CRC32/CRC64", "util/encode.go:39"), ("Hash64/FNV/Blake2b", "util/encode.go:78")],
  ["returned digests"])
p("C06", "Serialised values decode back to the same value and bad input is an error",
  "Encoding any value with the JSON, gob, thrift-compact or protobuf helpers and decoding it into a fresh value of the same type gives back an equal value, also when many goroutines encode and decode at once, and encoded bytes stay valid after later calls. A truncated encoding of a record in a self-delimiting format (JSON, gob, thrift) gives an error, and so does any text that is not JSON as a whole; a protobuf message that is decoded into holds what was encoded and nothing of what it held before, and keeps fields it does not know; malformed input never crashes a decoder, and successive calls do not influence one another.",
  ["inputs", "schedules"], "every value of the supported types (nested maps, binary strings, extreme integers), truncations and garbage, concurrent callers",
  "Existing tests encode one constant value; the guarantee ranges over values, malformed inputs and concurrent callers.",
  ["util/gob.go", "util/protobuf.go", "thrift/serialize.go", "keystore/store.go"], [("JsonEncode/JsonDecode/Encode/Decode/TEncode/TDecode", "util/gob.go:18"), ("Marshal/Unmarshal", "util/protobuf.go:14"), ("thrift TEncode/TDecode", "thrift/serialize.go:19"), ("generated bean Read/Write", "keystore/store.go:53")],
  ["encoded bytes, decoded value, error"])
p("C07", "AES helper round-trips every message and rejects malformed ciphertext",
  "Decrypting what was encrypted under the same secret returns the original message for every message and secret, the ciphertext is standard AES-256-CBC with PKCS#7 padding (key = SHA-256 of the secret, IV = MD5 of the secret or of the separate IV string), and a cipher object can be reused any number of times and from several goroutines. Neither operation modifies the caller's buffers, including spare capacity behind them, and malformed ciphertext (empty, not a multiple of the block size, bad padding) is answered with an error, never a crash.",
  ["inputs", "schedules"], "every message, secret and IV string; every ciphertext length and padding; repeated and concurrent use",
  "The test encrypts one constant string; message lengths around block boundaries, spare slice capacity and malformed ciphertext are untested.",
  ["keystore/aes.go"], [("EncrypterCbc/DecrypterCbc", "keystore/aes.go:30"), ("AesEncrypter/AesDecrypter", "keystore/aes.go:55")],
  ["returned bytes and errors, caller's buffer"])
p("C08", "RSA helper round-trips messages and never fails silently",
  "A message within the key's capacity encrypted with a public key (built-in or caller-supplied, given as bytes or as a file) is recovered exactly by decrypting with the matching private key. A message that is too long, a malformed or missing key, or a damaged ciphertext yields an error; the helpers never return success without data for a non-empty message and never crash.",
  ["inputs", "fault_sequences"], "every message up to the capacity and beyond; supplied PEM keys of several sizes; malformed PEM, damaged ciphertext, missing files",
  "The test covers one message with the built-in keys and no failure path.",
  ["keystore/key.go"], [("RsaEncrypt/RsaEncryptByBytes", "keystore/key.go:93"), ("RsaDecrypt/RsaDecryptByBytes", "keystore/key.go:121")],
  ["returned bytes and errors"])
p("C09", "A key store file returns exactly the last blob written to it",
  "Reading a key store returns exactly the bytes most recently written to it, whether the same handle or a freshly opened one reads and whatever the sizes of earlier blobs. Concurrent readers and writers of one handle only ever see some whole blob that was written, and the last completed write is what remains.",
  ["histories", "schedules"], "sequences of writes of arbitrary blobs (growing, shrinking, empty), reads and reopens; concurrent use of a handle",
  "No test writes or reads a key store; stale tails after shrinking writes and offset handling depend on the write history.",
  ["keystore/bin.go", "util/compress.go"], [("Write/Read/LoadKeyStore", "keystore/bin.go:35")],
  ["Read results from the same and new handles"], [("store file", "compressed current blob", "keystore/bin.go:22")])
p("C10", "Stored accounts and settings follow the last update and survive reload",
  "After any sequence of put and delete operations on administrators, clients, queue users and other settings, lookups and listings reflect exactly the last update of each name, with passwords kept as the upper-case hexadecimal MD5 of what was given, and the four categories never affect each other; an account handed out earlier is not changed by later updates; the same holds for each name when goroutines update different names at once. Loading the store again from disk yields exactly the same content.",
  ["histories"], "all sequences of put, delete, get, list and reload over the four categories with arbitrary names, passwords and types",
  "No test touches the account store; divergence shows up only after specific sequences of updates and reloads.",
  ["keystore/keystore.go", "keystore/bin.go", "keystore/store.go"], [("Put*/Del*/Get*/List", "keystore/keystore.go:38"), ("Load", "keystore/keystore.go:25")],
  ["Get*/…List results before and after Load"], [("KeyBean", "in-memory content persisted through the key store", "keystore/keystore.go:16")])
p("C11", "Generated identifiers never repeat, across goroutines and processes",
  "No two identifiers generated by any number of goroutines in any number of processes running at the same time are equal, neither as 128-bit UUIDs nor as the 64-bit ids handed out by the utility package. Every generated UUID carries the version-4 and RFC-4122 variant marks. The 32-bit ids of the utility package, which cannot all differ, are spread evenly over their range.",
  ["schedules", "histories"], "any number of concurrent generators in one process and several simultaneous processes",
  "The tests generate ids in one goroutine of one process (or without comparing); collisions depend on schedules, sequence wrap-around and process start time.",
  ["uuid/uuid.go", "util/encode.go"], [("NewUUID sequence and hash", "uuid/uuid.go:32"), ("uniq/getSeq", "uuid/uuid.go:144"), ("UUID64", "util/encode.go:120")],
  ["collected identifiers"], [("seq", "per-process counter", "uuid/uuid.go:109")])
p("C12", "UUID text, parsing and views agree with one another",
  "The text of any UUID is its 16 bytes as 32 lower-case hexadecimal digits in 8-4-4-4-12 dash-separated form, parsing that text (either letter case) returns an equal UUID, and parsing anything that is not such text is an error. Equality compares the 16 bytes; the version and variant are those RFC 4122 assigns to the bytes; the byte, integer and base58 views are functions of the 16 bytes only and a returned byte view has exactly the 16 bytes.",
  ["inputs"], "every 16-byte value and every string",
  "Tests print a few generated UUIDs; parsing, equality and variants over arbitrary bytes and near-miss strings are untested.",
  ["uuid/uuid.go", "base58/base58.go"], [("String/Parse", "uuid/uuid.go:42"), ("Equals/Variant/Version", "uuid/uuid.go:69"), ("Int64/Int32/Bytes/Base58", "uuid/uuid.go:56")],
  ["return values"])
p("C13", "The concurrent maps behave like an ordinary map, with an exact length",
  "After any sequence of operations the plain and the length-tracking map hold exactly what an ordinary map would: put returns the previous value and whether there was one, get and has agree, delete reports whether the key was present, ranging visits every entry exactly once and stops when told to, and the reported length is the number of entries. The zero value and nil values of interface or pointer type count as ordinary values.",
  ["histories", "inputs"], "every sequence of put/get/has/delete/range/length over arbitrary key and value types including interfaces holding nil",
  "No test covers these maps; the length counter and previous-value reporting go wrong only on particular sequences (overwrites, repeated deletes, nil values).",
  ["hashmap/map.go"], [("MapL Put/Get/Has/Del/Range/Len", "hashmap/map.go:28"), ("Map Put/Get/Has/Del/Range", "hashmap/map.go:87")],
  ["return values after every operation"], [("_count", "number of entries in the length-tracking map", "hashmap/map.go:17")])
p("C14", "Concurrent operations on every container take effect atomically",
  "When goroutines use one map, length-tracking map, limit map, limit hash map, linked hash map, tree map, LRU cache or hash ring at once, every put, lookup, deletion, load-or-store and tree-map iteration (for the ring: adding and removing nodes, asking for owners, successors and nodes) returns what it could have returned had these operations run one at a time in some order consistent with real time. Once they finish, the length and contents agree with that order; no schedule crashes, deadlocks or corrupts the container, and no two operations, iteration and length included, use its memory without synchronisation.",
  ["schedules", "histories"], "all interleavings of concurrent operation programs on each container",
  "The tests use the containers from one goroutine (or without assertions); lost updates and counter drift need specific interleavings.",
  ["hashmap/map.go", "hashmap/limitmap.go", "hashmap/limithashmap.go", "hashmap/linkedhashmap.go", "hashmap/treemap.go", "cache/lrucache.go"],
  [("sync.Map Swap + counter", "hashmap/map.go:28"), ("per-container mutex", "hashmap/limitmap.go:21"), ("segment mutexes", "hashmap/limithashmap.go:141"), ("list+map under mutex", "hashmap/linkedhashmap.go:39"), ("tree lock", "hashmap/treemap.go:37"), ("lru lock", "cache/lrucache.go:26")],
  ["operation results and final contents"])
p("C15", "The tree map is an ordered map",
  "After any sequence of puts and deletes the tree map holds exactly what an ordinary map would, put returns the previous value and whether there was one, and get finds every present key and nothing else. Ascending and descending iteration visit every entry exactly once in strictly increasing and decreasing key order and stop as soon as the visitor says so, for any tree degree and key type.",
  ["histories", "inputs"], "every sequence of put/get/delete/iterate, every degree, integer, float and string keys",
  "Tests insert a handful of fixed keys; rebalancing paths depend on operation sequences and degrees.",
  ["hashmap/treemap.go"], [("Put/Get/Del", "hashmap/treemap.go:37"), ("Ascend/Descend", "hashmap/treemap.go:66"), ("item ordering", "hashmap/treemap.go:21")],
  ["return values and visit order"])
p("C16", "The limit map never exceeds its capacity and evicts the least recently written",
  "The limit map never holds more entries than its positive capacity; when a new key is put into a full map exactly the entry whose last put is oldest disappears, and all other entries keep their latest values. Put returns the previous value of a present key, deletes (single or multiple) remove exactly the named keys, reads do not influence eviction, and the length is the number of retrievable entries.",
  ["histories"], "every capacity and every sequence of put/get/delete/multi-delete/length",
  "The test fills one map and prints it; capacity and eviction order depend on the whole history.",
  ["hashmap/limitmap.go"], [("Put eviction", "hashmap/limitmap.go:44"), ("Del/RemoveMulti", "hashmap/limitmap.go:68")],
  ["Get/Len/Put results"], [("order", "recency list", "hashmap/limitmap.go:19")])
p("C17", "The limit hash map is bounded, exact per key, and evicts oldest-inserted first",
  "The limit hash map never holds more entries than its capacity (any positive capacity and segment count), a lookup returns the last value put under that very key or nothing, and distinct keys are never confused with one another, whatever their type or text. With a single segment, entries leave only by deletion, clearing, or by being the oldest inserted key when a new key arrives at full capacity; with several segments each segment does the same with its share.",
  ["histories", "inputs"], "every capacity, segment count and key type; every sequence of put/get/delete/contains/clear/length, including adversarial string keys",
  "The tests insert sequential integers; key confusion needs colliding strings and capacity errors need particular capacity/segment combinations.",
  ["hashmap/limithashmap.go"], [("segment selection", "hashmap/limithashmap.go:141"), ("ring-buffer eviction in Put", "hashmap/limithashmap.go:160"), ("Del/Clear/Len", "hashmap/limithashmap.go:185")],
  ["return values after every operation"], [("segment ring", "insertion order of keys", "hashmap/limithashmap.go:19")])
p("C18", "The linked hash map keeps recency order, honours its limit and iterates fully",
  "The linked hash map orders entries from most to least recently written (or explicitly moved to the front), never holds more than its limit by dropping the entry at the back when a new key arrives, and its front, back, lookup, delete, clear and length always agree with that order. Load-or-store returns the existing value untouched when the key is present and otherwise stores and returns the given one, and iterators in either direction yield every entry exactly once in order, also when entries already yielded are deleted meanwhile.",
  ["histories"], "every limit and every sequence of put/load-or-store/get/delete/move-to-front/clear/iterate",
  "The tests put a few entries and print them; order and limit depend on operation sequences.",
  ["hashmap/linkedhashmap.go"], [("Put/LoadOrStore", "hashmap/linkedhashmap.go:39"), ("Delete/MoveToFront/Clear", "hashmap/linkedhashmap.go:92"), ("Iterator", "hashmap/linkedhashmap.go:152")],
  ["return values and iteration order"])
p("C19", "Consistent hashing: owners depend only on the node set and move minimally",
  "The owner of a key is a function of the key, the replica count and the current node set only — the same for every instance, process and order of adding or removing nodes — and is always a current node, or reported absent when there are none. Adding a node moves keys only to that node and removing one moves only its keys; the successor list of a key leaves out its owner, contains distinct other current nodes, as many as asked for or as exist, and each of them is who would own the key if the owner and the preceding ones were removed. With a hundred replicas or more, consecutively numbered nodes share the keys evenly enough that none of up to a dozen owns less than a fifth or more than three times its even share, and none of some hundreds less than a tenth or more than eight times.",
  ["histories", "inputs"], "every node set, replica count, add/remove history and key (integer or string)",
  "No test covers consistent hashing; the claims relate many histories and keys to each other.",
  ["hashmap/consistenthash.go"], [("Add/Del ring maintenance", "hashmap/consistenthash.go:47"), ("Get/GetStr lookup", "hashmap/consistenthash.go:67"), ("GetNextNodeStr successors", "hashmap/consistenthash.go:97")],
  ["Get/GetStr/GetNextNodeStr/Nodes results"], [("ring", "sorted virtual node hashes", "hashmap/consistenthash.go:29")])
p("C20", "The LRU cache holds the most recently used entries up to its bound",
  "The LRU cache returns for a key the value last added under it unless it was removed or evicted, and never the value of another key. It keeps exactly the most recently used (added or read) entries up to its bound — zero meaning unbounded — and removals, single or multiple, remove exactly the named keys.",
  ["histories"], "every bound and every sequence of add/get/remove/multi-remove",
  "The test adds a few entries and prints; retention depends on the full access history.",
  ["cache/lrucache.go"], [("Get/Add/Remove/RemoveMulti", "cache/lrucache.go:26")],
  ["Get results after every operation"])
p("C21", "The Bloom filter never forgets recent items and keeps its error rate",
  "An item added to the filter is reported present until at least as many further items as the filter was sized for have been added, whatever the size and error rate requested, and also when many goroutines add at once. While no more than the sized number of items have been added, items never added are reported present no more often than about the requested error rate, and however many have been added, no more often than about what a filter holding twice the sized number would.",
  ["histories", "schedules", "configurations"], "every expected size and error rate, every sequence of adds, concurrent adds",
  "The test adds constants in one goroutine; forgetting happens at generation boundaries and under racing adds.",
  ["cache/bloom.go"], [("Add/setBit", "cache/bloom.go:59"), ("generation rotation", "cache/bloom.go:98"), ("sizing", "cache/bloom.go:30")],
  ["Contains results"], [("generations", "rotating bit arrays", "cache/bloom.go:19")])
p("C22", "Keyed locks give mutual exclusion per key and readers share",
  "At most one goroutine holds the lock of a given number or string key at a time, every waiting goroutine gets it eventually once holders release, and try-lock succeeds only when the lock is free, without waiting. For string keys any number of readers share the lock but never alongside a writer, and numbers that differ modulo the number of stripes never block each other.",
  ["schedules", "inputs"], "every stripe count, key (including negative numbers and any string) and interleaving of lock/try/unlock",
  "Existing tests of the package cover only the waiting helpers; exclusion is a claim about all interleavings.",
  ["lock/lock.go"], [("Numlock", "lock/lock.go:22"), ("Strlock", "lock/lock.go:60")],
  ["observed critical sections"])
p("C23", "The limit lock never admits more holders than its limit",
  "No more than the configured number of goroutines are between a successful lock and its unlock at any time, a waiter is admitted as soon as a slot is free, and a waiter that has waited the configured time without a free slot gets an error and holds nothing. The current-holder and total-lock counters equal the number of current holders and of successful locks once callers are quiet, and slots never leak.",
  ["schedules", "histories"], "every limit, timeout and interleaving of lock, unlock and timeouts",
  "No test covers the limit lock; leaks and over-admission need particular timing of timeouts against unlocks.",
  ["lock/lock.go"], [("LimitLock.Lock/Unlock", "lock/lock.go:141"), ("Cc/LockCount", "lock/lock.go:158")],
  ["Lock results, counters, admission times"])
p("C24", "A waiter receives exactly the value delivered under its id",
  "The one goroutine waiting for an id gets exactly the value delivered for that id as soon as it is delivered (also when delivery starts up to half a second before the wait), returns at once with no value when the id is closed, and gets an error once its timeout has passed and the cancelled result as soon as its context ends, with or without a timeout — never a value delivered under another id. Afterwards the id is no longer waited for and can be used again; delivering or closing an id nobody waits for has no effect on other ids. The channel of an id, taken beforehand, holds what is delivered: delivering and closing do not wait for it to be read. A wait group given with a wait is marked done when the wait starts, not when it ends.",
  ["schedules", "histories"], "every interleaving of waiters, deliveries, closes, timeouts and cancellations over many ids",
  "The test delivers one value to one waiter; lost or misdirected results need races between delivery, timeout and cancellation.",
  ["lock/await.go"], [("Get/Has", "lock/await.go:30"), ("Close/CloseAndPut", "lock/await.go:47"), ("Wait/WaitWithCancel", "lock/await.go:88")],
  ["return value, error and time of every wait"])
p("C25", "The fast waiter delivers to the right id, also when delivery comes first",
  "A goroutine waiting for a fresh id gets exactly the value delivered for that id, also when delivery starts up to about two seconds before the wait does; it returns at once with no value when the id is closed, and gets an error once its timeout has passed and the cancelled result as soon as its context ends, with or without a timeout. No id ever receives another id's value, and after the wait has ended nobody stays blocked: late deliveries and closes for that id return at once. (The filter of finished ids may take a fresh id for a finished one, about once in a thousand while no more ids have finished than the waiter was made for; only a delivery or close that comes before its wait can then be lost.)",
  ["schedules", "histories"], "every interleaving of waits, deliveries, closes, timeouts and cancellations over distinct ids",
  "The test delivers one value to one waiter; early delivery, cancellation and close orderings are untested.",
  ["lock/fastawait.go"], [("Wait/WaitWithCancel", "lock/fastawait.go:41"), ("CloseAndPut/Close", "lock/fastawait.go:95"), ("finished-id filter", "lock/fastawait.go:32")],
  ["return value, error and time of every wait and delivery"])
p("C26", "Every function submitted to the goroutine pool runs exactly once",
  "Every function handed to the pool runs exactly once, whatever the pool's minimum and maximum, however many goroutines submit, when other functions panic or end their goroutine, when a function submits more work, when scheduling is turned off or on, and when the pool is closed before or after submission. The count of waiting functions is zero when all have run.",
  ["schedules", "configurations", "histories"], "every pool configuration and interleaving of submissions, panics, toggles and close",
  "The test submits batches and prints; lost wake-ups and functions dropped at close need particular interleavings.",
  ["pool/gopool/gopool.go"], [("Go", "pool/gopool/gopool.go:85"), ("dispatcher", "pool/gopool/gopool.go:130"), ("worker loop", "pool/gopool/gopool.go:31"), ("Close/TurnOff", "pool/gopool/gopool.go:103")],
  ["how often each function ran"])
p("C27", "The goroutine pool respects its maximum and keeps making progress",
  "While the pool is open and scheduling is on, no more than the configured maximum of submitted functions run at the same time, and independent functions do run in parallel up to that maximum. Submission does not wait for the submitted function to finish, a function that panics or ends its goroutine does not reduce the pool's capacity, and for every minimum and maximum all submitted functions eventually start. Closing the pool starts every waiting function at once, and a function submitted to a closed pool or while scheduling is off starts at once.",
  ["schedules", "configurations"], "every minimum/maximum, submission pattern and interleaving",
  "The test does not measure concurrency; over-admission needs a particular mix of idle and temporary workers.",
  ["pool/gopool/gopool.go"], [("worker creation limit", "pool/gopool/gopool.go:130"), ("put/idle pool", "pool/gopool/gopool.go:157")],
  ["number of simultaneously running functions; completion"])
p("C28", "Pooled objects are clean, exclusively owned and fit the request",
  "An object obtained from an object or buffer pool is in its reset state and is not in use by anyone else who obtained it earlier and has not returned it, under any interleaving of gets and puts. Returning an object clears the caller's handle, so it cannot be returned twice through it, and a pooled buffer starts empty and never shows another holder's data.",
  ["schedules", "histories"], "every interleaving and sequence of get/write/put over both pools and pooled byte buffers",
  "No test covers the pools; sharing shows only under reuse sequences and concurrency.",
  ["pool/buffer/pool.go", "pool/buffer/buffer.go", "buffer/buffer.go"], [("Pool Get/Put", "pool/buffer/pool.go:35"), ("BufferPool size classes", "pool/buffer/buffer.go:31"), ("Buffer Free", "buffer/buffer.go:89")],
  ["objects returned by Get"])
p("C29", "The byte buffer is a faithful first-in first-out stream",
  "Reads from the byte buffer return exactly the bytes written, in order, each once: every write form appends its bytes and reports their number, every read returns up to the requested count, reports it, consumes what it returned, and reports end of input exactly when nothing is left. Length, contents and text always equal the unread bytes, a text taken earlier never changes, and reading changes no bytes taken or given earlier, and reset empties it, for buffers made in any of the offered ways.",
  ["histories", "inputs"], "every sequence of writes (bytes, text, single byte, 32-bit integer), reads of any size, resets and views",
  "The package has no tests; consumption and end-of-input errors depend on read sizes relative to content.",
  ["buffer/buffer.go"], [("Write*/Read/Reset", "buffer/buffer.go:46"), ("constructors", "buffer/buffer.go:22")],
  ["return values and contents after every operation"])
p("C30", "Buffered file writes land once, contiguous, in order and at the reported offset",
  "Every record given to the buffered file by any number of goroutines ends up in the file exactly once, contiguous and unmodified, records of one goroutine in the order written, after any earlier file content, and a file opened by its path never overwrites what another opening has written; when a synchronous write returns, the record is in the file at exactly the returned offset, and closing leaves nothing unwritten. The write calls report the full length, and the caller may reuse its slice once the call returned.",
  ["schedules", "histories"], "every interleaving of synchronous and buffered writes by several goroutines, record sizes, pre-existing content, reads and close",
  "No test covers the buffered file; lost, duplicated or misplaced records need flush-time interleavings.",
  ["fastio/file.go", "fastio/fw.go", "fastio/util.go"], [("WriteSync group commit", "fastio/fw.go:41"), ("Write buffering", "fastio/fw.go:77"), ("ioWrite flush", "fastio/fw.go:104")],
  ["file contents, returned offsets"], [("pending queue", "records not yet flushed", "fastio/fw.go:28")])
p("C31", "A failing file never blocks writers or turns into a silent success",
  "When the underlying file cannot be written (closed, read-only, device full, size limit), every synchronous write affected returns an error — never success — to each goroutine involved, and all concurrent and later calls, including close, return instead of blocking forever. If the fault goes away later writes work again, and every record reported as written is intact at its reported offset; closing reports an error when the underlying file was closed by someone else.",
  ["fault_sequences", "schedules"], "every fault kind and position in the write sequence, number of concurrent writers",
  "No test injects an I/O error; the blocking and silent-success paths exist only on the error branch under concurrency.",
  ["fastio/fw.go", "fastio/file.go"], [("error propagation in WriteSync/Write", "fastio/fw.go:41"), ("ioWrite error path", "fastio/fw.go:104")],
  ["errors, completion and file contents"])
p("C32", "Memory-mapped file writes land exactly where promised and nowhere else",
  "Appends to a mapped file land one after another from the starting offset, each returning where its data begins; positioned writes change exactly the addressed bytes; and mapping contents and file contents agree once flushed or closed and reopened. A write that does not fit between zero and the file size is refused with an error and changes nothing, nothing crashes for any offset or length, and concurrent appends occupy disjoint ranges.",
  ["histories", "inputs", "schedules"], "every file size, start offset and sequence of append/write-at (plain and synchronous, any length and offset), flush and close; concurrent appenders",
  "No test covers the mapping; boundary offsets, overflow and concurrent appends are a large space.",
  ["mmap/mmap.go", "mmap/sync_unix.go"], [("Append/WriteAt bounds", "mmap/mmap.go:46"), ("sync range alignment", "mmap/sync_unix.go:21"), ("NewMMAP", "mmap/mmap.go:18")],
  ["file bytes, returned offsets and errors"])
p("C33", "HTTP posts carry exactly the given request and return exactly the response",
  "A post sends exactly the given body, headers and cookie to the given address with the POST method, over http or https, repeats it unchanged where the server redirects it with status 307 or 308, and returns exactly the bytes the server answered with, for any content and size, however long the server takes, concurrently from many goroutines without mixing requests. Posts that are over leave no growing number of connections open. A failed exchange (unreachable server, broken response) is an error, not an empty success.",
  ["inputs", "schedules", "fault_sequences"], "every body, header set, cookie, response body and server fault; concurrent callers",
  "No test posts anything; fidelity over arbitrary bytes, truncation faults and concurrency is untested.",
  ["httpclient/post.go"], [("Post/Post2/Post3", "httpclient/post.go:18")],
  ["request seen by a server; returned body and error"])
p("C34", "WebSocket messages arrive once and whole, and closing is reported once",
  "Every message sent on a connected handler arrives at the server once, byte-exact and in the order of one sender, and every message the server sends, of up to 32 MiB, is handed to the message callback once, byte-exact. The open callback runs once before any message, the end of the connection, by either side, is reported once to the error callback (with an error) and once to the close callback, sending afterwards gives an error, and the connection is released. An idle connection stays up. The timeout of the configuration is one of connecting: a server that does not answer within it is an error, and a connection that lasts longer goes on as before. Any callback may be left out, and a message callback that has not returned yet holds up neither the following messages nor sending nor the report of the end. A server that the given certificates do not vouch for is refused.",
  ["inputs", "schedules", "fault_sequences"], "every message size and content, concurrent senders, server-initiated and client-initiated close",
  "The package has no tests; ordering, duplication and close behaviour depend on schedules and faults.",
  ["websocket/wshandle.go"], [("NewHandler", "websocket/wshandle.go:44"), ("Send/sendws", "websocket/wshandle.go:90"), ("read loop", "websocket/wshandle.go:115"), ("Close", "websocket/wshandle.go:103")],
  ["messages at the server and callbacks"])
p("C35", "Small utilities are exact: files, times, random ranges, text and slices",
  "Reading a file returns exactly its bytes and reports missing files, and the existence check agrees, with links standing for what they lead to; parsing a date-time text gives exactly that wall-clock time in China Standard Time; random numbers stay below the given bound and cover the range; concatenation, pattern matching and string-to-bytes views give exactly what the language's own operations give, and recovering turns a panic into an error in place of any earlier one and touches the error in no other case, for any input, also from many goroutines at once.",
  ["inputs"], "every file content, valid time text, positive bound, string list and pattern",
  "Existing tests print a few random numbers; exactness must hold for all inputs.",
  ["util/encode.go", "fast/fast.go"], [("ReadFile/IsFileExist", "util/encode.go:128"), ("StrToTimeFormat", "util/encode.go:114"), ("RandUint/RandInt64Strict", "util/encode.go:94"), ("Concat/MatchString", "util/encode.go:31"), ("StringToSlice", "fast/fast.go:15")],
  ["return values"])
p("C36", "Image transforms produce the exact pixels and sizes their mode promises",
  "For losslessly encoded input, rotations by quarter turns, flips, inversion, greyscale and crops give exactly the pixels those operations define, and a resize gives exactly the dimensions its mode prescribes and the pixels of the chosen resampling filter (or of the default one), keeping the aspect ratio where promised and never exceeding a given pixel limit. Animated GIFs keep their frame count, delays, disposals and loop count, and a frame of one colour stays of that colour; input that is not an image is returned unchanged or reported as an error; nothing crashes and input bytes are never modified.",
  ["inputs", "configurations"], "every image size and content, target size, mode and option combination; arbitrary garbage input",
  "The package has no tests (it is not even built by the test run); dimension rules cover many mode/size combinations.",
  ["image/image.go", "image/adjust.go"], [("Encode/Resize", "image/image.go:268"), ("mode to size rules", "image/image.go:457"), ("crop/rotate/flip/grey", "image/adjust.go:19"), ("ResizeGIF", "image/image.go:117")],
  ["decoded output pixels and dimensions"])
p("C37", "A registered signal reaches its handler once, with the right signal",
  "Once a handler is registered for a set of signals, the first signal of that set delivered to the process calls the handler exactly once with that signal, for any set and order, and signals outside the set do not call it. Several registrations, for the same or different signals, work independently, and registering never waits for a signal.",
  ["histories"], "every subset of signals, registration and delivery sequence",
  "No test delivers a signal; independence and selection depend on the set and the delivery sequence.",
  ["gosignal/gosignal.go"], [("ListenSignalEvent loop", "gosignal/gosignal.go:15")],
  ["handler calls"])
p("C38", "Synchronous writes to a mapped file are on disk when they return",
  "When a synchronous append or a synchronous positioned write to a mapped file returns without error, everything it wrote has been handed to the disk: no page it changed is left only in memory, whatever the position, length and file size, also when several goroutines write at once. When flush returns without error the same holds for everything written before it, also directly through the mapping's bytes.",
  ["inputs", "histories", "schedules"], "every position, length, file size and sequence of synchronous writes",
  "A test that reads the file back sees the page cache, where unsynchronised data is indistinguishable from data on disk.",
  ["mmap/mmap.go", "mmap/sync_unix.go"], [("AppendSync/WriteAtSync", "mmap/mmap.go:70"), ("mmapSyncToDisk", "mmap/sync_unix.go:18"), ("Flush", "mmap/mmap.go:118")],
  ["the kernel's dirty-page account of the mapping"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
