#!/usr/bin/env python3
# Writes /verif/properties.jsonl. One entry per property: id, title, statement, over, quantifier text, why, files, state, mechanism.
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    a = {"files": files.split(), "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Containers and stores are free of data races under any mix of calls",
  "Any number of goroutines may call any operations of one map, cache, bloom filter, ordered map, consistent-hash ring or account store at the same time: every access to its shared state is made under a lock common to all accesses of that state, exclusively when it changes the state, or through an operation that is itself atomic.",
  "schedules programs", "every interleaving of every mix of public operations on one shared instance",
  "the tests call the containers from one goroutine, or without the race detector; a lockset argument covers every interleaving",
  "hashmap/map.go hashmap/limitmap.go hashmap/limithashmap.go hashmap/linkedhashmap.go hashmap/treemap.go hashmap/consistenthash.go cache/lrucache.go cache/bloom.go keystore/keystore.go keystore/bin.go",
  [("mutex of each container", "lock/mu/mux/mutex fields and their Lock/RLock calls"), ("sync.Map", "hashmap/map.go, linkedhashmap.go")],
  [("entries and order", "map and list that must change together", "cache/order, m/list fields")])
p("C02", "Every lock the library takes is released on every way out",
  "A public operation that takes an internal lock returns with it released, whether it succeeds, fails, panics in a user's callback or on malformed data, or hands its work to another goroutine, and no lock is released twice or by someone who does not hold it. The operations whose purpose is to hand a lock to the caller are the only ones that return with it held.",
  "inputs schedules fault_sequences", "every path through every public operation, including error returns and panics raised by user callbacks",
  "no test makes an operation fail or panic while it holds a lock and then uses the object again",
  "hashmap/limitmap.go hashmap/linkedhashmap.go hashmap/treemap.go hashmap/consistenthash.go cache/lrucache.go fastio/fw.go mmap/mmap.go keystore/keystore.go keystore/bin.go pool/gopool/gopool.go lock/lock.go lock/await.go websocket/wshandle.go",
  [("deferred Unlock", "most methods"), ("explicit Unlock on each branch", "mmap.Append, mmap.WriteAt, fastio.unlock, GoPool dispatcher")])
p("C03", "Shared counters, flags and cursors are read and written without data races",
  "In the locks, waiters, pools, append files, memory maps, sockets and the UUID generator, a field that several goroutines may use is accessed atomically everywhere or under one common lock everywhere, so that no update is lost and no stale or torn value is read.",
  "schedules programs", "every interleaving of public operations and the library's own goroutines",
  "the race needs two goroutines in the same instruction window; the tests neither use the race detector nor assert the counters",
  "lock/lock.go pool/gopool/gopool.go fastio/fw.go fastio/file.go mmap/mmap.go websocket/wshandle.go uuid/uuid.go hashmap/map.go cache/bloom.go",
  [("sync/atomic", "count/_count, tnum, id, wc, cc, offset, seq"), ("mutex", "mmap cursor, websocket error")])
p("C04", "Bounded maps never exceed their capacity and evict their oldest entry",
  "A capacity-limited map (plain, segmented or linked) created with a positive capacity never holds more entries than that capacity after an operation, and when it must make room it removes the entry at the old end of its order, from every structure that records it. Updating a key that is present evicts nothing.",
  "histories inputs", "every sequence of insertions, updates and deletions, and every positive capacity",
  "the tests print contents for one small history and assert nothing about the bound or the victim",
  "hashmap/limitmap.go hashmap/limithashmap.go hashmap/linkedhashmap.go cache/lrucache.go",
  [("capacity test before insertion", "Put, LoadOrStore"), ("eviction from the back of the order list", "Put, LoadOrStore")],
  [("order list and index", "agree on the set of entries", "order/cache, list/m, count")])
p("C05", "Lookups and updates answer for exactly the key asked for",
  "For every key, a lookup returns the value most recently stored under that very key and whether there is one; an insertion that replaces reports the value it replaced and that it did, one that does not replace reports so; load-or-store keeps and returns an existing value and otherwise stores and returns the given one; a deletion removes that key only. Keys that merely share a hash are different keys, and a stored nil is a stored value.",
  "histories inputs", "every history of operations on one map or cache, every key including colliding ones, every value including nil interfaces",
  "tests use a few small keys and non-nil values, and never check the reported previous value",
  "hashmap/map.go hashmap/limitmap.go hashmap/limithashmap.go hashmap/linkedhashmap.go hashmap/treemap.go cache/lrucache.go",
  [("index keyed by the key", "cache/m/tree"), ("comma-ok lookups", "Get, Put, Has, Contains, Del")])
p("C06", "The reported number of entries equals the number of entries held",
  "Whenever no operation is in progress, the length a map reports is the number of keys it holds: each insertion of a new key adds one, each deletion or eviction of a present key subtracts one, clearing resets to zero, and replacing or deleting an absent key changes nothing.",
  "histories schedules", "every history, including concurrent insertions and deletions of the same key",
  "lengths are only checked after a handful of sequential insertions",
  "hashmap/map.go hashmap/limitmap.go hashmap/limithashmap.go hashmap/linkedhashmap.go",
  [("counter updated with the outcome of the atomic map operation", "MapL.Put, MapL.Del"), ("counter updated under the lock", "LinkedHashMap")])
p("C07", "The consistent-hash ring always maps a key to a live node, deterministically",
  "After any sequence of additions and removals, looking up a key gives a node that is in the ring, or reports that there is none, and never panics; the answer depends only on the key and the set of nodes, not on the process, the time or the order of additions. Removing a node removes all its points and no other node's, and asking for the next nodes goes round the ring and never repeats a node or returns the key's own.",
  "histories inputs", "every history of Add and Del, every key and step",
  "the tests print a few lookups on a fixed ring and never delete every node or cross the end of the ring",
  "hashmap/consistenthash.go",
  [("sorted point list rebuilt on every change", "Add, Del"), ("binary search with wrap-around", "Get, GetStr, GetNextNodeStr")],
  [("keys", "sorted points of all nodes", "Consistenthash.keys"), ("m", "point to node", "Consistenthash.m")])
p("C08", "Keyed locks give one key one lock, in every operation and mode",
  "For every key, locking, trying and unlocking act on the same mutex, which exists for every key including negative and empty ones, and the mutex returned to the caller is the one that was acquired. Read operations pair with read operations and write operations with write operations, and a failed try acquires nothing.",
  "inputs schedules", "every key and every number of stripes",
  "no test locks a negative key or checks that two operations on one key exclude each other",
  "lock/lock.go", [("stripe index computed from the key", "Numlock and Strlock methods"), ("all stripes created up front", "NewNumLock, NewStrlock")])
p("C09", "A waiter always gets its value, its timeout or its cancellation, and cleans up",
  "A wait ends with the value put for its id, with an error after a positive timeout, or, where it takes a context, with the cancel flag when the context is cancelled, whatever the timeout; a value put once for a waiter that is there is delivered to it and the putter does not block. However a wait ends its id is forgotten, and completing, closing or timing out in any order never panics in the caller.",
  "schedules histories", "every interleaving of waiters, putters, closers, timeouts and cancellations on one id",
  "tests run one waiter against one putter and print the result",
  "lock/await.go lock/fastawait.go",
  [("buffered channel per id", "Get, Wait"), ("select over channel, timer and context", "Wait*"), ("deferred removal and recovery", "Wait*, Close*")])
p("C10", "The limit lock admits at most its limit and accounts for every admission",
  "At most the configured number of callers hold a limit lock; an acquisition either takes exactly one place and succeeds or takes none and reports a timeout, a release gives back exactly one place, and the counters rise by exactly one per acquisition and per release so that their difference is the number of holders.",
  "schedules", "every interleaving of Lock and Unlock and every timeout outcome",
  "there is no test of the limit lock",
  "lock/lock.go", [("buffered channel of the limit's size", "NewLimitLock"), ("select with a timer", "LimitLock.Lock")])
p("C11", "The goroutine pool runs every function exactly once",
  "Every function handed to the pool is run exactly once, whatever the limits, whether workers are busy or idle, other functions panic, the pool is turned off, on, or closed meanwhile; a function that panics in a worker costs neither the worker nor the program, and no pool operation panics or sends on a closed channel. Outside closing and turning off, no more workers run than the larger of the two limits.",
  "schedules histories", "every interleaving of submissions, completions, panics, TurnOff and Close",
  "the tests time the pool and never count executions, nor submit while it closes",
  "pool/gopool/gopool.go",
  [("hand-over through channels", "Go, dispatcher, worker"), ("dispatcher lock re-tried after release", "funcn"), ("worker returns itself to the pool", "put")],
  [("tnum", "functions not yet dispatched", "GoPool.tnum"), ("count/id", "busy workers and worker numbers", "GoPool.count, GoPool.id")])
p("C12", "The append file keeps every write whole and reports its true position",
  "Concurrent writes to an append file never interleave their bytes, lose or duplicate any: each goes to the file while its writer holds the file's lock, queued data is written by whoever holds the lock before the lock is left free, and closing writes what is queued. A synchronous write returns only when its bytes have been handed to the file, with the position they were written at, and a failure to write them is reported to it and leaves the file usable.",
  "schedules fault_sequences", "every interleaving of Write, WriteSync and Close, and write errors at any point",
  "there is no test of concurrent writers or of a failing file",
  "fastio/fw.go fastio/file.go",
  [("writer lock and queue", "WriteSync, Write, ioWrite"), ("completion signal after the flush", "ioWrite")],
  [("offset", "end of file", "fileHandle.offset"), ("wc", "queued writes", "mwriter.wc")])
p("C13", "Memory-mapped writes stay inside the file and appends never overlap",
  "A write to a mapped file either lies entirely inside the file and copies exactly the given bytes to the given position, or is refused with an error and changes nothing; no offset, length or combination of them, however large or negative, panics or writes elsewhere. Two appends never share a byte: each is given the position at which its bytes were reserved, and an explicit write beyond the append position moves that position past it.",
  "inputs schedules", "every offset and length, every interleaving of appends",
  "the tests append a few bytes in one goroutine",
  "mmap/mmap.go", [("bounds test under the lock", "Append, WriteAt"), ("reservation before the copy", "Append")],
  [("offset", "append position", "Mmap.offset"), ("maxsize", "file size", "Mmap.maxsize")])
p("C14", "A synchronous mapped write is flushed over its whole range before success",
  "On every supported system, when a synchronous append or write to a mapped file returns success, the flush that preceded it covered every byte it wrote, and an error of the write or of the flush is returned.",
  "inputs crash_points configurations", "every offset and length relative to page boundaries, on Unix, Solaris and Windows builds",
  "the tests cannot lose power after the call, run on one system only, and start at page-aligned offsets",
  "mmap/mmap.go mmap/sync_unix.go mmap/sync_windows.go mmap/sync_solaris.go",
  [("page-aligned msync", "sync_unix.go"), ("FlushViewOfFile and FlushFileBuffers", "sync_windows.go")])
p("C15", "Compression returns complete streams and decompression reports damaged ones",
  "Whatever is compressed, the bytes returned are the finished stream, which the matching decompressor of the same package turns back into the input; decompressing a truncated or corrupt stream reports an error, never a silent prefix.",
  "inputs", "every input length and content, every compression level, every truncation or corruption point",
  "the tests print the result of one nine-byte round trip without comparing it",
  "util/compress.go compress/compress.go",
  [("writer closed before the buffer is read", "Zlib, ZlibLevel, Gzip"), ("copy error returned", "UnZlib, UnGzip")])
p("C16", "Integer, base-58 and UUID text encodings are inverse to one another",
  "For every value, encoding an integer of any supported width to bytes is big-endian and decoding returns the same value, an integer slice and a base-58 number decode to what was encoded, and parsing a UUID's text returns the same UUID. A number too large for its type and a text that is not an encoding are rejected where the decoder can report it.",
  "inputs", "all 2^16, 2^32 and 2^64 values of each width, all strings",
  "the tests try a prefix of the 32-bit range and a few constants",
  "util/num.go uuid/uuid.go base58/base58.go buffer/buffer.go hashmap/consistenthash.go",
  [("shift by eight times the byte index", "Int64ToBytes and its siblings"), ("repeated division by 58", "base58")])
p("C17", "Account store changes are saved before returning, in their own category",
  "Adding or removing an administrator, client, message-queue user or other entry changes only that category and that name, and the whole updated store is written to the key store before the call returns and before any other change can start; a lookup or listing reads only its own category. Passwords are only ever stored hashed.",
  "histories schedules", "every sequence and interleaving of account operations",
  "the tests print one account after a reload",
  "keystore/keystore.go", [("save after each change, under the store's lock", "Put*, Del*")],
  [("kb", "the four categories", "storeAdmin.kb")])
p("C18", "Saving the key store is atomic: a crash or failure leaves the old or the new",
  "At whatever point the process or machine stops, or an operation fails, while the key store is being saved, the file later loaded holds the complete previous contents or the complete new contents; the new contents are forced to disk before they replace the old. A save that could not be completed returns an error, and saving and loading use the same encoding.",
  "crash_points fault_sequences", "every crash point and every failing file operation during a save",
  "no test stops or fails a save half way",
  "keystore/bin.go", [("write to a new file, sync, rename", "_keyStore.Write")])
p("C19", "Malformed input never panics: it is reported or ignored",
  "No byte sequence given as ciphertext, key, encoded number, UUID text or compressed stream, however short, long or damaged, makes the decoding operations panic: the operations that return an error return it.",
  "inputs", "all byte sequences and strings of every length",
  "the tests pass well-formed input only",
  "keystore/aes.go keystore/key.go util/num.go util/compress.go uuid/uuid.go base58/base58.go buffer/buffer.go",
  [("length and padding checks", "DecrypterCbc"), ("nil and type checks", "RsaEncryptByBytes, RsaDecryptByBytes"), ("length checks", "Parse, BytesToInt*")])
p("C20", "The library never modifies or keeps the byte slices it is given",
  "A byte slice passed in as data to encode, encrypt, hash, send, compress or write has the same contents when the call returns, including beyond its length, and after an operation that may return before it has used the data, the caller may reuse the slice without affecting what is written. Only operations documented to fill or wrap a slice (reading into it, building a buffer on it) do so.",
  "inputs histories", "every slice, including one with spare capacity, and every later use by the caller",
  "tests pass string literals, which have no spare capacity, and never look at the input again",
  "keystore/aes.go fastio/fw.go util compress base58/base58.go buffer/buffer.go httpclient/post.go websocket/wshandle.go",
  [("copy before in-place encryption", "EncrypterCbc"), ("copy before queueing", "fastio Write")])
p("C21", "A failure is never reported as success",
  "Where an operation can return an error, every error it receives from the operations it relies on and every panic it recovers from is returned to the caller, handled by an alternative that is itself reported, or belongs to a clean-up whose outcome cannot change the result; it is never dropped and never overwritten by a later success.",
  "fault_sequences inputs", "every failing call on every path of every operation that returns an error",
  "no test makes an underlying operation fail",
  "util compress keystore mmap fastio httpclient/post.go websocket/wshandle.go uuid/uuid.go lock/await.go lock/fastawait.go",
  [("err results", "throughout"), ("deferred recovery into the error result", "lock, keystore/key.go, fastio")])
p("C22", "The byte buffer obeys the io.Reader and io.Writer contracts",
  "Writing to a byte buffer appends exactly the given bytes and reports exactly how many it appended; reading copies out and consumes the same bytes from the front, reports how many, and reports end of file, with no bytes, when nothing is left and something was asked for. A nil buffer reports errors instead of panicking where the operation can report one.",
  "inputs histories", "every sequence of reads and writes of every size",
  "there is no test that reads a buffer to its end or checks the counts",
  "buffer/buffer.go", [("append and count", "Write*"), ("copy and advance", "Read")])
p("C23", "Pools hand out clean objects and give no object to two owners",
  "An object taken from an object or buffer pool has been reset, and an object returned to a pool is no longer reachable through the reference it was returned by; nothing that was not given is put in, and the library never uses, or returns to its caller, memory of an object it has returned to a pool.",
  "histories schedules", "every sequence of taking, using and returning objects",
  "tests take and return one object",
  "pool/buffer/buffer.go pool/buffer/pool.go buffer/buffer.go hashmap/consistenthash.go",
  [("reset on Get", "pool.Get, BufferPool.Get"), ("reference cleared on Put", "pool.Put")])
p("C24", "UUIDs of one process are distinct, well formed and compared by value",
  "No two UUIDs made in one process, by any number of goroutines, share the sequence part unless 2^62 were made in between; every UUID carries version 4 and the RFC 4122 variant, and its text form is the canonical 8-4-4-4-12 hexadecimal form. Two UUIDs are equal exactly when all their 16 bytes are.",
  "schedules inputs", "every interleaving of generators, every value",
  "the tests draw a bounded sample",
  "uuid/uuid.go", [("atomic sequence", "getSeq"), ("sequence placed in the last eight bytes", "NewUUID"), ("version and variant bits", "NewUUID")])
p("C25", "The WebSocket client delivers, closes and authenticates as configured",
  "Frames sent by several goroutines are written one at a time; every message received is passed to the message handler; when the connection ends, by error or by Close, the error handler gets a non-nil error and the close handler runs exactly once, and later sends fail. When certificates are configured the server's certificate is verified against them and a certificate that cannot be used is an error, and only ws and wss addresses are accepted.",
  "schedules configurations", "every interleaving of sends, receipt and closing, every configuration",
  "there is no test without a network server",
  "websocket/wshandle.go", [("send lock", "sendws"), ("read loop", "read"), ("TLS configuration", "NewHandler")])
p("C26", "An HTTP post sends what it was given, reports every failure and leaks nothing",
  "A post sends the given body, headers and cookie to the given address with method POST; an error making the request, performing it or reading the answer is returned, the complete answer body is returned otherwise, and the response body is closed on every path.",
  "inputs fault_sequences", "every body, header map, cookie and failing step",
  "there is no test of the HTTP client",
  "httpclient/post.go", [("deferred Close of the body", "Post3")])
p("C27", "The bloom filter never denies one of its most recent items",
  "Every item among the last expected-number of items added is reported as contained, whichever goroutines add and ask and for every expected number of at least one and every false-positive rate above 0 and at most 1: adding and asking use the same bit positions, and the segment an item went to is kept until at least that many more items were added.",
  "histories schedules inputs", "every sequence and interleaving of additions and queries",
  "the test adds 31 items to a filter for two million, from one goroutine, and only prints misses",
  "cache/bloom.go", [("same index function for adding and testing", "Add, Contains"), ("rotation of three segments", "getBitIndex, rotate")])
p("C28", "The ordered map iterates in key order and stops when told",
  "Ascending iteration visits each entry in strictly increasing key order and descending iteration in strictly decreasing order, for every ordered key type, passing each entry's own key and value, and the iteration stops after the callback returns false.",
  "inputs histories", "all keys, all histories of insertions and deletions",
  "the tests print the order for a few keys",
  "hashmap/treemap.go hashmap/map.go", [("comparison by key", "treeItem.Less"), ("B-tree traversal", "Ascend, Descend")])
p("C29", "Account records survive being saved and loaded field for field",
  "Every field of the persisted account records is written with the number and type under which it is read back, every map entry is written and read as key then value, no field is skipped, and an error at any step stops and is returned.",
  "inputs", "all records and all read or write failures",
  "the tests reload one record and print it",
  "keystore/store.go util/gob.go thrift/serialize.go", [("generated readers and writers", "Read, Write, ReadFieldN, writeFieldN")])
p("C30", "Encryption and decryption agree on key, IV, padding and format",
  "What is encrypted with a password or key decrypts with the same password or key to the same bytes: both directions derive cipher key and IV from the password in the same way, padding always adds at least one byte and is removed exactly, and the RSA operations use the same padding scheme and the key formats of the matching pair.",
  "inputs", "all messages of all lengths, all passwords",
  "the tests round-trip one short text",
  "keystore/aes.go keystore/key.go", [("derivation in the constructor", "NewAes"), ("PKCS#7 padding", "EncrypterCbc, DecrypterCbc")])
p("C31", "The digest helpers compute the function they are named for",
  "Each checksum and digest helper returns the named standard function of all the bytes it is given and of nothing else: the 8-bit CRC uses the complete table of its polynomial, the 32- and 64-bit CRCs, FNV-1a, MD5, SHA-1 and BLAKE2b-256 delegate to the standard implementation, and the text forms are the upper-case hexadecimal of the digest.",
  "inputs", "all byte sequences",
  "the test prints one CRC",
  "util/encode.go hashmap/consistenthash.go", [("table lookup", "CRC8"), ("delegation", "CRC32, CRC64, FNVHash*, MD5, SHA1, Blake2b")])
p("C32", "A signal listener hears the signals asked for, without missing the first",
  "The signal listener registers exactly the requested signals on a channel that can hold one before it returns, and passes the received signal to the handler.",
  "schedules", "every moment at which a signal may arrive",
  "there is no test of the signal listener",
  "gosignal/gosignal.go", [("buffered channel", "ListenSignalEvent")])
# not claimed
p("C40", "The bloom filter's false-positive rate stays below the configured rate",
  "For items never added, the fraction of queries answered 'contained' is at most the configured rate when at most the expected number of items has been added.",
  "inputs", "the distribution of all item sets", "it is a statement about a distribution", "cache/bloom.go", [("bit count and hash count", "NewBloomFilter")])
p("C41", "UUIDs of different processes and machines do not collide",
  "UUIDs generated by different processes, on the same or on different machines, are distinct with overwhelming probability.",
  "configurations", "all pairs of processes and machines", "it is probabilistic and spans processes", "uuid/uuid.go", [("random process part", "newBase")])
p("C42", "The consistent-hash ring spreads keys evenly over its nodes",
  "With enough replicas the share of keys mapped to each node differs little from the average, and adding a node moves only about its share of keys.",
  "inputs", "the distribution of keys", "it is a statement about a distribution", "hashmap/consistenthash.go", [("replicas", "Add")])
p("C43", "Image resizing keeps the aspect ratio and the image contents",
  "The pixels and dimensions produced by each resizing mode, crop and filter are those the mode documents, for every image.",
  "inputs", "all images, sizes and modes", "it is numerical, and the package cannot be built in this sandbox", "image/image.go image/adjust.go", [("mode table", "praseMode")])
p("C44", "Each map operation takes effect at one instant (linearizability)",
  "Every concurrent history of map operations, including iteration, is equivalent to a sequential one that respects real time.",
  "schedules histories", "all concurrent histories", "tests are sequential", "hashmap", [("locks and sync.Map", "hashmap")])
p("C45", "Waits and limit locks time out within a small bound of their timeout",
  "A wait or acquisition that times out does so no earlier than its timeout and not much later.",
  "schedules", "all schedules", "timing", "lock/await.go lock/fastawait.go lock/lock.go", [("timers", "Wait, Lock")])
p("C46", "The goroutine pool makes progress and is fair",
  "A submitted function starts as soon as a worker is free, and no function waits for ever while others are started.",
  "schedules", "all schedules", "liveness under every scheduler", "pool/gopool/gopool.go", [("dispatcher", "_funcn")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
