prop("C01", "Concurrent maps are linearizable per key",
 "For every interleaving of Put, Get, Has and Del on a Map or MapL, the results for each key are those of some sequential order of the calls consistent with real time (Put returns the value it replaced and whether there was one; a stored nil is a value like any other; MapL.Del reports whether the key was present). Range reports each key at most once, only with a value that was stored for it, and stops when told to; once no call is in progress, Range, Get, Has and MapL.Len agree with each other.",
 [S, H], "all interleavings of concurrent callers and all call histories", "the tests call the maps from one goroutine or ignore results; they reach a handful of schedules",
 ["hashmap/map.go"], [("atomic swap/load-and-delete of sync.Map, counter adjusted by the result", "hashmap/map.go MapL.Put/Del, Map.Put/Del")])
prop("C02", "LimitMap is a linearizable bounded map evicting the least recently put entry",
 "A LimitMap never holds more than its capacity, and every interleaving of Put, Get, Del, RemoveMulti and Len gives the results of some sequential order on a bounded map. Putting a new key into a full map evicts exactly the entry whose last Put is oldest; putting an existing key overwrites it, refreshes it and evicts nothing; Get does not refresh.",
 [S, H], "all interleavings and histories, all capacities >= 1", "the tests put a few keys sequentially and print",
 ["hashmap/limitmap.go"], [("one RWMutex around a hash map and a recency list kept in step", "hashmap/limitmap.go")])
prop("C03", "LimitHashMap stays within its capacity and keeps unevicted keys intact",
 "A LimitHashMap never reports more entries than its capacity, whatever the key type, segment count and interleaving of Put, Get, Del, Contains, Clear and Len. With one segment and no two keys hashing alike it behaves as some sequential order on a bounded map that evicts the entry inserted first when full, where overwriting a present key neither evicts nor refreshes, and a stored nil is a value like any other; with several segments each key on its own behaves as a linearizable register that may additionally lose its entry only when more distinct keys are in use than one segment has room for. Two different string keys are never confused with each other even when their hashes collide, and Len equals the number of present keys once no call is in progress.",
 [S, H, I, C], "all interleavings, histories, key types, capacities and segment counts >= 1", "the tests use one key type, one goroutine and print",
 ["hashmap/limithashmap.go"], [("per-segment lock, map and insertion list", "hashmap/limithashmap.go Put/Get/Del"), ("full key compared after the hash", "hashmap/limithashmap.go")])
prop("C04", "LinkedHashMap keeps order, limit and load-or-store semantics",
 "Every interleaving of Put, LoadOrStore, Get, Delete, MoveToFront, Front, Back, Len and Clear on a LinkedHashMap gives the results of some sequential order on an ordered list of at most `limit` entries: Put and LoadOrStore bring the key to the front, a new key in a full map evicts the entry at the back, LoadOrStore returns the existing value untouched or stores and returns the new one. The only exception is that a Get may still see the entry that an overlapping insertion is evicting. Iterators yield only stored pairs, and on a map nobody is changing they yield every entry exactly once, front to back or back to front.",
 [S, H], "all interleavings and histories, all limits >= 1", "the tests are sequential and only print",
 ["hashmap/linkedhashmap.go"], [("mutex around list and count, lock-free sync.Map reads", "hashmap/linkedhashmap.go")])
prop("C05", "TreeMap is linearizable, with atomic traversals in key order",
 "Every interleaving of Put, Get, Del, Ascend and Descend on a TreeMap gives the results of some sequential order on a sorted map. A traversal is one atomic step of that order: it visits every key present at one instant exactly once, in ascending (descending) order with its value, until the callback returns false.",
 [S, H], "all interleavings and histories, all degrees >= 2", "tests are sequential, with few keys",
 ["hashmap/treemap.go"], [("RWMutex around the B-tree, held during traversal", "hashmap/treemap.go")])
prop("C06", "Consistent hashing depends only on the node set and moves minimally",
 "At every moment, Get, GetStr and GetNextNodeStr on a Consistenthash answer exactly as a freshly built ring holding the nodes added and not deleted so far would, whatever the order of Add and Del and whatever runs concurrently; they fail (without panicking) exactly when there is no node. Removing a node re-maps only the keys that were on it, adding one only moves keys onto it. GetNextNodeStr(key, n) with n >= 1 lists the min(n, nodes-1) distinct nodes that would successively take the key over if its node, then the next, and so on were removed.",
 [S, H, I], "all interleavings of Add/Del/lookups, all node sets, keys and replica counts >= 1", "there is no test of it",
 ["hashmap/consistenthash.go"], [("sorted virtual-node ring rebuilt under a write lock", "hashmap/consistenthash.go Add/Del/Get*")])
prop("C07", "LruCache is a linearizable LRU of bounded size",
 "Every interleaving of Add, Get, Remove and RemoveMulti on an LruCache gives the results of some sequential order on a cache of at most `maxEntries` entries in which Add and a successful Get make the key most recent and adding a new key to a full cache evicts exactly the least recently used one.",
 [S, H], "all interleavings and histories, all sizes >= 1", "the test adds from one goroutine and prints",
 ["cache/lrucache.go"], [("mutex around groupcache/lru", "cache/lrucache.go")])
prop("C08", "BloomFilter never denies a recently added item",
 "An item whose Add has returned is reported by Contains for as long as fewer than `expectedItems` other additions have been in progress at any time since its Add began (those already under way then count), whatever additions and queries run concurrently, across every rotation of the filter's segments (provided no single call is overlapped by `expectedItems` or more additions).",
 [S, H, C], "all interleavings of Add and Contains, every rotation point, all sizes >= 1 and error rates between 0 and 1", "tests add 31 items from one goroutine and never rotate",
 ["cache/bloom.go"], [("three rotating bit segments selected by an atomic counter", "cache/bloom.go getBitIndex"), ("atomic bit setting", "cache/bloom.go setBit")])
prop("C09", "Keyed locks give mutual exclusion per key and always make progress",
 "For every key (any int64, any string) and any number of stripes >= 1, at most one caller holds the Numlock or Strlock write lock of that key at a time, and never together with a reader of it; several readers may hold it together. The lock is released equally by Unlock/RUnlock with the key or by the returned mutex, TryLock and TryRLock never wait and fail only while a call or hold of a key that shares the lock is under way (which keys share one never changes), and if every holder eventually releases and holds one lock at a time, every Lock and RLock call returns.",
 [S, H, I, C], "all interleavings, keys and stripe counts", "no test exercises contention",
 ["lock/lock.go", "util/encode.go"], [("striped mutexes chosen by key (hash)", "lock/lock.go Numlock, Strlock")])
prop("C10", "LimitLock bounds concurrent holders and hands freed slots on",
 "At most `limit` callers hold a LimitLock at any time; Lock fails only after its timeout has passed and then promptly, and a waiter gets a slot that is released while it waits. Slots are never lost or duplicated: once nobody holds or waits, exactly `limit` acquisitions succeed at once, LockCount equals the acquisitions made and Cc the holders.",
 [S, H, C], "all interleavings of acquisitions, releases and timeouts, all limits >= 1", "no test covers timeouts racing with releases",
 ["lock/lock.go"], [("buffered channel as semaphore plus timer", "lock/lock.go LimitLock.Lock/Unlock")])
prop("C11", "Await hands each answer to the waiter of its key, and only to it",
 "While at most one Wait, WaitWithCancel or SyncWait per key is in progress on an Await, each returns without error only with a value given to CloseAndPut for that same key, or with the zero value if Close was called for it; it fails only after its timeout has passed or its context was cancelled. CloseAndPut or Close on a key whose waiter is registered always completes that waiter, SyncWait signals its wait group only once the waiter is registered, and no call panics or blocks for ever.",
 [S, H], "all interleavings of waiters, responders, closers, timeouts and cancellations", "the tests pair one waiter with one responder at fixed delays",
 ["lock/await.go", "lock/lock.go", "hashmap/map.go"], [("per-key channel of capacity 1 created under the key's lock", "lock/await.go Get"), ("removal before the send so that only one responder sends", "lock/await.go CloseAndPut/Close")])
prop("C12", "Await and FastAwait end with the earliest of value, timeout and cancel",
 "A wait (Wait, WaitWithCancel, and SyncWait) on an Await or FastAwait ends with whichever comes first of an answer, its timeout (none when not positive) and the cancellation of its context, at that moment up to the polling interval (1 ms Await, 100 ms FastAwait). An answer given up to 0.9 s (Await) or 2.7 s (FastAwait) before the wait begins is still delivered; answering a key nobody waits for gives up after about 1 s or 3 s, and at once on a FastAwait key whose wait is already over (FastAwait remembers finished keys in a Bloom filter, so with its false-positive probability an early answer for a fresh key may also be given up at once).",
 [S, F, I], "all placements in time of starts, answers, timeouts and cancellations when no thread is starved", "the tests use real sleeps with one or two placements",
 ["lock/await.go", "lock/fastawait.go"], [("select over channel, timer and context", "lock/await.go, lock/fastawait.go"), ("bounded polling for a late waiter", "CloseAndPut/Close")])
prop("C13", "FastAwait hands each answer to the waiter of its key, and only to it",
 "While every key is used by one Wait or WaitWithCancel at most, each wait on a FastAwait returns without error only with a value given to CloseAndPut for that same key, or with the zero value if Close was called for it; it fails only after its timeout has passed or its context was cancelled. Several answers and closes racing for one key never panic, never block for ever and deliver at most one value.",
 [S, H], "all interleavings of waiters, responders, closers, timeouts and cancellations", "the tests pair one waiter with one responder at fixed delays",
 ["lock/fastawait.go", "cache/bloom.go"], [("per-key channel of capacity 1; a Bloom filter remembers finished keys", "lock/fastawait.go")])
prop("C14", "gopool executes every accepted function exactly once",
 "Every function given to GoPool.Go (or submitted by a function the pool is running) is executed exactly once, whatever the interleaving of callers, the pool's limits, and TurnOff switching it off and on; a function that panics while the pool is on affects no other function, no worker is lost to it, and Go never panics. Once no function is waiting or running, NumUnExecu is 0 and the pool keeps executing later functions. (Functions that submit to a pool whose queue is full wait for themselves and are excluded; queue limit >= 1.)",
 [S, H, C], "all interleavings of submitters, workers and dispatcher, all limits", "the tests submit from one goroutine, sleep and print",
 ["pool/gopool/gopool.go"], [("work queue plus a dispatcher that sleeps when idle", "pool/gopool/gopool.go Go, dispatcher"), ("recover around each function", "pool/gopool/gopool.go worker")])
prop("C15", "gopool bounds the functions running at once, and reaches the bound",
 "While a GoPool is on, never more than max(minlimit, maxlimit) of its functions run at the same time, and when that many functions are submitted that can only finish together, they do all get to run at the same time.",
 [S, H, C], "all interleavings, all minlimit/maxlimit/queue sizes", "no test counts concurrently running functions",
 ["pool/gopool/gopool.go"], [("permanent and temporary workers counted against the limits", "pool/gopool/gopool.go dispatcher")])
prop("C16", "gopool Close loses nothing and never crashes",
 "Every function accepted by GoPool.Go before, during or after Close, from any number of callers and with any number of Close calls, some perhaps made by the functions themselves, is still executed exactly once; functions that are running when Close is called may panic, and neither Close, Go nor the process panics or blocks for ever.",
 [S, H, C], "all interleavings of Go, Close, workers and panics", "the tests never close a busy pool",
 ["pool/gopool/gopool.go"], [("Close cancels the workers and drains the queue", "pool/gopool/gopool.go Close")])
prop("C17", "Pooled objects have one owner at a time and come back reset",
 "An object taken from pool/buffer.Pool, pool/buffer.BufferPool or the buffer package's pool (NewBufferByPool/Free) is held by at most one caller until it is put back, whatever runs concurrently; its content changes only by its holder, and it arrives empty (Buffer, bytes.Buffer) or passed through the pool's reset function. Pool.Put clears the caller's pointer and reports true, and putting nothing (nil) reports false and does nothing.",
 [S, H], "all interleavings of takers, all pool states including objects the runtime dropped", "tests use pools from one goroutine",
 ["pool/buffer/buffer.go", "pool/buffer/pool.go", "buffer/buffer.go"], [("sync.Pool with reset", "pool/buffer"), ("Buffer.Free resets before returning", "buffer/buffer.go")])
prop("C18", "buffer.Buffer is a faithful byte stream",
 "A Buffer, however constructed or re-used from the pool, behaves as a queue of bytes: Write, WriteString, WriteByte and WriteInt32 (big-endian, 4 bytes) append exactly their bytes without keeping the caller's slice and return the number appended; Read returns and consumes the oldest bytes and reports io.EOF exactly when asked for bytes with none left, so io.ReadAll, io.Copy and io.ReadFull terminate with the right content; Len, Bytes and String show exactly what is unread; Reset empties it.",
 [H, F], "all operation sequences and all splits and failures of the streams copied through it", "tests write once and print",
 ["buffer/buffer.go"], [("append-only slice with a read position", "buffer/buffer.go Read/Write")])
prop("C19", "fastio appends every write whole, once, in order, and never loses it",
 "For every interleaving of Write and WriteSync calls on one fastio File (from Open or New, on an empty file or one with earlier content), the file is its earlier content followed by the payloads, each whole, exactly once, not interleaved with another, a call that begins after another returned coming later. Once a call has returned without error its bytes are in the file: they survive Close and the death of the process, and the caller may re-use its slice.",
 [S, H, CP], "all interleavings of writers, payload sizes and points of process death or Close", "there is no test of it",
 ["fastio/fw.go", "fastio/file.go"], [("waiting writers merged into one batch by whoever holds the lock", "fastio/fw.go Write/WriteSync")])
prop("C20", "fastio WriteSync returns the offset where its bytes are",
 "A WriteSync that succeeds returns the file offset at which exactly its bytes stand, whatever other Write and WriteSync calls run concurrently or came before, whatever the file held when it was opened and whether or not it was opened for appending; ReadAt at that offset gives the bytes back at once and from then on. Neither ReadAt nor Read nor a WriteAt over bytes already there (refused when opened for appending) disturbs this.",
 [S, H], "all interleavings and mixes of Write and WriteSync, all start contents", "there is no test of it",
 ["fastio/fw.go"], [("running file offset advanced batch by batch", "fastio/fw.go")])
prop("C21", "fastio reports disk errors to the calls they hit, and recovers",
 "When the disk fails, is full or takes only part of a write, every Write and WriteSync still returns: one that reports success is whole in the file (WriteSync: at its offset), one whose bytes are not all there reports an error, and nothing stands between the writes except a leading part of failed ones. When the disk works again, so does the File, with correct offsets.",
 [S, F], "all interleavings and sequences of failed, short and no-space writes", "tests cannot make the disk fail",
 ["fastio/fw.go"], [("error and byte count of the batch write", "fastio/fw.go")])
prop("C22", "Mapped-file appends are disjoint, contiguous and in bounds",
 "For every interleaving of Append, AppendSync, WriteAt and WriteAtSync on a Mmap, some sequential order explains the results: an append takes exactly the next bytes after the highest position written so far (initially the start offset) and returns where; a WriteAt beyond that position moves it; what does not fit in the file is refused with an error and changes nothing. No call panics, whatever the offset, or writes outside the file, the mapping holds exactly what successful writes put there, and after closing so does the file. NewMMAP fails on an empty file or a start offset that is negative, at or past its end.",
 [S, I, H], "all interleavings, sizes (including 0), offsets and file sizes", "there is no test of it",
 ["mmap/mmap.go"], [("position reserved under a lock before copying", "mmap/mmap.go Append/WriteAt")])
prop("C23", "Synchronous mapped-file writes survive power loss",
 "The bytes of an AppendSync or WriteAtSync that returned without error, and of any write completed before a Flush or Close that returned without error, are still in the file after a power loss at any later moment unless overwritten; if the system refuses to write them back, the call reports the error.",
 [S, CP, F], "all interleavings, sizes, page alignments, msync failures and points of power loss", "tests cannot cut the power",
 ["mmap/mmap.go", "mmap/sync_unix.go"], [("msync of the page-aligned range covering the write", "mmap/sync_unix.go")])
prop("C24", "A keystore is a linearizable register that survives restarts",
 "Every interleaving of Write and Read on one key store, across clean restarts of the process and re-opening with NewKeyStore or LoadKeyStore, gives the results of some sequential order on a single value: Read returns exactly the bytes of the last Write, of any size, and an error while nothing was ever written; this also holds for a Read by another object opened on the same store while Writes go on. Write leaves the caller's bytes as they are and keeps no hold of them, and what a Read returned is the caller's and never changes.",
 [S, H, I], "all interleavings of readers and writers, value sizes and restarts", "tests write once and read once",
 ["keystore/bin.go", "util/compress.go"], [("mutex around the store file, compressed content", "keystore/bin.go")])
prop("C25", "Keystore writes are atomic and durable across crashes and disk errors",
 "Whatever fails on the disk and wherever the process dies or the power is lost during a Write, the store afterwards holds one whole earlier or current value, never a mixture, a part or nothing: the value of the last Write that returned without error, or of a later one that did not return or reported an error. Read never returns other bytes without an error, and no call panics.",
 [CP, F, S], "all crash points, fault sequences and interleavings", "tests cannot crash in the middle of a write",
 ["keystore/bin.go"], [("new content written aside, synced and renamed into place", "keystore/bin.go Write")])
prop("C26", "The account store is linearizable and loses nothing it acknowledged",
 "Every interleaving of Put, Get, Del and List on the admin, client, mq and other tables of the store gives the results of some sequential order on four independent maps, for arbitrary names and passwords, and an entry or a list once returned does not change afterwards; after a restart, a crash or a power loss at any point, Load brings back every table as some such order left it, including every change whose call had returned.",
 [S, H, CP], "all interleavings, names, and points of crash and power loss", "tests run one goroutine and never restart",
 ["keystore/keystore.go", "keystore/bin.go"], [("whole state encoded and written on every change, under one lock", "keystore/keystore.go")])
prop("C27", "websocket messages are delivered whole and exactly once, both ways",
 "Whatever goroutines send on a Handler at once, each Send that returns nil has put its bytes on the connection as one whole binary message, exactly once, not mixed with another, after every message whose Send had returned before; the server receives them all unless the connection breaks or closes first, and the caller's bytes are left alone. However the stream is cut into TCP segments, each message the server sends whole (as one frame, possibly empty, with pings in between, which are answered) reaches OnMessage exactly once with exactly its bytes, nothing else does, and a callback that blocks, sends or closes holds up no other message.",
 [S, H, F, I], "all interleavings of senders and callbacks, message sizes, segmentations, delays, resets, and ends of the connection", "there is no test of it",
 ["websocket/wshandle.go"], [("sends serialised by a lock", "websocket/wshandle.go sendws"), ("one receive loop, a goroutine per callback", "websocket/wshandle.go read")])
prop("C28", "websocket handlers open, fail, close and report exactly once",
 "NewHandler returns a connected Handler after calling OnOpen exactly once, before any other callback; or, when the configuration is invalid, the connection is refused or the opening handshake fails or is not finished within TimeOut (when positive), promptly an error, without any callback and leaving neither connection nor goroutine behind. When an established connection ends, by Close from anywhere (also OnOpen, OnMessage, several at once), by the server or by the network, OnError is called once with a non-nil error and OnClose once, both with the Handler NewHandler returned, the socket is closed and no goroutine is left; not before. This holds also for a Close while the server has stopped reading, which cuts short whatever Send is waiting for it. After Close has returned or OnClose begun, Error is not nil and Send fails; Close may be repeated.",
 [S, H, F, C], "all interleavings of Close, callbacks and the read loop, all handshake failures and points where the connection ends", "there is no test of it",
 ["websocket/wshandle.go"], [("error state set once by Close or the read loop", "websocket/wshandle.go read/Close"), ("dial with timeout", "websocket/wshandle.go NewHandler")])
prop("C29", "HTTP posts return the complete answer or an error, and post once",
 "Post, Post2 and Post3 return without error only with the complete body of the server's answer, whatever its status and however it is framed, segmented and delayed, if need be after following a redirect (repeating the POST where the status says so); when the connection is refused, reset or ends before the answer is complete, or the answer is not HTTP, they return an error and no body. The server receives each request at most once at each place (exactly once on success), as a POST of exactly the given bytes with the given headers and cookie. Arguments are left alone, concurrent calls do not mix, an answer never changes after it was returned, and no connection or goroutine outlives the call.",
 [S, F, I], "all interleavings of callers, answer framings, segmentations, and points where the connection fails", "there is no test of it",
 ["httpclient/post.go"], [("one connection per request, whole body read before returning", "httpclient/post.go Post3")])
prop("C30", "A signal listener handles the first listed signal exactly once",
 "Once ListenSignalEvent has returned (which it does at once), its callback is called exactly once, with the first of the listed signals (any signal when none is listed) that is delivered to the process from then on, never with an unlisted one, whatever other listeners exist, however slow their callbacks are and however many signals arrive together.",
 [S, H], "all interleavings of registrations and deliveries", "there is no test of it",
 ["gosignal/gosignal.go"], [("buffered channel and one goroutine per listener", "gosignal/gosignal.go")])
prop("C31", "UUIDs are unique across goroutines and processes, and well-formed",
 "No two NewUUID calls return the same UUID, in whatever goroutines of whatever processes they run, also when processes share pid, clock reading and network addresses or the system's entropy source fails. Each has version 4 and variant 1, String is the canonical 36-character form of its bytes, Parse gives the same UUID back from it in either case and an error for strings of other length or with non-hexadecimal digits, whatever else is parsed at the same time, Equals holds exactly for equal values, and Int64, Int32 and Base58 of equal ones agree.",
 [S, C, F], "all interleavings, process sets, clocks and entropy failures", "tests print a few UUIDs of one process",
 ["uuid/uuid.go"], [("atomic sequence number plus keyed hash", "uuid/uuid.go getSeq, uniq")])
prop("C33", "AES encryption leaves its input alone and rejects damaged data",
 "EncrypterCbc and AesEncrypter never write to the caller's slice or its spare capacity, also with several goroutines sharing an Aes or neighbouring parts of one buffer, and what they return decrypts to the original bytes with the same key and with no other. Decrypting anything else never panics and never writes to its input: a length that is not a positive multiple of 16 is an error, and without an error the result is the input's length less 1 to 16 bytes of valid padding (as many as its last byte says, all of that value). A result never changes after it was returned.",
 [S, I, F], "all interleavings, lengths, and damages of the stored ciphertext", "tests round-trip one text",
 ["keystore/aes.go"], [("copy before padding and in-place encryption", "keystore/aes.go EncrypterCbc"), ("padding removal", "keystore/aes.go DecrypterCbc")])
prop("C34", "RSA encryption with an unusable key or damaged data is an error",
 "RsaEncrypt and RsaDecrypt (and their ByBytes forms) return without error only with a real result: RsaDecrypt gives back exactly the message that was encrypted. A key file that is missing, unreadable, empty, truncated, garbled or of another kind, a message too long for the key, and a truncated ciphertext (unless its padding happens to be valid, with probability about 2^-16; one altered bit of a key may also leave a valid key) all give an error, never an empty result without one, and never a panic.",
 [F, I], "all key file damages, disk faults and message lengths", "tests use the built-in keys only",
 ["keystore/key.go"], [("errors of reading, decoding and parsing returned", "keystore/key.go")])
prop("C35", "ReadFile returns the whole file or an error; IsFileExist tells the truth",
 "util.ReadFile returns without error exactly the content that the named file had at some moment during the call, also when another process atomically replaces the file meanwhile; a file that is missing or that the disk fails to open, map or read gives an error. It never panics, and the bytes it returned never change. IsFileExist reports a file that exists throughout the call unless the disk fails, and none that did not exist during the call.",
 [F, S], "all disk faults and interleavings with a replacement", "there is no test of it",
 ["util/encode.go"], [("mapping read in full, errors returned", "util/encode.go ReadFile"), ("stat", "util/encode.go IsFileExist")])
prop("C36", "Encoding, hashing and random helpers are correct for any number of callers",
 "For every input and whatever other calls run concurrently, the util integer/byte conversions, base58, gob, JSON, thrift and protobuf helpers encode as specified (big-endian integers, shorter input read as leading zeros; canonical base58) and decode exactly what they encode; gob, JSON, thrift and protobuf data that has lost its tail (protobuf: at least one byte left) and text that is not base58 is an error, never a panic. MD5, SHA1, CRC8/32/64, FNV and Blake2b compute the named hash, Hash64 depends on the bytes alone while the process lives, RandUint(n) and RandInt64Strict(n) lie in [0, n), the latter reporting a failing entropy source, and UUID64 does not repeat itself (short of a 64-bit hash collision). StrToTimeFormat reads a time in Shanghai's zone, or gives an error for malformed text or where the system has no zone database; MatchString is whether the pattern is valid and matches. Arguments are left alone and a result never changes after it was returned.",
 [S, I, F], "all interleavings, inputs, entropy and zone database failures", "tests sample a few values from one goroutine",
 ["util/num.go", "util/gob.go", "util/encode.go", "util/protobuf.go", "base58/base58.go", "thrift/serialize.go", "fast/fast.go"], [("functions without shared state", "util, base58, thrift")])
prop("C37", "Image adjustments keep pixels and bounds",
 "Every image adjustment yields an image of the documented bounds whose pixels are the documented function of the source's.",
 [I], "all images and parameters", "there is no test of it",
 ["image/image.go", "image/adjust.go"], [("pure functions", "image")])
#LATE
prop("C32", "Damaged compressed data is never decoded into something else",
 "What the compress and util packages compress decodes to the original bytes. When the stored blob loses its tail (at least one byte left), every decoder returns an error or the original bytes, never other bytes without an error; for the checksummed formats (zlib, gzip, zstd) the same holds when a stored byte is altered or the tail is replaced with zeros, unless the 32-bit checksum that the format prescribes is the same for both. No decoder panics on damaged input. Calls may overlap, they leave their arguments alone, and a result never changes after it was returned.",
 [I, F], "all payloads, all truncation points and single-bit damages", "tests only round-trip one intact payload, and ignore errors",
 ["compress/compress.go", "util/compress.go"], [("decoder errors propagated to the caller", "compress, util: UnZlib, UnGzip, UnZstd, UnSnappy")])
NA = {
 "C37": "pure sequential functions without concurrency, time or randomness for a schedule or fault to act on; moreover the package's dependency github.com/donnie4w/ico is absent here, so it does not compile offline",
}
