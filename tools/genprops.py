#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe))))
I="include/nudb/"
p("C01","Fixed-width big-endian integer encoding is exact and loss-free",
 "Every integer field of the file formats (8, 16, 24, 32, 48 and 64 bits wide) is stored as exactly that many bytes, most significant byte first, and reading it back yields the value written. Writing or reading a field touches no byte outside the field and advances the stream by exactly the field's width, and a read that would pass the end of the input is refused.",
 ["inputs"],"all values of every field width, all buffer contents and positions",
 "The tests round-trip a few constants; correctness is claimed for all 2^64 values and all neighbouring bytes.",
 [I+"detail/field.hpp",I+"detail/stream.hpp"],
 [("read/readp/write overloads per field width",I+"detail/field.hpp"),("istream/ostream cursors",I+"detail/stream.hpp")],
 observe=["bytes of .dat/.key/.log files"])
p("C02","File headers round-trip exactly and mismatched files are rejected",
 "The header written to a data, key or log file has the documented byte layout (type, version, UID, appnum, key size, salt, pepper, block size, load factor or recorded sizes, zero reserved bytes) and reading it back yields the same fields. Header checks succeed exactly when type, version, key size, pepper, load factor, capacity and bucket count are valid and, for a pair of files, UID, appnum, key size (and salt, pepper, block size) agree; otherwise each reports the specific documented error. The number of buckets and the modulus are derived exactly from the key file's size and block size.",
 ["inputs","configurations"],"all header field values, all header bytes read from disk and all file sizes",
 "The tests only open matching files; arbitrary header bytes and every single-field mismatch are not enumerable by sampling.",
 [I+"detail/format.hpp",I+"detail/endian.hpp"],
 [("header read/write/verify functions, pepper, capacity, bucket count",I+"detail/format.hpp")])
p("C03","Linear-hash addressing sends each key to one existing bucket",
 "For every bucket count and every hash, the key's bucket number is less than the bucket count and depends only on the hash, the count and the power of two covering it. Growing the table by one bucket moves keys only from the one bucket being split to the new bucket, and leaves every other key's bucket unchanged. The covering power of two is exactly the least power of two not less than the count.",
 ["inputs","configurations"],"all 48-bit hashes, all bucket counts up to 2^32, all growth steps",
 "A test samples a few table sizes; the guarantee is about every hash and every growth step including each power-of-two boundary.",
 [I+"detail/bucket.hpp",I+"detail/format.hpp",I+"impl/basic_store.ipp"],
 [("bucket_index",I+"detail/bucket.hpp"),("ceil_pow2",I+"detail/format.hpp")])
p("C04","A bucket is an exact sorted multiset of (offset, size, hash) entries",
 "A bucket blob always stays sorted by hash; inserting an entry adds exactly that entry and removing one removes exactly that one, leaving every other entry and the spill pointer unchanged and touching no byte outside the block. Lookup of a hash lands on the first entry whose hash is not less than it, and reading an entry returns exactly what was stored. Count and spill pointer stored in the blob always equal those reported by the in-memory view.",
 ["inputs","histories"],"all bucket contents, sizes, positions and hashes, after any history of operations, for every block size",
 "The tests insert a handful of entries; off-by-one errors at full capacity, equal hashes, first/last position and multi-step histories escape them.",
 [I+"detail/bucket.hpp"],
 [("lower_bound, insert, erase, at, clear, spill, update",I+"detail/bucket.hpp")],
 state=[("bucket blob","count, spill offset, sorted entries",I+"detail/bucket.hpp")])
p("C05","Buckets survive storage unchanged and corrupt buckets are refused",
 "Writing a bucket to the key file writes exactly one block consisting of its count, spill pointer and entries followed by zero padding, and reading it back gives the same bucket; the compact form written to log and data files holds exactly the entries in use and restores the same bucket. A stored bucket whose count exceeds what fits in a block is reported as an error and never causes memory outside the block to be touched. Any I/O error while reading or writing a bucket is reported to the caller.",
 ["inputs","fault_sequences"],"all bucket contents, block sizes, file contents (including corrupt ones) and I/O failures",
 "Tests never feed corrupt or boundary-count buckets and cannot enumerate file contents.",
 [I+"detail/bucket.hpp"],
 [("bucket read/write (block and compact forms)",I+"detail/bucket.hpp")])
p("C06","Overflowing or splitting a bucket never loses or misroutes an entry",
 "When a full bucket overflows, its entire contents are appended to the data file as a well-formed spill record and the emptied bucket points at that record. When a bucket is split, every entry of its whole chain ends up exactly once in the chain of the bucket its hash addresses after growth, and in no other. Spill records still in the write buffer are flushed before they are read back, and an I/O error is reported rather than silently dropping entries.",
 ["inputs","histories","fault_sequences"],"all bucket chains of any length, all hashes and growth positions, all write buffer states, every I/O failure",
 "Needs long collision chains crossing a split and a partly flushed write buffer, which the tests reach only by luck.",
 [I+"detail/bucket.hpp",I+"impl/basic_store.ipp"],
 [("maybe_spill",I+"detail/bucket.hpp"),("split",I+"impl/basic_store.ipp")])
p("C07","Buffered sequential file I/O is byte-exact for every buffer size",
 "A buffered scan delivers exactly the bytes of the file in order, whatever the buffer size and request sizes, reports a short read exactly when a request passes the end of the scanned range, and knows its exact position. A buffered writer's output, once flushed, is exactly the concatenation of the pieces written, placed contiguously from its starting offset, with no byte lost, duplicated or reordered. I/O errors are reported to the caller.",
 ["inputs","fault_sequences"],"all buffer sizes, request size sequences, file contents and I/O failures",
 "Correctness at refill/flush boundaries depends on the relation between buffer and request sizes; tests use a few.",
 [I+"detail/bulkio.hpp",I+"detail/buffer.hpp"],
 [("bulk_reader, bulk_writer",I+"detail/bulkio.hpp"),("buffer",I+"detail/buffer.hpp")])
p("C08","Fetch returns exactly the stored value and reports absence correctly",
 "A fetch delivers, in exactly one callback, the byte-exact value and size stored for that key, wherever it lives (pending memory, bucket cache, key file bucket, or any spill record in the chain), and never a value stored for a different key even when hashes collide. It reports key-not-found only after examining every entry with that hash in the whole chain, and every I/O error is reported instead of a wrong answer. The caller gets no callback when an error is reported.",
 ["inputs","histories","fault_sequences"],"all keys, values, hash collisions, bucket and spill chain contents, and I/O failures",
 "Tests use random keys with few collisions and no I/O faults in fetch; the claim is over every chain and collision pattern.",
 [I+"impl/basic_store.ipp",I+"detail/bucket.hpp"],
 [("fetch (public) and fetch over a bucket chain",I+"impl/basic_store.ipp")],
 observe=["fetch callback","error_code"])
p("C09","Insert rejects existing keys, stores new ones, and copies its inputs",
 "An insert of a key already present anywhere (pending memory, bucket cache, disk bucket or spill chain) reports key-exists and changes nothing; an insert of an absent key succeeds and makes the key with exactly the given value pending. An I/O error while checking is reported and nothing is inserted. The check examines the complete chain, comparing full keys.",
 ["inputs","histories","fault_sequences"],"all keys and values, hash collisions, chain contents and I/O failures",
 "Duplicate detection across spills with colliding hashes or failing I/O is not exercised by the tests.",
 [I+"impl/basic_store.ipp",I+"detail/pool.hpp"],
 [("insert, exists",I+"impl/basic_store.ipp")])
p("C10","The in-memory pending set and bucket cache hold exact private copies",
 "The set of pending inserts holds, for each key inserted since it was last cleared, a private byte-exact copy of key and value with its hash and accounts their total size exactly; looking up a key finds exactly the entry for that key. The bucket cache holds a private copy of each cached bucket's bytes per bucket number. Memory handed out for distinct entries never overlaps, and is large enough and suitably aligned.",
 ["inputs","histories"],"all keys, values, sizes, allocation histories and buckets",
 "Overlap or truncation depends on the exact sequence of allocation sizes versus block sizes; tests sample few.",
 [I+"detail/pool.hpp",I+"detail/cache.hpp",I+"detail/arena.hpp"],
 [("pool_t::insert/find/compare",I+"detail/pool.hpp"),("cache_t::insert/create/find",I+"detail/cache.hpp"),("arena_t::alloc",I+"detail/arena.hpp")])
p("C11","A commit is crash-atomic: the undo log always covers what is overwritten",
 "During a commit, the log holding the sizes of both files is durable before either file is modified, and the previous contents of every existing key-file bucket are durable in the log before that bucket is overwritten; the data file is only ever appended to. The log is discarded only after all new data and key file contents are durable. So at every crash point, and after every I/O failure, the on-disk state is either fully committed or can be rolled back to the state before the commit.",
 ["crash_points","fault_sequences","histories"],"every point of every commit at which a crash or I/O failure can occur, for all pending sets and table states",
 "Tests inject simple failure counts on small databases and never model loss of unsynced writes; the ordering must hold at every point.",
 [I+"impl/basic_store.ipp",I+"detail/bulkio.hpp",I+"detail/bucket.hpp"],
 [("commit, load",I+"impl/basic_store.ipp")],
 state=[("undo log","pre-commit sizes and buckets",".log file")])
p("C12","Recovery restores the pre-commit state and can be restarted",
 "Given a log left by an interrupted commit, recovery writes every logged bucket back to its place in the key file, cuts both files to the sizes recorded in the log, and makes them durable before it discards the log; a partially written log is rolled back as far as it goes, and an absent or headerless log means nothing is changed in the data and key files. A log that does not belong to the files, or contains an impossible bucket index or spill, is rejected with an error and kept. An I/O error at any point is reported and the log is kept so recovery can be repeated.",
 ["crash_points","inputs","fault_sequences"],"all log, key and data file contents, all crash points of recovery itself, all I/O failures",
 "The recovery tests only use logs produced by their own fault injector; arbitrary logs, torn logs, read faults and re-crashes are not covered.",
 [I+"impl/recover.ipp",I+"recover.hpp",I+"file.hpp"],
 [("recover",I+"impl/recover.ipp")])
p("C13","A failed commit is sticky and its log is never discarded",
 "Once a background or closing commit has failed, every later insert and fetch reports that error and performs no operation, close reports it, and the log file is kept so that the next open can roll back. An error is never lost or overwritten by a later success, and after a clean close all pending inserts have been committed and the log file is removed.",
 ["fault_sequences","histories"],"every failing I/O operation and every later sequence of operations",
 "Tests check the return code of one operation after a fault, not all operations and the retained log.",
 [I+"impl/basic_store.ipp",I+"basic_store.hpp"],
 [("ec_/ecb_ sticky error, close, flush",I+"impl/basic_store.ipp")])
p("C14","Opening a database recovers first and accepts only a consistent file set",
 "Opening always performs recovery before the files are used, never overwrites an existing log, and succeeds only if data and key file headers are valid and belong together; otherwise it reports the specific error and the store stays closed. After a successful open, key size, block size, appnum, bucket count, modulus and growth threshold equal what the key file header prescribes.",
 ["inputs","configurations","fault_sequences"],"all on-disk file contents and I/O failures during open",
 "The tests open only databases they just created.",
 [I+"impl/basic_store.ipp",I+"impl/recover.ipp",I+"detail/format.hpp"],
 [("basic_store::open",I+"impl/basic_store.ipp")])
p("C15","Creating a database is all-or-nothing and never harms existing files",
 "Creation rejects invalid key size, block size and load factor with the documented errors before touching the file system, never overwrites or removes a file that already existed, and on any failure removes exactly the files it created itself. On success the data file is exactly a valid header, the key file exactly a header block and one empty bucket block, the log is empty, the headers carry the requested parameters, and everything has been made durable.",
 ["inputs","configurations","fault_sequences"],"all parameter values, all pre-existing file combinations, every I/O failure",
 "Every combination of pre-existing files and failing operation cannot be sampled, and floating-point load factors are unbounded inputs.",
 [I+"impl/create.ipp",I+"create.hpp",I+"detail/format.hpp"],
 [("create",I+"impl/create.ipp")])
p("C16","Rekey indexes every data record once and is crash-safe",
 "Rebuilding the key file refuses to run when a log file exists and never overwrites an existing key file; the log that lets a crash be undone is durable before the data file can grow, and it is removed only after the rebuilt key file and the data file are durable. Every record in the data file is indexed exactly once, with its own offset, size and hash, in the bucket its hash addresses, and spill records are skipped; existing data is never altered. Every I/O error is reported and leaves the log in place.",
 ["inputs","crash_points","fault_sequences"],"all data file contents, block sizes, load factors, buffer sizes, crash points and I/O failures",
 "Tests rekey one small database; multi-pass ranges, overflow during rekey and crash ordering are not enumerated.",
 [I+"impl/rekey.ipp",I+"rekey.hpp"],
 [("rekey",I+"impl/rekey.ipp")])
p("C17","Visit reports every stored record exactly once, in order",
 "Visiting a data file calls back once for each key/value record, in file order, with the exact key and value bytes and sizes, and never for spill records. A truncated or malformed file, an I/O error, or an error set by the callback stops the visit and is reported as an error; memory outside the record is never read. The file is opened read-only and never modified.",
 ["inputs","fault_sequences"],"all data file contents including truncated ones, all I/O failures, all callback outcomes",
 "Tests visit only well-formed small files.",
 [I+"impl/visit.ipp",I+"detail/bulkio.hpp"],
 [("visit",I+"impl/visit.ipp")])
p("C18","Verification never accepts an inconsistent database and never modifies it",
 "Verification reports success only if headers are valid and match, every bucket entry refers to a data record at the recorded offset with the recorded size and with the bucket's own hash address, and every data record is reachable from its bucket; otherwise it reports the corresponding error. It opens files read-only, never alters them, and reports every I/O error. Reported statistics count exactly the records, buckets, spills and bytes seen.",
 ["inputs","configurations","fault_sequences"],"all data and key file contents, buffer sizes and I/O failures",
 "The tests verify only sound databases; each kind of inconsistency in any position needs a universal argument.",
 [I+"impl/verify.ipp",I+"verify.hpp"],
 [("verify, verify_fast, verify_normal",I+"impl/verify.ipp")])
p("C19","File access transfers exactly the requested bytes or reports an error",
 "A file read or write either transfers exactly the requested bytes at the requested offset, however the operating system splits, interrupts or delays the transfer, or reports an error; reading past the end of the file reports a short read. Creating never replaces an existing file, and each open mode grants exactly the access it names. Every failing system call is reported with its error, and handles are neither leaked nor used after close.",
 ["inputs","fault_sequences"],"all offsets, lengths, partial transfers, interruptions and system call failures",
 "Partial transfers and EINTR practically never occur in test runs.",
 [I+"impl/posix_file.ipp",I+"posix_file.hpp"],
 [("posix_file::read/write/open/create/size/trunc/sync/close",I+"impl/posix_file.ipp")])
p("C20","Key hashing is the documented 64-bit xxHash for every input",
 "The default hasher returns the standard XXH64 value for every key, length and seed, on any alignment, and depends on nothing but those bytes and the seed; it never reads outside the key. The hash used for addressing is its top 48 bits, and the salt check value in the headers is the hash of the salt under itself.",
 ["inputs"],"all keys of all lengths, all seeds, all alignments",
 "Existing databases become unreadable if any input hashes differently; tests compare no reference vectors for all tail lengths.",
 [I+"detail/xxhash.hpp",I+"xxhasher.hpp",I+"detail/format.hpp"],
 [("XXH64",I+"detail/xxhash.hpp"),("xxhasher",I+"xxhasher.hpp"),("make_hash, pepper",I+"detail/format.hpp")])
p("C21","Readers always see a consistent view while a commit is running",
 "The key file is overwritten by a commit only after every reader that could still be reading the old buckets directly from disk has finished, and readers that start afterwards are served the new buckets from memory until the key file is durable. Shared state is only accessed under the locks that protect it, and every lock and reader registration taken is released on every path, including error paths and callback exits.",
 ["schedules","histories"],"all interleavings of concurrent fetches, inserts and commits, and all exit paths",
 "Race windows are tiny; the concurrent tests sample few schedules and sanitizers only see executed ones.",
 [I+"detail/gentex.hpp",I+"impl/basic_store.ipp"],
 [("gentex generations",I+"detail/gentex.hpp"),("m_, u_, g_ protocol in fetch/insert/commit",I+"impl/basic_store.ipp")])
p("C22","Every open store is serviced and never touched after it is closed",
 "While a store is open its background context holds it in exactly one of its work lists, so it is considered in every service pass, and closing the store returns only when the context neither holds it nor is flushing it, whatever the interleaving of insert, erase and service passes. List operations keep the lists well-formed with the count equal to the number of stores held.",
 ["schedules","histories"],"all interleavings of registering, erasing and flushing stores by any number of service threads",
 "Use-after-close needs an erase to land while the same store is mid-flush; tests use one or two stores.",
 [I+"impl/context.ipp",I+"context.hpp",I+"detail/store_base.hpp"],
 [("context lists waiting/ready/flushing",I+"impl/context.ipp")])
p("C23","Pending inserts are flushed to disk within about a second",
 "While the background service is running and the disk makes progress, every inserted key reaches disk without further calls, within roughly a second of its insertion.",
 ["schedules"],"all schedules of the service thread",
 "It is a liveness and timing statement.",
 [I+"impl/context.ipp",I+"impl/basic_store.ipp"],
 [("context::run / run_one / flush",I+"impl/context.ipp")])
p("C24","Concurrent operations on one store are linearizable",
 "Any concurrent history of inserts and fetches on one open store is equivalent to some sequential order of the same operations consistent with real time, across commits, splits and spills.",
 ["schedules","histories"],"all concurrent histories of any number of threads",
 "Only sampled schedules are run by tests.",
 [I+"impl/basic_store.ipp",I+"detail/gentex.hpp"],
 [("whole store",I+"impl/basic_store.ipp")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
