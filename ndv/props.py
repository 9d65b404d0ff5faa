"""Per property: which contracts decide it besides those of its own group
(also), and which contracts of other properties it relies on (uses)."""
PROPS={
'C01':dict(explain='Codec functions for every field width, through the real istream/ostream.'),
'C02':dict(uses=['^XXH64\\[len<32','^codec'],explain='Header read, write and verify functions; the hash value is named by the contract of XXH64 (C20).'),
'C03':dict(explain='ceil_pow2, bucket_index and the growth step.'),
'C04':dict(uses=['^codec'],explain='Every bucket operation over a symbolic block, count and spill; a bucket is the multiset of its decoded entries in hash order.',
 assume=['block sizes up to 65535, the largest the 16-bit header field holds']),
'C05':dict(uses=['^codec','^bucket','^posix_file.(read|write)'],bounded='the write and read functions together (round trip through a file and through the bulk buffers), and random corruption of stored buckets',bounded_s=40,
 rule='a case is one random bucket stored and read back, or one corrupted block offered to the reader; distinct by count, block size and corruption',
 explain='bucket::read from a File and from a bulk_reader and bucket::write to an ostream and to a File, over a symbolic block, count and file.',
 assume=['the entries of a stored bucket are sorted by hash (written so by insert, C04)']),
'C07':dict(uses=['^posix_file.(read|write)'],explain='bulk_reader and bulk_writer over a symbolic file, buffer size and sequence of requests.'),
'C06':dict(level='other',uses=['^codec','^bucket'],bounded='basic_store::split, insert into the chain and the walk along the chain (exists, fetch): random databases with colliding hashes, checked by an independent parser of the files',bounded_s=60,
 rule='a case is one overflow or split of a bucket with its spill chain; distinct by block size, counts and chain length',
 explain='maybe_spill over a symbolic bucket, bulk_writer and file is proved; the callers are covered by the bounded stand-in only.',
 note='maybe_spill and the bucket operations it uses: every obligation discharged for all inputs. split and the chain walk: bounded random exploration, not proved.'),
'C19':dict(explain='posix_file against an assumed contract of the system calls.',assume=['contract of the POSIX calls (pread, pwrite, open, fsync, ftruncate, fstat, unlink, close, posix_fadvise) as documented']),
'C20':dict(budget=60,explain='XXH64 against a reference definition over symbolic length, alignment and seed.'),
}
WHY={}
