from vf import *
A = Target("digest-asan", ["digest.cpp"], "asan", flags=["-fno-sanitize=alignment"])
S = Target("digest-tsan", ["digest.cpp"], "tsan")
CHECK = Check(
    "P23", targets=[A, S],
    runs=[Run("digest-asan", "sources", 6000, 300000), Run("digest-asan", "pieces", 6000, 300000), Run("digest-tsan", "threads", 400, 10000, shards=40), Run("digest-asan", "threads", 200, 5000)],
    rule="Random contents with lengths around block and buffer sizes, as texts, whole and partly read streams, streams that deliver pieces, files, and pieces added one by one with digests asked for in between; "
         "threads that hash at once. References: OpenSSL, zlib, and Keccak written from its definition (which is compared with OpenSSL's SHA-3). Distinct cases are contents.",
    required=[("digests compared", 50000), ("files hashed", 1000), ("unreadable files refused", 1000), ("pieces added", 10000), ("digests asked for in between", 3000), ("keyed digests", 300), ("threads hashing", 1000), ("references confirmed", 300)],
    assumptions=["unaligned word reads are accepted (they are defined on this platform)"])
