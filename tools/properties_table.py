# The table of properties (see gen_properties.py). Python, executed with prop() and I in scope.
MC = "TLA+ model checked with TLC; "
TRUST = "Trusted: TLC, the harness and the C++ compiler. "

prop("C01", "The bounded queue is a linearizable FIFO",
     "Any number of threads may use one bounded queue at the same time, and every result they see is explained by running their calls one at a time on a first-in first-out queue: nothing is lost, duplicated, reordered or torn, and there is no data race. An insertion only succeeds while the number of queued items is below the capacity in force, a failed non-blocking call changes nothing (not even its argument), and a changed capacity applies to every later call.",
     ["schedules", "histories", "inputs"], "every interleaving of blocking and non-blocking inserts, removals, size queries and capacity changes by any number of threads, for every capacity",
     "The tests never run the queue concurrently; the guarantee is about all interleavings.",
     [I + "concurrent_queue.hpp"], [("one mutex guards the deque and the capacity; the predicate is re-tested after every wait", I + "concurrent_queue.hpp")],
     [("queue_, capacity_", "contents and bound", I + "concurrent_queue.hpp")], ["results of push/try_push/pop/try_pop/size"],
     MC + "histories of the real queue under a controlled scheduler validated against the TLA+ queue; TLC-generated sequential behaviours replayed",
     TRUST + "Exhaustive within the preemption bound for the listed thread programs, random schedules beyond it; sequential behaviours up to the stated depth are exhaustive.")

prop("C02", "No call on the bounded queue stays blocked once it can proceed",
     "A blocking removal returns once an item is available to it and a blocking insertion returns once there is room for it, whatever caused that: an insertion, a removal or a change of the capacity by another thread. No wake-up is lost under any interleaving, including spurious wake-ups and several waiters on either side.",
     ["schedules", "histories"], "every interleaving of waiting and state-changing calls, with spurious wake-ups",
     "A lost wake-up needs a precise interleaving; the tests have no concurrent use of the queue.",
     [I + "concurrent_queue.hpp"], [("notification after every state change that can enable a waiter", I + "concurrent_queue.hpp")],
     [("not_empty_, not_full_", "waiters", I + "concurrent_queue.hpp")], ["calls that never return"],
     MC + "runs of the real queue that end blocked are validated: every pending call must be disabled in the TLA+ queue",
     TRUST + "Deadlock detection is exact for each explored schedule; schedules as for C01. The step-level model is checked for lost wake-ups and starvation with TLC.")

prop("C03", "The object pool lends each object to one holder and never exceeds its capacity",
     "An object lent by a pool belongs to its holder until the last reference to it is dropped; then it is prepared by the recycling policy and becomes available again, so no object is ever lent to two holders at once. At most as many objects as the capacity are ever created, a request made when all are lent waits until one comes back, and releases may happen in any thread. A pool may be destroyed while objects are lent: they stay valid for their holders and are freed when released.",
     ["schedules", "histories", "configurations"], "every interleaving of requests by the owner, releases by any threads and destruction or move of the pool, for every capacity and initial size",
     "There is no test of the pool; aliasing and double lending only show under particular interleavings.",
     [I + "object_pool.hpp", I + "concurrent_queue.hpp"], [("custom deleter returning the object through a weak back reference", I + "object_pool.hpp"), ("count of objects that may still be created", I + "object_pool.hpp")],
     [("queue_, resources_left_", "free objects; objects not yet created", I + "object_pool.hpp")], ["addresses lent, constructions, destructions"],
     MC + "histories of the real pool under a controlled scheduler validated against the TLA+ pool; TLC-generated sequential behaviours replayed",
     TRUST + "As C01. Requests are made by one thread at a time, as the pool documents.")

prop("C04", "A work-queue processor runs every queued item exactly once",
     "Every item put in a running processor's queue before a stop is requested is handed to the work function exactly once, by one worker, before waiting for the processor returns. After a cancellation pending items may be discarded, but none is processed twice and waiting still returns. Waiting always terminates after a stop or cancellation, for every number of workers and every queue capacity, and destroying a running processor stops it cleanly. It says that it runs from its start until it is cancelled or a wait has returned, and that it is done once it is cancelled or everything has ended.",
     ["schedules", "histories", "configurations"], "every interleaving of producers, workers, stop, cancel and wait for every concurrency and capacity",
     "There is no test of the processor; termination and exactly-once are schedule properties.",
     [I + "concurrent_queue_processor.hpp", I + "concurrent_queue.hpp"], [("stop token, sentinel items and draining of the queue", I + "concurrent_queue_processor.hpp")],
     [("started_, cancelled_, done_", "life cycle flags", I + "concurrent_queue_processor.hpp")], ["items seen by the work function", "return of wait()"],
     MC + "runs of the real processor under a controlled scheduler validated against the TLA+ life-cycle specification",
     TRUST + "As C01.")

prop("C05", "v1 hashing gives the SHA-1 of every piece of the concatenated files",
     "Hashing a storage for protocol v1 stores, for every piece, the SHA-1 digest of the corresponding piece-size slice of all files concatenated in storage order (the last slice may be shorter; padding files contribute zeros). The result depends only on the file contents, their order and the piece size: not on the number of threads, the block size, how bytes are spread over files (including empty files) or the schedule.",
     ["inputs", "schedules", "configurations"], "every layout of file sizes, piece size, I/O block size, number of hashing threads and interleaving",
     "Tests hash a few fixed layouts with one schedule each, and need resources that are not here.",
     ["src/v1_chunk_reader.cpp", "src/v1_chunk_hasher_sb.cpp", "src/chunk_hasher_single_buffer.cpp", "src/v1_piece_writer.cpp", "src/storage_hasher.cpp", "src/chunk_reader.cpp"],
     [("chunks cut at piece boundaries across files", "src/v1_chunk_reader.cpp"), ("hash every piece of a chunk", "src/v1_chunk_hasher_sb.cpp"), ("store by piece index", "src/v1_piece_writer.cpp")],
     [("pieces_", "SHA-1 of each piece", I + "file_storage.hpp")], ["piece hashes of the storage after waiting for the hasher"],
     MC + "TLC enumerates bounded layouts with the symbolic piece contents; each is hashed by the real pipeline (free-running and under controlled schedules) and compared",
     TRUST + "Exhaustive over the bounded layouts; digests are interpreted with Python's hashlib.")

prop("C06", "v2 hashing gives each file's Merkle root and piece layer",
     "Hashing a storage for protocol v2 gives every non-empty file the root of the SHA-256 Merkle tree over its 16 KiB blocks (padded with zero leaves as the protocol requires), and every file larger than a piece the tree layer whose hashes each cover one piece, in file order. Files are independent: a file's root depends only on its own bytes and not on other files, threads, block size or schedule. verify_piece_layers tells for every file whether its stored layer belongs to its stored root: it has one hash per piece and the tree above it has that root.",
     ["inputs", "schedules", "configurations"], "every file size around block, piece and chunk boundaries, number of files, block size, threads and interleaving",
     "Tests hash a few fixed layouts with one schedule each; boundary sizes are not sampled.",
     ["src/v2_chunk_reader.cpp", "src/v2_chunk_hasher_sb.cpp", "src/v2_piece_writer.cpp", "src/storage_hasher.cpp", I + "merkle_tree.hpp"],
     [("per-file chunks", "src/v2_chunk_reader.cpp"), ("leaf hashes and tree update", "src/v2_piece_writer.cpp")],
     [("pieces_root, piece_layer", "per-file v2 data", I + "file_entry.hpp")], ["v2 data of every file entry after waiting for the hasher"],
     MC + "TLC enumerates bounded layouts with symbolic trees; the real pipeline's roots and layers are compared",
     TRUST + "Exhaustive over the bounded layouts; digests are interpreted with Python's hashlib.")

prop("C07", "Hybrid hashing satisfies both protocols at once",
     "Hashing a storage for the hybrid protocol stores v1 piece hashes equal to hashing the same storage (with its padding) for v1 alone, and v2 roots and layers equal to hashing it for v2 alone. Padding files get no v2 data, and every file starts on a piece boundary of the v1 stream when the storage is aligned.",
     ["inputs", "schedules", "configurations"], "every aligned layout, piece size, block size, threads and interleaving",
     "A single hybrid layout is sampled by the tests.",
     ["src/v2_chunk_hasher_sb.cpp", "src/v1_piece_writer.cpp", "src/v2_piece_writer.cpp", "src/storage_hasher.cpp", "src/file_storage.cpp"],
     [("v1 hash of a v2 chunk padded to the piece size", "src/v2_chunk_hasher_sb.cpp")],
     [("pieces_, pieces_root", "both kinds of hashes", I + "file_storage.hpp")], ["storage after waiting for the hasher"],
     MC + "TLC enumerates bounded aligned layouts; the real pipeline's results are compared with both symbolic results",
     TRUST + "Exhaustive over the bounded layouts.")

prop("C08", "Requested per-file checksums are the digests of the file contents",
     "Every file that is part of the content gets, for each checksum algorithm requested of the hasher, exactly the digest of its complete contents, for every protocol, layout (empty files included), thread count, block size and schedule. Hashes of the pieces are not affected by asking for checksums.",
     ["inputs", "schedules", "configurations"], "every layout, protocol, set of algorithms, block size, thread count and interleaving",
     "Tests compute checksums for one layout.",
     ["src/v1_checksum_hasher.cpp", "src/v2_checksum_hasher.cpp", "src/storage_hasher.cpp"],
     [("in-order consumption of chunks by one thread per algorithm", "src/v1_checksum_hasher.cpp"), ("same for v2", "src/v2_checksum_hasher.cpp")],
     [("checksums_", "per-file digests", I + "file_entry.hpp")], ["checksums of every file entry"],
     MC + "layouts enumerated by TLC; checksums produced by the real pipeline compared with digests of the contents",
     TRUST + "Exhaustive over the bounded layouts.")

prop("C09", "v1 verification marks exactly the pieces whose bytes match",
     "Verifying storage contents against stored v1 hashes marks a piece as good if and only if all bytes of that piece on disk equal the original bytes: one changed byte marks exactly the piece that contains it, and unchanged pieces are never reported bad. Per-file completion is the share of good pieces among the pieces that hold bytes of the file. A file that is missing bytes on disk makes the affected pieces bad and never stops or crashes the verification.",
     ["inputs", "schedules", "fault_sequences"], "every layout, every set of corrupted positions or truncated files, block size, threads and interleaving",
     "Tests verify one intact and one damaged fixture.",
     ["src/v1_piece_verifier.cpp", "src/storage_verifier.cpp", "src/v1_chunk_reader.cpp"],
     [("compare each piece hash and record a bit", "src/v1_piece_verifier.cpp")],
     [("piece_map_", "verdict for every piece", "src/v1_piece_verifier.cpp")], ["result() and percentage() of the verifier"],
     MC + "TLC enumerates layouts with corruption sets and the expected verdicts; replayed through the real verifier",
     TRUST + "Exhaustive over the bounded layouts and single/double corruptions.")

prop("C10", "v2 verification marks exactly the pieces whose bytes match",
     "Verifying storage contents against stored v2 roots and layers marks a piece of a non-empty file as good if and only if its bytes on disk equal the original bytes, for single-piece and multi-piece files alike; the per-file completion is the share of its good pieces, and an empty file is complete. Damage in one file (changed, missing or additional bytes, a missing file) never affects the verdict of another and never stops or crashes the verification; padding files have no pieces of their own. A torrent with both kinds of hashes is judged by the v2 ones unless v1 is asked for.",
     ["inputs", "schedules", "fault_sequences"], "every layout, every set of corrupted positions or truncated files, block size, threads and interleaving",
     "Tests verify one intact and one damaged fixture.",
     ["src/v2_piece_verifier.cpp", "src/storage_verifier.cpp", "src/v2_chunk_reader.cpp"],
     [("compare tree nodes at the piece layer or the root", "src/v2_piece_verifier.cpp")],
     [("piece_map_", "verdict for every piece of every file", "src/v2_piece_verifier.cpp")], ["result() and percentage() of the verifier"],
     MC + "TLC enumerates layouts with corruption sets and the expected verdicts; replayed through the real verifier",
     TRUST + "Exhaustive over the bounded layouts and single/double corruptions.")

prop("C11", "A hasher or verifier always terminates and reports truthful progress",
     "After a start, waiting for a hasher or verifier returns under every schedule, block size and thread count, and then it is done; a cancellation at any moment, before the start too, returns promptly and leaves no thread behind. An error of the storage device is reported as an exception from waiting, and a call that makes no sense in the current state (starting twice, waiting without a start or a second time, cancelling finished work) raises an error; nothing crashes or blocks. The bytes reported as read, hashed and done and the current file never go back, never exceed the totals, are zero before the start and equal the totals at completion; an object that was never started, is done or was cancelled can be destroyed.",
     ["schedules", "histories", "configurations"], "every interleaving of reader, hashers, writers and the controlling thread (start, progress queries, cancel, wait, destruction)",
     "Deadlocks and lost chunks depend on the interleaving; tests run to completion with one schedule.",
     ["src/storage_hasher.cpp", "src/storage_verifier.cpp", "src/chunk_reader.cpp", "src/chunk_processor_base.cpp", "src/chunk_hasher_single_buffer.cpp", I + "hashed_piece_processor.hpp"],
     [("reader, hashers and writer joined in order through bounded queues with sentinels", "src/storage_hasher.cpp")],
     [("started_, cancelled_, done_, bytes_*", "life cycle and counters", "src/chunk_processor_base.cpp")], ["return of wait(), done(), bytes_read(), bytes_hashed()"],
     MC + "a TLA+ model of the pipeline is checked for deadlock freedom; the real pipeline runs under a controlled scheduler and its observations are validated against the life-cycle specification",
     TRUST + "The thread model is exhausted for up to 4 chunks, 2 hashers and checksums; schedules of the real threads are random and priority-based.")

prop("C12", "The Merkle tree's root and layers follow from its leaves",
     "A Merkle tree of any leaf count (a power of two is used internally) has as root the hash of its two children at every level after an update, missing leaves counting as zero, and exposes leaves, ranges of nodes and every layer in order. Updating after leaves change gives the same tree as building it anew, and copying, moving and assigning trees keeps all nodes.",
     ["inputs", "histories"], "every number of leaves and every sequence of leaf assignments and updates",
     "Tests build two small trees.",
     [I + "merkle_tree.hpp"], [("level-order array with parent = H(left || right)", I + "merkle_tree.hpp")],
     [("nodes", "level-order nodes", I + "merkle_tree.hpp")], ["root(), layers and leaves"],
     MC + "TLC enumerates leaf counts and edit sequences with symbolic trees; the real tree's nodes are compared",
     TRUST + "Exhaustive over the bounded sequences.")

prop("C13", "A file storage accounts for its files exactly",
     "After any sequence of adding and removing files, clearing, aligning and changing the piece size, a storage's file count, total size, total size without padding, file order, file mode and number of pieces agree with the files it holds, hashes never outlive the piece size they were made for, copying or moving a storage preserves all of it, and two storages compare equal exactly when root directory, paths in order and piece size agree. Each file maps to exactly the pieces its bytes occupy in the concatenation, and directory counts and listings cover exactly the files below a directory.",
     ["histories", "inputs"], "every sequence of edits and every layout of file sizes and directories",
     "Tests check a handful of fixed storages.",
     ["src/file_storage.cpp", I + "file_storage.hpp", "src/file_entry.cpp"], [("incremental totals and a sorted index", "src/file_storage.cpp")],
     [("files_, total_file_size_, pieces_", "contents and totals", I + "file_storage.hpp")], ["public queries of file_storage"],
     MC + "TLC enumerates edit sequences with the expected observations; replayed on the real storage",
     TRUST + "Exhaustive over the bounded sequences.")

prop("C14", "Alignment padding and the chosen piece size are exactly what is needed",
     "Aligning a storage makes every content file start on a piece boundary by inserting, after every file but the last that does not end on one, one padding file of exactly the missing size and nothing else; contents, order and attributes of the other files stay as they were, padding of an earlier alignment is replaced, and aligning again changes nothing. The automatically chosen piece size is the power of two that gives 512 to 1023 pieces, but at least 32 KiB and at most 16 MiB.",
     ["inputs", "histories"], "every layout of file sizes and piece size",
     "Tests check one layout.",
     ["src/file_storage.cpp"], [("insert padding entries", "src/file_storage.cpp"), ("piece size choice", "src/file_storage.cpp")],
     [("files_", "entries with attributes", I + "file_storage.hpp")], ["files of the storage after alignment", "piece size"],
     MC + "TLC enumerates layouts with the expected aligned layouts; replayed on the real storage",
     TRUST + "Exhaustive over the bounded layouts.")

prop("C15", "The tracker list keeps tiers contiguous, ordered and free of duplicates",
     "After any sequence of insertions, removals and tier changes the tracker list is sorted by tier and URL, with tiers numbered 0,1,2,... without gaps, every tracker keeping its tier-mates and the tiers their relative order; a metafile keeps each URL in one tier only, adding it again moves it. The number of tiers, the per-tier views and all lookups agree with the contents, and an insertion returns the position of what it inserted.",
     ["histories"], "every sequence of operations on the tracker list",
     "Tests check a few fixed sequences.",
     ["src/announce_url_list.cpp", I + "announce_url_list.hpp", "src/metafile.cpp"], [("renumbering of tiers after removals", "src/announce_url_list.cpp")],
     [("data_", "sorted (tier,url) entries", I + "announce_url_list.hpp")], ["iteration, tier_count(), tiers"],
     MC + "TLC enumerates operation sequences with expected lists; replayed on the real list",
     TRUST + "Exhaustive over the bounded sequences.")

prop("C16", "Metafile collections behave as sets under every edit sequence",
     "Web seeds, HTTP seeds, DHT nodes, similar torrents and collections of a metafile hold exactly what was added and not removed, without duplicates where the format has none, in every order of additions, removals and clears; scalar fields hold the last value set. Copies and moves of a metafile have equal contents.",
     ["histories"], "every sequence of add, remove, clear and set operations",
     "Tests check single additions.",
     ["src/metafile.cpp", I + "metafile.hpp"], [("membership tests before insertion", "src/metafile.cpp")],
     [("web_seeds_, http_seeds_, dht_nodes_, similar_torrents_, collections_", "collections", I + "metafile.hpp")], ["public getters of metafile"],
     MC + "TLC enumerates edit sequences with expected contents; replayed on the real metafile",
     TRUST + "Exhaustive over the bounded sequences.")

prop("C17", "Writing a metafile and reading it back preserves it",
     "Reading back what was written for any metafile gives a metafile with the same name, files (path, size, attributes, checksums, symlink targets), piece size, hashes, trackers with tiers, seeds, nodes, similar torrents, collections, comment, creator, date, source, privacy flag and unknown fields, for v1, v2 and hybrid. Writing the result again produces identical bytes, every way of writing (string, stream, iterator, file) produces the same bytes and every way of reading (text, bytes, stream, file) the same metafile, and the JSON form shows the same tree. Padding files appear in the v1 description only. Writing for no protocol is refused by all of them, without any output.",
     ["inputs", "configurations"], "every metafile, in every protocol version and storage mode",
     "Tests round-trip a few downloaded torrents.",
     ["src/metafile_serialization.cpp", "src/metafile_parsing.cpp", I + "metafile_serialization.hpp", I + "metafile_parsing.hpp"],
     [("one writer and one parser per protocol version", "src/metafile_serialization.cpp")],
     [("metafile", "all fields", I + "metafile.hpp")], ["bytes written, metafile read"],
     MC + "TLC enumerates metafiles and their expected bencoded form; written by the real code, decoded independently, read back and compared",
     TRUST + "The bencode library is a stand-in (the real one is not installed).")

prop("C18", "The info hash is the digest of the info dictionary's bytes",
     "The v1 (v2) info hash of a metafile is the SHA-1 (SHA-256) of exactly the bytes of the info dictionary as written to the file. It does not depend on trackers, seeds, comments, dates or other fields outside that dictionary, changes when name, files, piece size, hashes, privacy flag or source change, and is preserved by reading and writing. Only with cross seeding enabled it depends on the trackers too: other tracker URLs give another hash, the same trackers the same. A magnet link made from the metafile names these hashes and carries its name, trackers, web seeds and nodes.",
     ["inputs", "histories"], "every metafile and every edit outside and inside the info dictionary",
     "Tests compare a few known hashes.",
     ["src/metafile_serialization.cpp", "src/metafile.cpp", "src/magnet_uri.cpp", I + "info_hash.hpp"], [("the same serializer writes the dictionary and feeds the hash", "src/metafile_serialization.cpp")],
     [("info hash", "digest of the info dictionary", I + "info_hash.hpp")], ["info_hash_v1/v2 and written bytes"],
     MC + "metafiles enumerated by TLC; hashes returned by the real code compared with digests of the independently extracted info bytes",
     TRUST + "The bencode library is a stand-in.")

prop("C19", "Magnet links survive writing and reading",
     "Writing a magnet link and parsing the result gives the same info hashes, name, size, trackers, web seeds, acceptable sources, keywords and peers, for every combination and every byte in them. Parsing ignores unknown parameters and does not depend on the order of different parameters; of a repeated single-valued parameter the last one counts. Links without the magnet prefix, parameters without an equals sign, sizes that are no numbers and malformed escapes are refused with an error.",
     ["inputs"], "every combination of link parameters and every text in them",
     "Tests parse a few fixed links.",
     ["src/magnet_uri.cpp", I + "magnet_uri.hpp", I + "percent_encoding.hpp"], [("parameters are percent-encoded and joined", "src/magnet_uri.cpp")],
     [("magnet_uri", "all parameters", I + "magnet_uri.hpp")], ["encoded text, parsed object"],
     MC + "TLC enumerates links with expected texts; encoded and parsed by the real code",
     TRUST + "Exhaustive over the bounded combinations.")

prop("C20", "Percent coding is lossless and strict",
     "Percent-encoding turns every byte sequence into text made only of unreserved characters and upper-case escapes, and decoding that text gives the original bytes back. Decoding copies unescaped characters, accepts escapes with digits of either case, and reports an escape that is cut short or not made of two hexadecimal digits as an error instead of producing data for it or for anything after it.",
     ["inputs"], "every byte sequence and every text",
     "Tests check one string each way.",
     [I + "percent_encoding.hpp", I + "hex.hpp"], [("classification of characters and escape state machine", I + "percent_encoding.hpp")],
     [("escape state", "characters collected of the current escape", I + "percent_encoding.hpp")], ["encoded text, decoded bytes, status"],
     MC + "the escape state machine is specified in TLA+; TLC enumerates inputs with expected outputs, replayed on the real functions",
     TRUST + "Exhaustive over all texts up to the stated length over an alphabet with every character class, and over all single bytes and escapes.")

prop("C21", "Hexadecimal coding is lossless and strict",
     "Converting any bytes to hexadecimal gives two lower-case digits per byte, high digit first, and converting hexadecimal text of either case back gives exactly the bytes, in order and complete, for the fixed-size and the streaming form alike. Text of odd or wrong length or with any character that is not a hexadecimal digit is refused, never read beyond its end or partly accepted.",
     ["inputs"], "every byte sequence and every text of every length, including non-ASCII bytes",
     "Tests convert single fixed values.",
     [I + "hex.hpp"], [("lookup tables for both directions", I + "hex.hpp")],
     [("lookup tables", "digit values", I + "hex.hpp")], ["converted text and bytes, refusals"],
     MC + "conversion specified in TLA+; TLC enumerates inputs with expected outputs, replayed on the real functions under AddressSanitizer",
     TRUST + "Exhaustive over all digit pairs (65536) and over all texts up to the stated length over an alphabet with every class.")

prop("C22", "Incremental hashing equals one-shot hashing and hashers can be reused",
     "For every supported algorithm, feeding data in any number of parts of any size (empty parts included) and finalizing gives the algorithm's standard digest of the whole. After finalizing, a hasher is as new: later digests do not depend on earlier data, and hashers used side by side or in different threads do not influence each other.",
     ["inputs", "histories", "schedules"], "every algorithm, split of the data, and sequence of update and finalize calls on several hashers",
     "Tests hash one message per algorithm in one part.",
     [I + "hasher/openssl_hasher.hpp", I + "hasher/single_buffer_hasher.hpp", I + "hasher/backends/openssl.hpp", "src/hasher/backends/openssl.cpp"],
     [("digest context re-initialised after finalizing", I + "hasher/openssl_hasher.hpp")],
     [("context_", "accumulated state", I + "hasher/backends/openssl.hpp")], ["digests"],
     MC + "hashers specified in TLA+ as accumulated byte sequences; TLC enumerates call sequences, replayed on the real hashers and compared with independent digests",
     TRUST + "hashlib and an independent EVP computation give the standard digests; algorithms the local OpenSSL refuses are checked to be refused.")

prop("C23", "Hash function names, digests and checksums convert without loss",
     "Every supported hash function has one name, the name maps back to the same function, and any other text is refused. A digest or checksum value keeps exactly the bytes it was made from, has the size its algorithm defines, and prints and parses as hexadecimal without loss; two values are equal exactly when algorithm and bytes are equal, and ordering is by bytes.",
     ["inputs"], "every algorithm, name and digest value",
     "Tests construct a few checksums.",
     [I + "hash_function.hpp", I + "hash.hpp", I + "checksum.hpp", I + "hash_function_traits.hpp", I + "info_hash.hpp"], [("tables of names and sizes", I + "hash_function.hpp"), ("value types", I + "hash.hpp")],
     [("digest value", "bytes", I + "hash.hpp")], ["names, sizes, hexadecimal text, comparisons"],
     MC + "names, sizes and value conversions specified in TLA+; all functions enumerated and replayed",
     TRUST + "Exhaustive over functions and names up to one edit; digest values sampled.")

prop("C24", "Malformed torrents and links are refused with an error, never a crash",
     "Reading any byte sequence as a torrent either gives a metafile or raises an error the caller can catch; it never aborts the process, never reads outside the input and never loops. The same holds for parsing magnet links. A field of the wrong type or with an impossible value (negative or zero sizes, wrong hash lengths, missing required fields) is an error.",
     ["inputs", "fault_sequences"], "every input: each field missing, of another type or with an extreme value, and truncated or mutated files",
     "Tests read well-formed torrents only.",
     ["src/metafile_parsing.cpp", I + "metafile_parsing.hpp", "src/magnet_uri.cpp"], [("type tests and parse errors", "src/metafile_parsing.cpp")],
     [("parser", "decoded tree", "src/metafile_parsing.cpp")], ["exception or metafile"],
     MC + "single and double faults on well-formed torrents enumerated by TLC with the expected verdict; replayed under sanitizers",
     TRUST + "Exhaustive over the listed fields and fault kinds; the bencode library is a stand-in.")

prop("C25", "Files on disk become correct entries and bad paths are refused",
     "Describing a file on disk gives an entry with its normalised path relative to the given root, its size, and the attribute for executable files if attributes are requested; symbolic links are described as links, of size zero and with a target relative to the root, only if that is requested, and as the file they lead to otherwise. Paths outside the root however written, missing files and anything that is neither a file nor a link are refused, and names that only look like parent references are accepted. Copying, moving and assigning an entry keeps every field, a checksum added again replaces the old one, and entries compare by their paths, component by component.",
     ["inputs", "configurations"], "every path shape, file kind and permission, and every sequence of copies and moves",
     "Tests describe a few files.",
     ["src/file_entry.cpp", I + "file_entry.hpp"], [("checks and attribute detection", "src/file_entry.cpp")],
     [("file_entry", "path, size, attributes, checksums, v2 data", I + "file_entry.hpp")], ["fields of the entry, exception"],
     MC + "file kinds and path shapes enumerated by TLC with the expected entry; replayed in a scratch directory",
     TRUST + "Exhaustive over the bounded shapes.")

prop("C26", "Flag sets obey set algebra",
     "Combining enumeration flags with or, and, exclusive-or and complement, in plain or assigning form, gives exactly the union, intersection, symmetric difference and complement of the sets of flags; the assigning forms store that result in their left operand and return it. This holds for every flag enumeration, whatever its underlying type, at compile time and at run time. Enumerations that were not declared to be flags have none of these operators.",
     ["inputs", "histories"], "all pairs of flag sets and all sequences of assigning operations",
     "Tests do not combine flags.",
     [I + "bitmask_operators.hpp", I + "file_entry.hpp"], [("operators on the underlying type", I + "bitmask_operators.hpp")],
     [("flags", "set of flags", I + "bitmask_operators.hpp")], ["value of the expressions"],
     MC + "flag sets specified as TLA+ sets; TLC enumerates all pairs and operation sequences, replayed on the real operators",
     TRUST + "Exhaustive for all pairs over 8-bit flags and for sequences over 3 flags.")

prop("C27", "Aligned buffers are aligned, sized and independent",
     "Memory from the aligned allocator is aligned as requested for every element type and count, holds the requested number of elements without overlapping any other live block, and stays intact until it is freed; growing, copying, moving and swapping containers that use it keeps their contents. Requests too large to represent raise an error instead of returning a smaller block, and a request for nothing is harmless.",
     ["inputs", "histories"], "every element type, alignment, count and sequence of allocations and releases",
     "Tests do not exercise the allocator directly.",
     [I + "aligned_allocator.hpp", I + "data_chunk.hpp"], [("overflow test and aligned allocation", I + "aligned_allocator.hpp")],
     [("blocks", "live allocations", I + "aligned_allocator.hpp")], ["addresses and contents of blocks"],
     MC + "allocator specified in TLA+ as a set of disjoint aligned blocks; TLC enumerates request sequences, the real addresses are validated against it",
     TRUST + "Exhaustive over the bounded sequences; run under AddressSanitizer.")

prop("C28", "Size literals and node values mean what they say",
     "A size literal denotes its number multiplied by the exact power of 1024 or 1000 its suffix names (bit counts divided by eight), for every value whose result is representable. DHT node values keep host and port exactly, print as host:port, and compare equal or ordered exactly as their (host, port) pairs do.",
     ["inputs"], "every value and suffix; every pair of nodes",
     "Tests use a few literals.",
     [I + "literals.hpp", I + "dht_node.hpp"], [("multiplications", I + "literals.hpp"), ("defaulted comparison", I + "dht_node.hpp")],
     [("value", "number", I + "literals.hpp")], ["values, texts, comparisons"],
     MC + "units and node order specified in TLA+; TLC enumerates values and pairs, replayed on the real code",
     TRUST + "Sampled values over the whole range with exact big-number arithmetic in limbs.")

prop("C29", "Saving and loading are complete or raise an error",
     "Saving a metafile to a path either leaves exactly the bytes of the metafile in the file, whatever was there before, or raises an error; a device that is full or fails at any byte, a missing directory or a path that is a directory is never reported as success. A metafile that cannot be written for the requested protocol is refused before an existing file is touched. A stream that cannot take all bytes is left in a failed state. Loading gives the metafile that was saved or raises an error: a file that is missing or cannot be read to its end is never read as something else.",
     ["fault_sequences", "histories", "crash_points"], "every sequence of saves and loads on a path with a device failure at every byte position",
     "Tests save and load on a working file system only.",
     ["src/metafile.cpp"], [("serialize, then write through a stream that reports failures", "src/metafile.cpp")],
     [("file contents", "absent, complete or left over from a failed save", "src/metafile.cpp")], ["return or exception of save_metafile, load_metafile and write_metafile_to", "bytes in the file"],
     MC + "call sequences with failure points enumerated; replayed on real files with injected device errors",
     TRUST + "Exhaustive over the bounded sequences and failure points around buffer and file ends; random positions beyond.")

prop("C30", "Hashing many buffers at once gives the same results as one at a time",
     "With the multi-buffer backend every job's digest is that of exactly the parts given to that job, however many jobs are in flight, in whatever order the machine finishes them, however jobs are started, continued, finalized, resized and discarded in between, for every algorithm it offers; other algorithms are refused. Merkle trees, v1, v2 and hybrid hashing, verification, progress and life cycle are the same with multi-buffer hashing as without it.",
     ["inputs", "histories", "schedules"], "every sequence of calls on the jobs of a multi-buffer hasher, every order in which the jobs finish, every number of lanes; every file layout and schedule of the pipeline using it",
     "The tests do not use the multi-buffer backend beyond its version number, and the order of completion depends on the machine.",
     [I + "hasher/backends/isal.hpp", I + "hasher/isal_multi_buffer_hasher.hpp", "src/v1_chunk_hasher_mb.cpp", "src/v2_chunk_hasher_mb.cpp", I + "merkle_tree.hpp"],
     [("a job is continued, finalized or discarded only when the machine has returned it", I + "hasher/backends/isal.hpp")],
     [("context_pool_", "the jobs", I + "hasher/backends/isal.hpp")], ["digests, job numbers and counts", "stored hashes, verification results, progress"],
     MC + "the job scheme on a machine with lanes is model checked; TLC-generated call sequences, trees and layouts replayed with the multi-buffer code; life cycles validated",
     TRUST + "Intel's ISA-L crypto library is not installed: a stand-in with its documented states and rules takes its place, with the number of lanes and the order of completion chosen by the check.")

prop("C31", "Every stage of the pipeline does its part for every order of arrival",
     "A chunk reader gives every queue all pieces of the files that are there, in order and with the right bytes (padding as zeros for v1, none for v2), and counts every byte; starting it twice is the same as once, and starting it after a cancellation or waiting for one that was not started is refused. A checksum hasher gives exactly the files all of whose bytes came, in order, the digest of their bytes, and padding none. A chunk hasher gives out, for every chunk handed to it before a stop is requested, exactly the SHA-1 digests of its v1 pieces and the SHA-256 digests of its 16 KiB blocks with their right places (hybrid: the last piece of every file but the last completed with zeros), once each; a piece writer stores exactly the hashes that came and the Merkle root and piece layer of exactly the files whose leaves all came; a piece verifier reports exactly the right pieces. None of this depends on the order in which items come, on when they come relative to the start, on the number of workers or on the queue's capacity. After a cancellation the result is a part of it and nothing else. Each reports truthfully whether it was started, runs, was cancelled or is done, and how many bytes were done and hashed; waiting returns after a stop or cancellation was requested, and not before.",
     ["inputs", "histories", "schedules", "configurations"], "every layout, every order of handing over items before and after the start, stop and cancellation at every point, waits before and after the request, every number of workers and capacity, every interleaving",
     "The tests only run whole pipelines in which items mostly come in order; an order that loses a leaf or a piece is a matter of timing.",
     ["src/chunk_reader.cpp", "src/v1_chunk_reader.cpp", "src/v2_chunk_reader.cpp", "src/chunk_processor_base.cpp", "src/chunk_hasher_single_buffer.cpp", "src/chunk_hasher_multi_buffer.cpp", "src/v1_chunk_hasher_sb.cpp", "src/v2_chunk_hasher_sb.cpp", "src/v1_chunk_hasher_mb.cpp", "src/v2_chunk_hasher_mb.cpp", "src/v1_checksum_hasher.cpp", "src/v2_checksum_hasher.cpp", "src/v1_piece_writer.cpp", "src/v2_piece_writer.cpp", "src/v1_piece_verifier.cpp", "src/v2_piece_verifier.cpp"],
     [("empty chunks wake the workers; pending chunks are finished after a stop", "src/chunk_hasher_single_buffer.cpp"), ("the last leaf of a file completes its tree", "src/v2_piece_writer.cpp"), ("first piece of every file in a hybrid torrent", "src/v2_chunk_hasher_sb.cpp")],
     [("file_blocks_hashed_", "leaves that came, by file", I + "v2_piece_writer.hpp"), ("v1_piece_offsets_", "first v1 piece of every file", I + "v2_chunk_hasher_sb.hpp"), ("started_, cancelled_, stopped_, done_", "life cycle flags", I + "chunk_processor_base.hpp")],
     ["chunks and hashed pieces in the output queues", "hashes in the storage", "verification results", "started, running, cancelled, done, bytes_done, bytes_hashed", "return of wait()"],
     MC + "every order of handing over the items of small layouts, and random orders of larger ones, enumerated by TLC; replayed on the real stages free-running and under controlled schedules",
     TRUST + "Digests are interpreted with hashlib. Items are handed over by one thread. Multi-buffer stages use the stand-in of C30.")
