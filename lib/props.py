#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json:  python3 lib/props.py"""
import json
from pathlib import Path

P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  technique=technique, note=note, observe=list(observe)))


INC = "include/dottorrent/"
ASAN = "Searches generated cases with AddressSanitizer, UndefinedBehaviorSanitizer and libstdc++ assertions on; counts in the evidence. No proof: a case outside the explored ones can still fail. "
SHIM = "Trusts the small stand-ins in shim/ for gsl-lite, expected-lite and bencode (not installed here); the project's own tests pass against them. "

prop("C01", "Hexadecimal codec is an exact, strict inverse",
     "Encoding any byte string as hexadecimal text and decoding it gives back the same bytes; the text is lower case, two digits per byte. "
     "Decoding accepts exactly the texts made of an even number of hexadecimal digits of either case (and exactly the expected length for fixed-size digests) and reports an error for every other text, "
     "whatever byte values it contains, without reading or writing outside its buffers.",
     ["inputs"], "all byte strings; all texts including non-ASCII, odd and wrong lengths; every fixed digest size and every overload",
     "the tests decode a handful of literals made of digits and letters below 0x80", [INC + "hex.hpp", INC + "hash.hpp"],
     [dict(name="from_hexadecimal_string / to_hexadecimal_string", where=INC + "hex.hpp"), dict(name="make_hash_from_hex", where=INC + "hash.hpp")],
     "property-based testing: round trip and reference decoder over generated and mutated texts", ASAN)

prop("C02", "Percent encoding round-trips and rejects malformed escapes",
     "Percent-encoding any byte string yields a text of unreserved characters and %XX escapes only, and decoding it gives back the same bytes. "
     "Decoding replaces every well-formed escape by its byte, keeps other characters, reports an error for a truncated or non-hexadecimal escape, and never touches memory outside its input.",
     ["inputs"], "all byte strings and all texts containing % in any position", "the tests only check the character classifiers on a few characters",
     [INC + "percent_encoding.hpp"], [dict(name="percent_encode / percent_decode and the unreserved character classes", where=INC + "percent_encoding.hpp")],
     "property-based testing: round trip and reference codec over generated and mutated texts", ASAN)

prop("C03", "Message digests equal the published algorithm for any update history",
     "For every supported hash function, feeding a message in any split of updates, on a fresh or a reused hasher and interleaved with other hashers in the same or other threads, gives exactly the digest of that algorithm over the whole message, of the algorithm's size; "
     "one-shot hashing agrees. An algorithm that the crypto library does not provide or that is not in the supported set is refused with an error when the hasher is created.",
     ["inputs", "histories"], "all algorithms, message contents and lengths, splits into updates, and sequences of finalize and reset over several live hashers",
     "the tests hash the word 'test' with two algorithms", [INC + "hasher/openssl_hasher.hpp", INC + "hasher/backends/openssl.hpp", "src/hasher/backends/openssl.cpp", INC + "hasher/factory.hpp"],
     [dict(name="openssl_hasher, openssl::message_digest", where="src/hasher/backends/openssl.cpp"), dict(name="algorithm tables", where=INC + "hasher/openssl_hasher.hpp")],
     "stateful property-based testing against one-shot reference digests looked up by algorithm name", ASAN + "The reference digests are computed by the same libcrypto through its one-shot interface.")

prop("C04", "Digest and checksum values follow one name and size table",
     "A digest or checksum of a known algorithm exists only for values of exactly that algorithm's size, keeps the given bytes, compares and orders by them, and prints as their hexadecimal form; wrong sizes and damaged hexadecimal text are refused. "
     "Algorithm names and values map one-to-one; an unknown checksum key keeps its name and any bytes unchanged, and checksums of different algorithms are never equal nor ordered.",
     ["inputs"], "all algorithms and unknown keys, byte strings of any length, every way of constructing the value",
     "the tests construct default checksums of a few algorithms", [INC + "hash.hpp", INC + "checksum.hpp", INC + "hash_function.hpp", INC + "hash_function_traits.hpp"],
     [dict(name="basic_hash, checksum classes and make_checksum tables", where=INC + "checksum.hpp"), dict(name="to_string / make_hash_function", where=INC + "hash_function.hpp")],
     "property-based testing against a reference table and byte-wise comparison", ASAN + SHIM)

prop("C05", "Bounded queue is a FIFO that loses and duplicates nothing",
     "Under any number of producers and consumers and any schedule, every element pushed into the queue is popped exactly once, in first-in first-out order, and the queue never holds more elements than its capacity allows new ones to enter. "
     "A non-blocking operation fails only when the queue really is full or empty and then has no effect; a blocked operation proceeds as soon as an element, a free place or a larger capacity makes it possible; a push whose copy throws leaves the queue unchanged.",
     ["schedules", "histories", "fault_sequences"], "all interleavings of push, try_push, pop, try_pop, size and capacity changes by several threads; all sequential histories; element copies that throw",
     "there is no test of the queue; schedules cannot be enumerated by unit tests", [INC + "concurrent_queue.hpp"],
     [dict(name="mutex, not_empty / not_full condition variables", where=INC + "concurrent_queue.hpp")],
     "model-based testing of histories plus randomized schedule exploration with a real-time FIFO oracle and ThreadSanitizer",
     "Schedules are sampled on 8 cores with perturbation points inside element moves, not enumerated; a hang is decided by a 10 s limit per case that normally takes under 1 ms.")

prop("C06", "Object pool is bounded, exclusive and survives any release order",
     "The pool never has more objects than its capacity, never hands an object to two users at once, hands out an idle object before making a new one, and a get that finds none waits until one is released. "
     "When the last owner lets go, the object is recycled exactly once and becomes available again; if the pool is gone by then it is destroyed instead; nothing leaks, and a construction that throws does not use up a place.",
     ["schedules", "histories", "fault_sequences"], "all histories of get, share, release, move and destruction; releases from several threads while one thread gets; failing constructions",
     "there is no test of the pool; lifetime races and lost objects need schedules and histories", [INC + "object_pool.hpp", INC + "concurrent_queue.hpp"],
     [dict(name="deleter with weak back-pointer, resources_left counter", where=INC + "object_pool.hpp")],
     "model-based testing of histories plus randomized schedule exploration with invariants, AddressSanitizer and ThreadSanitizer",
     "Gets come from one thread at a time, as the code documents. Schedules are sampled, not enumerated.")

prop("C07", "Worker pool processes each queued item exactly once and always ends",
     "Every item queued before the workers are asked to stop is passed to the work function exactly once, never by more workers than allowed but by all of them when there is work, and only until waiting for the pool returns; destroying the pool finishes pending work first. "
     "After cancellation each worker begins at most one more item, no item is processed twice, and waiting or destroying always returns.",
     ["schedules", "histories"], "1-6 workers, 0-4 producers, any queue capacity, every way and moment of ending",
     "there is no direct test of it; a lost item or a missed wake-up needs a particular schedule", [INC + "concurrent_queue_processor.hpp", INC + "concurrent_queue.hpp"],
     [dict(name="worker loop, wake-up signals and draining", where=INC + "concurrent_queue_processor.hpp")],
     "randomized schedule exploration with exactly-once accounting, hang detection and ThreadSanitizer",
     "Schedules are sampled, not enumerated; a hang is decided by a 15 s limit per case that normally takes milliseconds. " + SHIM)

prop("C08", "Flags, attribute text, size units and aligned buffers are exact",
     "Flag operators on flag enums act bitwise on every value of every width; file attribute text maps one-to-one to attribute sets and unknown letters are refused; size units are exact powers; DHT nodes compare by host then port. "
     "Buffers from the aligned allocator are aligned, disjoint and wholly usable for every element count, and impossible sizes are refused.",
     ["inputs", "histories"], "all flag values, attribute texts, sizes, node pairs and buffer histories", "the tests check two attribute texts",
     [INC + "bitmask_operators.hpp", INC + "general.hpp", INC + "literals.hpp", INC + "aligned_allocator.hpp", INC + "data_chunk.hpp", INC + "dht_node.hpp"],
     [dict(name="bitmask operators, make_file_attributes / to_string", where=INC + "general.hpp"), dict(name="aligned_allocator::allocate", where=INC + "aligned_allocator.hpp")],
     "property-based testing against integer arithmetic and a plain vector", ASAN + SHIM)

prop("C09", "Tracker tiers and metafile fields keep exactly what was set",
     "After any sequence of edits, the tracker list holds exactly the announced urls, grouped in contiguous tiers in order, every lookup, tier range, size and returned iterator agrees with that content, and its bencoded form is the nested list of tiers. "
     "A metafile returns every field exactly as last set (web and http seeds, DHT nodes, collections, similar torrents, texts, flags, dates); copies and moves carry all of it, are independent, and equality distinguishes different ones.",
     ["histories", "inputs"], "all edit histories of tracker lists and of metafile fields", "the tests check a few fixed sequences of inserts",
     [INC + "announce_url_list.hpp", "src/announce_url_list.cpp", INC + "metafile.hpp", "src/metafile.cpp"],
     [dict(name="announce_url_list insert / erase / tier ranges", where="src/announce_url_list.cpp"), dict(name="metafile accessors", where="src/metafile.cpp")],
     "stateful model-based testing against a list-of-tiers and a field-by-field model", ASAN + SHIM)

prop("C10", "Merkle tree equals the hash of its leaves, layer by layer",
     "For every number and content of leaves and each supported hash, after an update every inner node is the hash of its two children, missing leaves up to the next power of two hold the fill value (zero unless given), and the root, any layer, any node and any node range read back from the tree are exactly those values; "
     "leaves set in any order or concurrently at different positions, copies, moves and assignments make no difference.",
     ["inputs", "histories"], "all leaf counts up to a few hundred, leaf values, update histories, copies and assignments", "the tests build one small tree",
     [INC + "merkle_tree.hpp"], [dict(name="merkle_tree set_leaf / update / layers", where=INC + "merkle_tree.hpp")],
     "stateful model-based testing against a recomputed tree", ASAN + SHIM)

prop("C11", "File storage accounts for every file, byte and piece",
     "After any history of edits a storage reports exactly its files in order, their attributes, checksums and hashes, and totals, piece counts, piece ranges per file, offsets, alignment, directory contents and protocol follow from them; padding is inserted so that every file starts on a piece boundary without changing other files; changing the piece size drops stale hashes; a chosen piece size is a power of two from 32 KiB to 16 MiB that gives 512 to 1024 pieces where these limits allow; copies are equal and independent. "
     "Entries made from files on disk have the path relative to the root and the size on disk; a path outside of the root is refused.",
     ["histories", "inputs"], "all edit histories, sizes (also 0 and beyond 4 GiB), piece sizes, attributes and directory trees", "the tests build a few small fixed storages",
     [INC + "file_storage.hpp", "src/file_storage.cpp", INC + "file_entry.hpp", "src/file_entry.cpp"],
     [dict(name="file_storage and its free functions", where="src/file_storage.cpp"), dict(name="make_file_entry", where="src/file_entry.cpp")],
     "stateful model-based testing against a model computing offsets and pieces directly; generated directory trees on disk", ASAN + SHIM)

prop("C12", "Info hash identifies exactly the info dictionary of the torrent file",
     "The v1 and v2 info hash of a metafile are the SHA-1 and SHA-256 of the info dictionary in the torrent file written for it, survive writing and reading, stay the same under edits outside of the info dictionary and change with any edit inside. "
     "Info hash values keep their bytes and protocol however they were made, are equal and equally ordered and hashed only when both agree, and wrong lengths or damaged hexadecimal text are refused.",
     ["inputs", "histories"], "all metafiles with v1, v2 or hybrid data and edits of them; all pairs of info hash values", "the tests compare the info hash of a few sample torrents",
     [INC + "info_hash.hpp", "src/metafile.cpp", "src/metafile_serialization.cpp"], [dict(name="info_hash_v1 / info_hash_v2", where="src/metafile.cpp"), dict(name="info_hash", where=INC + "info_hash.hpp")],
     "property-based testing against digests of the info dictionary located in the written bytes by an independent decoder", ASAN + SHIM)

prop("C13", "Torrent files say what the metafile says and read back unchanged",
     "For every metafile with v1, v2 or hybrid data, the torrent written for a protocol is canonical bencode with exactly the fields, files, attributes, checksums, padding, piece hashes, piece roots and layers of the metafile, laid out as the BEPs describe. "
     "Reading it back from a buffer, bytes, a stream or a file gives all of that again, and writing it once more changes nothing.",
     ["inputs"], "all metafiles: 1-8 files with any names, sizes around piece boundaries, attributes, symlinks, checksums, trackers, seeds, nodes, texts and unknown info fields; three protocols; all read and write routes",
     "the tests round-trip a few sample torrents", ["src/metafile_serialization.cpp", "src/metafile_parsing.cpp", "src/metafile.cpp", INC + "serialization/"],
     [dict(name="make_bvalue_infodict_v1 / v2 / hybrid", where="src/metafile_serialization.cpp"), dict(name="parse_metafile", where="src/metafile_parsing.cpp")],
     "property-based testing: comparison with an independently built bencode tree, round trip through every route", ASAN + SHIM)

prop("C14", "Reading an untrusted torrent gives a sound metafile or an error",
     "Whatever bytes are read, the result is a metafile or an exception: no crash, contract violation, hang or memory error, the same for a buffer and a stream. "
     "In an accepted metafile every file and symlink path stays inside the torrent's directory, sizes do not overflow, the piece hashes and layers fit the sizes, the two file lists of a hybrid torrent agree, every field has the value written in the torrent, tracker tiers are contiguous without duplicates, the meta version is one the library supports, and it can be written and read again without change.",
     ["inputs"], "all byte strings; sampled as damaged torrents of every kind, random bencode and damaged bytes", "the tests read well-formed sample torrents only",
     ["src/metafile_parsing.cpp", "src/metafile.cpp"], [dict(name="parse_metafile and the parse_* functions", where="src/metafile_parsing.cpp")],
     "structure-aware mutation fuzzing with invariants on accepted inputs and a differential check of the two readers", ASAN + SHIM + "Bencode decoding itself is done by the stand-in, so defects of the real bencode library are out of reach. ")

prop("C15", "v1 hashing of files gives exactly the piece hashes and checksums",
     "Hashing a storage for v1 stores exactly one SHA-1 per piece, that of the concatenation in order of all file contents with padding files as zeros, and for every file the requested checksums of exactly its content and its modification time, neither for padding and symlinks. "
     "The result does not depend on file sizes and boundaries, piece size, read block size, memory limit or number of threads.",
     ["inputs", "schedules"], "directories of any files (empty, around block, piece and read block boundaries, padding, symlinks), all option combinations, thread schedules",
     "the tests hash fixed directories with default options", [INC + "storage_hasher.hpp", "src/storage_hasher.cpp", INC + "hasher/", "src/hasher/"],
     [dict(name="v1 chunk reader, v1 chunk hasher, checksum hasher", where="src/hasher/")],
     "property-based testing over generated directories against one-shot digests of the concatenated content", ASAN + SHIM + "Files up to about 1.2 MB per case; only the single-buffer OpenSSL hashers can be built here. ")

prop("C16", "v2 and hybrid hashing gives exactly the merkle roots and layers",
     "Hashing a storage for v2 stores for every file with data exactly the BEP 52 merkle root of its 16 KiB blocks and the piece layer when it is larger than a piece, nothing for files without data; hybrid hashing also aligns every file with padding and stores the v1 piece hashes of the padded stream. "
     "verify_piece_layers says for each file whether its piece layer leads to its root. Requested checksums are those of each file's content, and its modification time is stored. The result does not depend on options or thread schedule.",
     ["inputs", "schedules"], "directories of any files, all option combinations, thread schedules",
     "the tests hash fixed directories with default options", [INC + "storage_hasher.hpp", "src/storage_hasher.cpp", INC + "hasher/", "src/hasher/", INC + "merkle_tree.hpp"],
     [dict(name="v2 chunk reader, v2 chunk hasher, merkle tree, padding", where="src/hasher/")],
     "property-based testing over generated directories against an independent merkle computation", ASAN + SHIM + "Files up to about 1.2 MB per case; only the single-buffer OpenSSL hashers can be built here. ")

prop("C17", "Verification finds exactly the pieces that differ on disk",
     "Verifying files on disk against a v1, v2 or hybrid torrent, created here or read from a torrent file, reports a piece as complete exactly when every byte of it is on disk unchanged: changed, missing, shortened, lengthened or exchanged files make exactly their own pieces fail. "
     "The percentage of a file is the share of its pieces that are complete, 100 for a file without data.",
     ["inputs", "schedules", "fault_sequences"], "generated directories, damages of every kind at any place, all option combinations, thread schedules",
     "the tests verify intact directories", [INC + "storage_verifier.hpp", "src/storage_verifier.cpp", INC + "hasher/", "src/hasher/"],
     [dict(name="v1 / v2 piece verifiers and piece map", where="src/storage_verifier.cpp")],
     "property-based testing with injected damage against a byte-wise comparison of what is on disk", ASAN + SHIM)

prop("C18", "Hashing and verifying always end: progress, cancellation, errors",
     "A started hasher or verifier always finishes: waiting returns when all data is processed, cancelling at any moment returns and leaves it cancelled, and a file that is missing, shortened or unreadable makes waiting report an error (a verifier treats missing data as failed pieces instead) - never a hang or a terminated program; a checksum that cannot be computed is refused with an exception. "
     "Progress never goes back nor beyond the total, is complete after a successful wait, and names an existing file; starting, waiting or cancelling in a wrong state is refused with an exception.",
     ["schedules", "histories", "fault_sequences"], "hashers and verifiers of all protocols and options, any moment of cancellation, faults on any file, misuse sequences",
     "the tests start and wait once on intact files", [INC + "storage_hasher.hpp", "src/storage_hasher.cpp", "src/storage_verifier.cpp", INC + "hasher/", "src/hasher/"],
     [dict(name="start / wait / cancel, reader error hand-over, wake-up signals", where="src/storage_hasher.cpp")],
     "randomized schedule exploration with fault injection, progress invariants, hang detection and ThreadSanitizer",
     "Schedules are sampled on 8 cores, not enumerated; a hang is decided by a 20 s limit per case that normally takes milliseconds. " + SHIM)

prop("C19", "Magnet links carry exactly the given fields both ways",
     "The link written for any magnet object is a valid URI that holds exactly its topics, name, size, trackers, seeds, sources, peers, keywords and manifest, every value escaped, and reading it gives the same object; links of other programs are read the same for any order of fields and style of escaping. "
     "A text that is no magnet link, has a malformed escape, a part without a value or a size that is no number is refused. A link made from a metafile has its info hashes for the wanted protocol, name, trackers, web seeds and nodes.",
     ["inputs"], "all sets of fields and values with any bytes (keywords not empty), all field orders, damaged links, all metafiles",
     "the tests check how one link starts", [INC + "magnet_uri.hpp", "src/magnet_uri.cpp"],
     [dict(name="encode_magnet_uri / make_magnet_uri", where=INC + "magnet_uri.hpp")],
     "property-based testing: independent link parser and generator, round trip, damaged links", ASAN + SHIM)

prop("C20", "Multi-buffer hashing gives the same digests, trees and torrents",
     "With multi-buffer hashing (ISA-L) compiled in, every job of a multi-buffer hasher gets the digest of exactly its own data, submitted whole or in parts, on new or reused job numbers, in any interleaving with other jobs, however late and in whatever order the library completes them; jobs can be added, dropped and reset at any moment, and other algorithms are refused. "
     "Merkle trees, v1, v2 and hybrid hashing, verification, progress and cancellation give the same results as with single-buffer hashing, whether the option is on or off.",
     ["inputs", "histories", "schedules"], "job histories of all four algorithms, trees, directories and damages as in C10 and C15 to C18 with multi-buffer hashing on or off",
     "the tests hash a few fixed messages and only where ISA-L is installed",
     [INC + "hasher/backends/isal.hpp", INC + "hasher/isal_multi_buffer_hasher.hpp", INC + "hasher/multi_buffer_hasher.hpp", INC + "merkle_tree.hpp", "src/chunk_hasher_multi_buffer.cpp", "src/v1_chunk_hasher_mb.cpp", "src/v2_chunk_hasher_mb.cpp"],
     [dict(name="multi_buffer_hasher_impl", where=INC + "hasher/backends/isal.hpp"), dict(name="v1_chunk_hasher_mb / v2_chunk_hasher_mb", where="src/v2_chunk_hasher_mb.cpp")],
     "stateful property-based testing of job histories and of hashed directories against one-shot digests", ASAN + "Trusts the stand-in in shim-isal/ for ISA-L crypto (not installed here), which completes jobs late and in random order. " + SHIM)

prop("C21", "Torrents written by other programs are read with their meaning and info hash",
     "Every permitted way to write a torrent down is read as the same torrent: trackers given by announce, a tracker list or both, with empty tiers and duplicates; similar torrents and collections inside, outside or on both sides of the info dictionary; a web seed as text; attribute letters in any order; empty values; unknown keys anywhere; piece layers of no file. "
     "Unknown keys of the info dictionary are kept, so that editing anything outside of it and writing the torrent again keeps the info dictionary and the info hashes. Torrents of an unsupported meta version are refused.",
     ["inputs"], "generated torrents of all protocols written down in all combinations of these forms, followed by edits", "the tests read a handful of sample torrents and do not rewrite them",
     ["src/metafile_parsing.cpp", "src/metafile_writing.cpp", "src/metafile.cpp"], [dict(name="parse_metafile and the parse_* functions", where="src/metafile_parsing.cpp"), dict(name="write_metafile", where="src/metafile_writing.cpp")],
     "metamorphic property-based testing: equivalent encodings of one generated torrent against the torrent they were made from", ASAN + SHIM)

prop("C22", "Operations release the memory, files and threads they acquire",
     "Repeating any operation any number of times in one process does not use up memory, file descriptors or threads: what encoders, hashers, queues, pools, storages, metafiles, readers, hashing and verifying acquire is released when they end, whether they succeed, are refused, throw, are cancelled, moved from, reset and reused, or dropped unfinished.",
     ["inputs", "histories"], "the generated operations of all other properties, each repeated with the same input in one process", "a test process ends after one run, and nothing counts what is left",
     [INC, "src/"], [dict(name="EVP contexts, shared pools and queues, threads, file streams", where=INC)],
     "property-based testing with a repetition invariant: live allocations, descriptors and threads after each run of the same case", ASAN + SHIM + "A leak is reported when the count grows in each of 25 repetitions, so growth that does not happen on every run is missed. ")

prop("C23", "Hashing and verifying use bounded memory whatever the size of the files",
     "Hashing and verifying hold at most as much file data in memory as the memory limit allows, or four read blocks where the limit is smaller, and with no limit four read blocks per thread; apart from that only a small amount per piece, file and thread. This holds for all protocols, file sizes, piece and block sizes, with checksums, and when the hashers are slower than the reader.",
     ["inputs", "schedules"], "files of up to 24 MB in total, all option combinations, thread schedules", "the tests hash small files and do not measure memory",
     [INC + "storage_hasher.hpp", INC + "storage_verifier.hpp", INC + "object_pool.hpp", INC + "chunk_reader.hpp", "src/storage_hasher.cpp", "src/chunk_reader.cpp"],
     [dict(name="chunk pool of the readers", where=INC + "chunk_reader.hpp"), dict(name="queue_capacity_", where="src/storage_hasher.cpp")],
     "property-based testing with measured peak of allocated memory against the bound of the options", ASAN + SHIM)

prop("C24", "A torrent is saved and read completely or an error is reported",
     "Saving a torrent stores exactly its bytes or throws, and writing it to a stream writes all of them or throws or leaves the stream in a failed state, at whatever byte the disk or stream fails and whatever is wrong with the path. "
     "When the torrent cannot be written in the requested protocol, an existing file is left as it was. A torrent that is cut off at any byte, by the file, buffer or a failing stream, is refused, as are missing files and directories.",
     ["inputs", "fault_sequences"], "generated torrents, and a fault at every byte of the output or input", "the tests write to working files and streams only",
     ["src/metafile.cpp", INC + "metafile.hpp", INC + "metafile_serialization.hpp"], [dict(name="save_metafile, load_metafile, write_metafile_to, serialize_json_to", where="src/metafile.cpp")],
     "property-based testing with fault injection (file size limit, failing streams, bad paths) at generated points", ASAN + SHIM)

NOT_APPLICABLE = []


def main():
    root = Path(__file__).resolve().parent.parent
    from checks import CHECKS
    with open(root / "properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": p["mechanism"], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["id"] in CHECKS, p["id"]
    m = {"version": 1, "setup_cmd": "python3 lib/check.py setup",
         "checks": [{"property": p["id"], "quick_cmd": f"python3 lib/check.py {p['id']} quick", "thorough_cmd": f"python3 lib/check.py {p['id']} thorough",
                     "technique": p["technique"] + ("; coverage-guided fuzzing (libFuzzer) of the same check" if any(s["san"] == "fuzz" for s in CHECKS[p["id"]]["stages"]) else ""), "level": CHECKS[p["id"]]["level"], "level_note": p["note"].strip()} for p in P],
         "not_applicable": NOT_APPLICABLE,
         "notes": "No hooks in /repo. Harnesses in harness/ are compiled with /repo's headers and sources and the stand-ins of shim/ for the libraries that are not installed."}
    (root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")


if __name__ == "__main__":
    main()
