#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
R = "src/reader.rs"; W = "src/writer.rs"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Archived contents read back exactly",
 "Whatever sequence of files, empty files, directories and solid groups a caller adds to an archive, under whatever supported chain of compression and encryption methods, finishing the archive and reading it back lists the same entries in the order they were added, and each entry yields exactly the bytes that were added under its name. "
 "The size and checksum shown for an entry, both by the writer when it is added and by the reader afterwards, are those of exactly these bytes.",
 ["histories", "inputs", "configurations"],
 "all histories of add/solid-add/change-methods calls, all contents (empty, one byte, around internal buffer sizes, contents whose checksum is zero), all supported method chains and their options",
 "The suite packs a handful of fixed directory trees with the default method; the order of empty and non-empty entries, mixing solid and single adds, method chains and boundary sizes are all combinations it never reaches.",
 [W, "src/writer/unpack_info.rs", "src/writer/pack_info.rs", "src/writer/seq_reader.rs", "src/encoders.rs", R],
 [("push_archive_entry / push_archive_entries", W), ("method chain construction create_writer", W), ("sub-stream sizes and CRCs", "src/writer/unpack_info.rs"), ("stream map", R)],
 ["SevenZWriter::{push_archive_entry,push_archive_entries,finish}", "SevenZReader::{archive,for_each_entries}"])

prop("C02", "Entry metadata survives writing and reading",
 "For every archive written by the library, reading it back gives each entry the name, directory, empty-file and anti-item status, creation, access and modification times (with their presence or absence) and attribute word it was added with. "
 "This holds for every combination of entries, whichever of them carry which of these fields.",
 ["inputs", "histories"],
 "all presence patterns of each optional field over entry lists of any length (in particular across byte boundaries of the packed presence bits), all names (including non-ASCII, long and empty) and all 64-bit times / 32-bit attribute words",
 "Existing tests never assert on times, attributes or anti flags, and use at most a few entries, so bit-vector layout beyond the first byte and mixed presence are never exercised.",
 [W, R, "src/archive.rs"],
 [("write_times / write_bit_set / write_file_*", W), ("read_files_info, read_bits, NamesReader", R)],
 ["SevenZArchiveEntry fields after Archive::read"])

prop("C03", "LZMA2 compression is lossless for every option and write pattern",
 "Whatever bytes are fed to the LZMA2 compressor, in whatever portions, with flushes anywhere, and with any valid options (dictionary size, literal and position bits, preset level, match length, preset dictionary), decompressing its output with the same dictionary size gives back exactly those bytes followed by end of stream. "
 "Everything written before a flush is decodable from the output produced up to that flush, and the compressor never fails or crashes on valid options.",
 ["inputs", "configurations", "histories"],
 "all inputs, all write/flush/finish histories, all valid encoder options; window sliding, chunk limits, stored chunks, position-counter wrap",
 "Only whole-file default-option compression of small files is tested; no test uses flush, presets, small dictionaries, preset dictionaries, or data large enough to slide the window or restart chunks.",
 ["lzma-rust/src/enc/lzma2_writer.rs", "lzma-rust/src/enc/encoder.rs", "lzma-rust/src/enc/encoder_normal.rs", "lzma-rust/src/enc/encoder_fast.rs", "lzma-rust/src/lz/lz_encoder.rs", "lzma-rust/src/lz/hc4.rs", "lzma-rust/src/lz/bt4.rs", "lzma-rust/src/lz/hash234.rs", "lzma-rust/src/lzma2_reader.rs", "src/encoders.rs"],
 [("LZMA2Writer chunking", "lzma-rust/src/enc/lzma2_writer.rs"), ("window and pending bytes", "lzma-rust/src/lz/lz_encoder.rs"), ("match finders", "lzma-rust/src/lz/hc4.rs"), ("optimal parser", "lzma-rust/src/enc/encoder_normal.rs"), ("dictionary property", "src/encoders.rs")],
 ["LZMA2Writer::{write,flush,finish}", "LZMA2Reader::read"],
 "cfg(sevenz_verif): start value of the match finders' position counter, so that its wrap-around is reachable")

prop("C04", "LZMA compression is lossless with or without header and end marker",
 "Whatever bytes are fed to the LZMA compressor, in whatever portions and with any valid options, its output decompresses to exactly those bytes: as a self-describing .lzma stream with known or unknown size, or as a raw stream with the size or an end marker telling where it ends. "
 "When the caller announces the size in advance, finishing with any other number of bytes is reported as an error.",
 ["inputs", "configurations", "histories"],
 "all inputs, write patterns, options, and the header / end-marker / announced-size modes",
 "The suite only reaches this codec for archive headers; the standalone modes, end markers and size announcements are not tested at all.",
 ["lzma-rust/src/enc/lzma_writer.rs", "lzma-rust/src/enc/encoder.rs", "lzma-rust/src/enc/range_enc.rs", "lzma-rust/src/lzma_reader.rs"],
 [("LZMAWriter modes", "lzma-rust/src/enc/lzma_writer.rs"), ("end marker and size handling", "lzma-rust/src/lzma_reader.rs"), ("carry propagation", "lzma-rust/src/enc/range_enc.rs")],
 ["LZMAWriter", "LZMAReader::{new_mem_limit,new,new_with_props}"])

prop("C05", "LZMA and LZMA2 decoders follow the format for any conforming stream",
 "Every well-formed LZMA or LZMA2 stream, whichever encoder produced it and whichever symbols, property values, chunk kinds and resets it uses, decodes to exactly the bytes the format defines, and a reference outside the dictionary or the data produced so far is reported as an error. "
 "The result does not depend on the sizes of the reads made by the consumer, reading on after the end gives nothing more, and no byte beyond the end of the stream is taken from the source.",
 ["inputs", "programs"],
 "all symbol sequences (literals, matches, the four repeat distances, short repeats), all lc/lp/pb, all chunk control sequences, all dictionary sizes and wrap positions",
 "The library's own encoder produces only a subset of legal streams, so round-trip tests cannot reach the rest; the fixtures are a few files from one encoder.",
 ["lzma-rust/src/decoder.rs", "lzma-rust/src/lzma_reader.rs", "lzma-rust/src/lzma2_reader.rs", "lzma-rust/src/lz/lz_decoder.rs", "lzma-rust/src/range_dec.rs", "lzma-rust/src/state.rs", "lzma-rust/src/lib.rs"],
 [("symbol decoding", "lzma-rust/src/decoder.rs"), ("cyclic dictionary", "lzma-rust/src/lz/lz_decoder.rs"), ("chunk control bytes", "lzma-rust/src/lzma2_reader.rs")],
 ["LZMAReader::read", "LZMA2Reader::read"])

prop("C06", "Branch and delta filters are undone exactly",
 "Data stored through the x86, ARM, ARM-Thumb, PowerPC or SPARC branch filter, or through the delta filter at any distance, is restored to exactly the original bytes, whatever the data, its length and its alignment. "
 "The result does not depend on how the stored bytes arrive or on the sizes of the consumer's reads.",
 ["inputs", "schedules"],
 "all byte strings over the opcode-relevant alphabet, all lengths including non-multiples of the instruction size and across the internal 4096-byte buffer, all read portions",
 "Two fixture archives exercise x86 and delta once each; ARM, ARM-Thumb, PowerPC and SPARC are never run.",
 ["src/bcj/mod.rs", "src/bcj/x86.rs", "src/bcj/arm.rs", "src/bcj/ppc.rs", "src/bcj/sparc.rs", "src/delta.rs", "src/decoders.rs"],
 [("SimpleReader buffering", "src/bcj/mod.rs"), ("per-architecture conversion", "src/bcj/x86.rs"), ("Delta::decode", "src/delta.rs")],
 ["SevenZReader::for_each_entries over an archive using the filter"])

prop("C07", "Four-stream x86 (BCJ2) data is reassembled exactly",
 "A file stored with the four-stream x86 converter is restored to exactly the original bytes, whichever branches the encoder chose to convert, however the four streams are compressed, and whatever the sizes of the reads. "
 "When one of the four streams is damaged or ends early the reader reports an error instead of returning different data as complete.",
 ["inputs", "schedules"],
 "all byte strings over the branch-opcode alphabet with all per-branch convert decisions, all output-buffer split positions inside a converted address, stream sizes across the internal buffer size",
 "One fixture archive is decoded with one buffer size; the splits of a converted address over two reads, refills of the side streams and the unconverted alternatives are not reached.",
 ["src/bcj2/mod.rs", "src/bcj2/bcj2_decode.rs", R],
 [("BCJ2Reader refill and state", "src/bcj2/mod.rs"), ("Bcj2Decoder", "src/bcj2/bcj2_decode.rs"), ("build_decode_stack2", R)],
 ["SevenZReader::for_each_entries"])

prop("C08", "AES-256 encrypted contents follow the 7-Zip scheme and decrypt exactly",
 "Data encrypted by the library decrypts, with the same password, to exactly the original bytes, for every length, password, salt, initialisation vector and iteration count, both with this library and with an independent implementation of the 7-Zip AES scheme; data encrypted by such an implementation decrypts with this library. "
 "The result does not depend on how bytes are split over writes and reads.",
 ["inputs", "configurations", "schedules"],
 "all content lengths modulo the block size, all salt and IV lengths and iteration exponents the format allows, all write and read portions",
 "The unit test encrypts one source file with one option set through one read pattern and both sides share the same key derivation, so a common mistake stays invisible.",
 ["src/aes256sha256.rs", "src/password.rs"],
 [("get_aes_key", "src/aes256sha256.rs"), ("Cipher::update block carry", "src/aes256sha256.rs"), ("Aes256Sha256Encoder", "src/aes256sha256.rs"), ("UTF-16LE password", "src/password.rs")],
 ["Aes256Sha256Encoder", "Aes256Sha256Decoder", "SevenZWriter", "SevenZReader"])

prop("C09", "I/O granularity never changes results",
 "However the underlying source splits or interrupts its reads, however the underlying sink accepts only part of a write, and however small or large the consumer's buffers are, the bytes of the archive written and the entries and bytes read are the same as with unrestricted I/O. "
 "A transient interruption signalled by the source during a content read does not lose or repeat data.",
 ["schedules", "inputs"],
 "all short-read, short-write and interrupted-read schedules up to a bounded number of deviations, and all consumer buffer sizes, over every codec",
 "All tests run on in-memory cursors and regular files, which never return short, so code that assumes full reads or writes passes them.",
 [R, W, "src/aes256sha256.rs", "src/bcj/mod.rs", "src/bcj2/mod.rs", "src/delta.rs", "src/decoders.rs", "lzma-rust/src/range_dec.rs", "lzma-rust/src/lzma2_reader.rs", "lzma-rust/src/lzma_reader.rs", "lzma-rust/src/enc/counting.rs"],
 [("BoundedReader / SeekableBoundedReader", R), ("CompressWrapWriter", W), ("CountingWriter", "lzma-rust/src/enc/counting.rs")],
 ["SevenZReader over a scripted source", "SevenZWriter over a scripted sink"])

prop("C10", "Damaged archives never yield wrong data as good",
 "If any byte of an archive is changed or the archive is cut short, then opening it or reading an entry to its end either reports an error or gives exactly the original bytes of that entry. "
 "No entry is ever presented, without an error, with altered or missing contents, and the listing that is presented is the original one. "
 "(Archives that carry checksums of their unpacked contents and of their unpacked listing, as every common writer stores them; checksums of packed streams alone, which readers of the format do not check, are not counted.)",
 ["inputs", "fault_sequences"],
 "all single-byte substitutions and bit flips at every offset, all truncation points, over archives covering every codec, solid layout and header encoding",
 "No test corrupts an archive; whether damage is always noticed depends on every offset and every value.",
 [R, "lzma-rust/src/lzma2_reader.rs", "lzma-rust/src/lzma_reader.rs", "src/bcj2/mod.rs"],
 [("Crc32VerifyingReader / BoundedReader", R), ("start and next header CRC", R)],
 ["Archive::read", "SevenZReader::for_each_entries"])

prop("C11", "Malformed archive headers are rejected cleanly",
 "For every byte sequence offered as an archive, including ones whose checksums are consistent, opening it returns either an archive or an error: it does not panic, hang, or allocate tables out of proportion to the size of the input. "
 "Iterating an archive that was opened successfully likewise ends with entries or an error, never a panic or a hang.",
 ["inputs"],
 "all single-byte and structural mutations of header fields (counts, sizes, indices, bit vectors, property lengths) with checksums recomputed, plain and encoded headers",
 "Tests contain only well-formed archives.",
 [R, "src/folder.rs", "src/decoders.rs", "src/archive.rs"],
 [("read_* header parsers", R), ("OrderedCoderIter", "src/folder.rs"), ("calculate_stream_map", R), ("add_decoder property checks", "src/decoders.rs")],
 ["Archive::read", "SevenZReader::for_each_entries", "BlockDecoder"])

prop("C12", "Malformed compressed data is rejected cleanly",
 "For every byte sequence offered as the packed data of any supported codec or filter, decoding ends with data or an error: it does not panic, hang, or produce more bytes than the archive declares, nor present fewer as the whole. "
 "This holds whatever codec parameters accompany the data.",
 ["inputs", "configurations"],
 "all byte substitutions at every offset, all truncations, all short arbitrary streams, and all values of the codec property bytes, per codec",
 "Tests contain only well-formed streams.",
 ["lzma-rust/src/lzma2_reader.rs", "lzma-rust/src/lzma_reader.rs", "lzma-rust/src/range_dec.rs", "lzma-rust/src/decoder.rs", "lzma-rust/src/lz/lz_decoder.rs", "src/bcj2/mod.rs", "src/bcj2/bcj2_decode.rs", "src/aes256sha256.rs", "src/decoders.rs", "src/bcj/mod.rs"],
 [("RangeDecoderBuffer bounds", "lzma-rust/src/range_dec.rs"), ("chunk header checks", "lzma-rust/src/lzma2_reader.rs"), ("LZDecoder::repeat distance check", "lzma-rust/src/lz/lz_decoder.rs")],
 ["LZMAReader", "LZMA2Reader", "SevenZReader::for_each_entries"])

prop("C13", "A wrong or missing password never yields contents",
 "Opening or reading an encrypted archive with any password other than the right one ends with an error and never delivers an entry as successfully read with different bytes. "
 "With no password the caller is told that a password is required, and with a wrong one the failure is an error that does not abort the process.",
 ["inputs", "configurations"],
 "all passwords at small edit distance from the right one (including prefixes, extensions, case and encoding variants) and the empty one, over encrypted contents with plain and encrypted headers, all method chains",
 "One test decrypts with the right password; wrong passwords are never tried.",
 ["src/aes256sha256.rs", R, "src/error.rs", "src/decoders.rs", "src/password.rs"],
 [("PasswordRequired", "src/decoders.rs"), ("maybe_bad_password", "src/error.rs"), ("folder and entry CRC", R)],
 ["Archive::read", "SevenZReader::for_each_entries", "decompress_with_password"])

prop("C14", "Header encryption keeps names and metadata out of the file",
 "When contents are encrypted and header encryption is left on, the finished file contains no entry name in readable form and its listing cannot be opened without the password, whatever the number and length of the names. "
 "When header encryption is switched off the listing opens without the password while the contents still need it, and in both settings the right password gives back everything.",
 ["inputs", "configurations", "histories"],
 "all entry lists (from one short name to many long ones), both header settings, methods set before, between and after adds",
 "The encrypted tests only check that the right password works, and never look at what the file reveals.",
 [W, R],
 [("write_encoded_header method selection and raw fallback", W), ("read_encoded_header", R)],
 ["bytes of the finished archive", "Archive::read"])

prop("C15", "A failed add never damages the rest of the archive",
 "If adding an entry or a solid group fails, because its data source or the output reports an error at any point, the error is returned to the caller, and if the caller goes on and finishes the archive successfully, every entry added successfully before or after reads back exactly. "
 "An output error during finishing is reported and not swallowed.",
 ["fault_sequences", "histories"],
 "every position of one (or two) injected source or sink failures, in every history of adds that continues after the failure",
 "No test injects a failure.",
 [W, "src/writer/seq_reader.rs", "src/writer/pack_info.rs", "src/writer/unpack_info.rs", "src/aes256sha256.rs", "lzma-rust/src/enc/lzma2_writer.rs"],
 [("push error paths and pack accounting", W), ("finish", W)],
 ["results of push and finish", "SevenZReader on the finished bytes"])

prop("C16", "An interrupted write is never mistaken for a complete archive",
 "If writing an archive stops at any point, leaving any prefix of the writes on the medium with the last one possibly partial and unsynchronised blocks possibly missing, then opening the result reports an error or gives entries that read exactly as they were added or report an error.",
 ["crash_points", "histories"],
 "every prefix of the write log, every byte split of the last write, and every subset of missing blocks of short histories",
 "Tests only look at finished archives.",
 [W, R],
 [("finish writes the start header last", W), ("start header CRC / next header CRC", R)],
 ["Archive::read and SevenZReader on each crash image"])

prop("C17", "Every entry is visited exactly once and stopping works",
 "Iterating an archive calls the callback exactly once per listed entry, with a reader giving that entry's bytes, whatever the mix of solid groups, empty files and directories, however much of each entry the callback reads when it reads it fully or in any portion. "
 "Returning false stops the iteration at once, and decoding the blocks separately, in any order and by separate readers, gives for each block the same entries and bytes as the whole iteration, with every entry that has data belonging to exactly one block.",
 ["histories", "inputs", "schedules"],
 "all archive shapes (sequences of entries with and without data over blocks), all stop positions, all block decoding orders, all callback behaviours",
 "Tests iterate a few archives to the end; stopping, per-block decoding and unusual layouts are not covered.",
 [R, "src/archive.rs"],
 [("SevenZReader::for_each_entries", R), ("BlockDecoder::{entries,entry_count,for_each_entries}", R), ("calculate_stream_map", R)],
 ["callback trace"])

prop("C18", "Extraction never writes outside the destination directory",
 "Whatever names an archive contains, extracting it never asks for a path outside the chosen destination directory to be created or written: an entry whose name would lead elsewhere is refused with an error. "
 "Entries with ordinary relative names are extracted at exactly that relative path.",
 ["inputs"],
 "all names built from separators, dot and dot-dot components, absolute prefixes and ordinary components up to a bounded number of components",
 "Tests extract only archives with benign names.",
 ["src/de_funcs.rs"],
 [("decompress_impl path join", "src/de_funcs.rs"), ("default_entry_extract_fn", "src/de_funcs.rs")],
 ["paths handed to the extraction callback", "files created below a scratch directory"])

prop("C19", "Compressing a directory tree and extracting it restores the tree",
 "Compressing any tree of directories and files with the path helpers (plain, encrypted, solid, non-solid, filtered) and extracting it again recreates the same relative paths, the same file contents, including empty files and, where the helper stores them, empty directories, and the files' modification times. "
 "Only the paths accepted by a filter are stored, and a single-file source is stored under its own file name. Symbolic links and sockets in the tree do not keep the rest of it from being restored, and what cannot be read makes the helper fail instead of being left out.",
 ["inputs", "configurations"],
 "all small trees (depth, empty directories, empty files, names with spaces and non-ASCII characters), all helpers, all filters",
 "Tests use a few fixed trees and compare contents only.",
 ["src/en_funcs.rs", "src/de_funcs.rs", "src/archive.rs", "src/writer/seq_reader.rs"],
 [("compress_path / encode_path", "src/en_funcs.rs"), ("default_entry_extract_fn", "src/de_funcs.rs"), ("SevenZArchiveEntry::from_path", "src/archive.rs")],
 ["the extracted tree on disk"])

prop("C20", "Written archives conform to the 7z format",
 "Every archive the library finishes is a valid 7z file: an independent strict reader of the format finds signature, header checksums, stream positions, sizes, checksums and property blocks consistent, with no gaps, overlaps or leftovers, and recovers the same listing from it. "
 "Numbers, bit vectors and coder descriptions are encoded as the format prescribes, so other 7z implementations can read the file.",
 ["histories", "inputs", "configurations"],
 "all add histories up to a bounded length, all method chains, entry counts across byte boundaries, packed checksums of zero, sizes across each number-encoding length",
 "The tests read archives only with the library's own reader, which accepts the writer's mistakes it shares.",
 [W, "src/writer/pack_info.rs", "src/writer/unpack_info.rs", "src/encoders.rs"],
 [("header writers", W), ("PackInfo::write_to", "src/writer/pack_info.rs"), ("UnpackInfo::{write_to,write_substreams}", "src/writer/unpack_info.rs"), ("get_options_as_properties", "src/encoders.rs")],
 ["bytes of the finished archive parsed by an independent parser"])

prop("C21", "Every valid archive layout is read correctly",
 "An archive produced by any conforming writer within the supported methods is listed and decoded correctly, whichever optional parts it uses: archive properties, padding, missing or partial checksums, several blocks with any number of files, non-minimal number encodings, plain or encoded headers, gaps before the packed data. "
 "Where a part is not supported, opening reports an error instead of a wrong listing.",
 ["inputs", "programs"],
 "all combinations of the optional sections and their presence flags over small entry lists and block structures",
 "The fixtures come from one or two writers and contain few of the optional parts.",
 [R, "src/folder.rs", "src/archive.rs"],
 [("read_header … read_sub_streams_info", R), ("read_u64 / read_bits", R), ("Folder::get_unpack_size, ordered_coder_iter", "src/folder.rs")],
 ["Archive::read", "SevenZReader::for_each_entries"])

prop("C22", "An archive whose start header was left blank is recovered",
 "If a finished archive's start header fields are blank, as after an interrupted final write, opening it finds the end header and gives the same listing and contents as the intact archive. "
 "Data that merely resembles a header never makes the recovery crash, hang, or present contents different from those that were stored.",
 ["inputs", "crash_points"],
 "all archives of the add-history alphabet with the start header blanked, plain and encoded end headers, contents containing every header marker byte",
 "No test has a blank start header, so the recovery path is never executed.",
 [R],
 [("try_to_locale_end_header", R)],
 ["Archive::read", "SevenZReader::for_each_entries"])

prop("C23", "The sizes and checksums the library reports describe the archive",
 "An entry returned by the writer carries the size and CRC-32 of the data added for it, whatever the entry passed in said, and the number and CRC-32 of the packed bytes written for it; an entry without contents carries none of them. "
 "An opened archive reports, whatever its layout, where the packed streams of every block lie, how long they are and which checksums are stored for them, how long each block is unpacked, and to which block each entry belongs; the first entry with data of a block has as its compressed size all the packed bytes of the block, the others none.",
 ["histories", "inputs", "configurations"],
 "all add histories over kinds, lengths, method chains and prefilled entries; all structures of blocks and entries; blocks of one to seven packed streams with and without packed checksums",
 "Tests compare contents and now and then a size; packed sizes, offsets, packed checksums and compressed sizes are not looked at.",
 [W, R, "src/archive.rs"],
 [("push_archive_entry returned entry, CompressWrapWriter", W), ("calculate_stream_map", R), ("read_pack_info", R)],
 ["entry returned by push_archive_entry", "fields of Archive and SevenZArchiveEntry after opening"])

prop("C24", "Codecs stay within the memory they announce, and a memory limit is kept",
 "For every dictionary size, literal coder setting and stream, an LZMA or LZMA2 decoder never has more memory in use than the estimate, in KiB, that the library gives for its parameters, and the estimate is close to what is needed; parameters no stream can have give an error. "
 "A decoder opened with a memory limit refuses exactly the streams whose estimate exceeds it, before it allocates anything in proportion, and decodes all others within the limit, whatever the header says. The estimate of the compressor's options covers what compressing with them uses and is not far above it.",
 ["inputs", "configurations"],
 "all property bytes x dictionary sizes at every edge x limits around the estimate x announced sizes; all presets and option points of the compressors",
 "No test looks at an estimate or a limit, nor at the memory in use.",
 ["lzma-rust/src/lzma_reader.rs", "lzma-rust/src/lzma2_reader.rs", "lzma-rust/src/enc/lzma2_writer.rs"],
 [("LZMAReader::new_mem_limit", "lzma-rust/src/lzma_reader.rs"), ("lzma_get_memery_usage, lzma_get_memery_usage_by_props", "lzma-rust/src/lzma_reader.rs"), ("lzma2_get_memery_usage", "lzma-rust/src/lzma2_reader.rs"), ("LZMA2Options::get_memery_usage", "lzma-rust/src/enc/lzma2_writer.rs"), ("LZEncoder::get_memery_usage", "lzma-rust/src/lz/lz_encoder.rs")],
 ["memory in use, counted by the allocator", "results of the estimates", "LZMAReader::new_mem_limit"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
