#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mechanism],
                          observe_at=observe, hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

p("C01", "What is written to an archive reads back byte for byte",
  "For every sequence of entries added through the writer (files, empty files, directories, one per block or many in a solid block, in any order and mix) and every supported compression chain, the finished archive opens and yields exactly those entries, in the order they were added, each with the same name, kind and bytes. No entry is lost, duplicated, reordered within its listing, or given another entry's content.",
  ["histories", "inputs", "configurations"],
  "every finite sequence of add-entry / add-solid-block operations with any contents, and every writer configuration (COPY-free chains of AES, LZMA, LZMA2 with any legal options)",
  "The tests sample about ten sessions of one or a few files; the header encoding (bit vectors, optional sections, checksum presence) and the block-to-entry mapping depend on the whole history of operations.",
  ["src/writer.rs", "src/writer/unpack_info.rs", "src/writer/pack_info.rs", "src/writer/seq_reader.rs", "src/reader.rs", "src/encoders.rs"],
  [("header serialisation", "SevenZWriter::write_header and callees"), ("header parsing and stream map", "Archive::read_header, calculate_stream_map"), ("block decoding", "BlockDecoder::for_each_entries")],
  ["SevenZWriter::push_archive_entry / push_archive_entries / finish", "SevenZReader::archive().files", "SevenZReader::for_each_entries"],
  [("files", "entries in listing order", "SevenZWriter.files / Archive.files"), ("unpack_info / pack_info", "blocks and packed streams written so far", "SevenZWriter")])

p("C02", "Entry metadata survives the round trip, presence included",
  "Each entry read back from a finished archive has the same creation, access and modification times, attribute word and anti-item mark that it was added with, and a field reads as absent exactly when it was not set on that entry. This holds whatever combination of fields the other entries of the archive carry.",
  ["histories", "inputs"],
  "every assignment of present/absent and of values (the full 64-bit and 32-bit ranges) to every entry of every archive, including archives whose number of entries is not a multiple of eight",
  "No test sets or reads back times, attributes or anti-item marks except one modification time; presence is encoded in bit vectors shared by all entries.",
  ["src/writer.rs", "src/reader.rs", "src/archive.rs"],
  [("presence bit vectors", "write_bit_set / read_bits / read_all_or_bits"), ("time and attribute sections", "write_times! / read_files_info")],
  ["fields of SevenZArchiveEntry before push and after reopening"])

p("C03", "Finished archives conform to the 7z container format",
  "Any archive the writer finishes is a well-formed 7z file by the published format: the start header, the header, and every recorded offset, size, coder property and checksum describe exactly the bytes that follow. An independent reader of the format recovers the same entries, and the sizes and checksums the writer reports for an added entry are those of its content and of its packed data.",
  ["histories", "inputs", "configurations"],
  "every writer session and configuration, including dictionary sizes that are not powers of two, entries with a zero checksum, and empty sessions",
  "Tests only read archives back with this same library, so errors that the reader mirrors, or that sit in fields it does not check, are invisible.",
  ["src/writer.rs", "src/writer/unpack_info.rs", "src/writer/pack_info.rs", "src/encoders.rs"],
  [("start header and header location", "SevenZWriter::finish"), ("folder, pack and substream records", "UnpackInfo::write_to / write_substreams, PackInfo::write_to"), ("coder properties", "encoders::get_options_as_properties")],
  ["bytes of the finished archive", "entry returned by push_archive_entry"])

p("C04", "Well-formed archives from other writers are interpreted as the format says",
  "For every well-formed 7z archive that uses only supported methods, the reader reports exactly the entries, sizes, checksums, times, attributes and kinds the header encodes, maps each entry to the right part of the right packed stream, and delivers its content. Optional records may be present or absent in any allowed combination.",
  ["inputs"],
  "every byte sequence accepted by the format grammar: optional archive properties, dummy and unknown file properties, missing checksums, partially defined bit vectors, blocks with zero, one or several entries, data before the packed streams, coder chains in any listed order, plain or compressed header",
  "The bundled sample archives come from one tool with default settings and cover only a handful of header shapes.",
  ["src/reader.rs", "src/folder.rs", "src/archive.rs", "src/decoders.rs"],
  [("header grammar", "Archive::read_header, read_streams_info, read_files_info"), ("stream map", "calculate_stream_map"), ("coder order", "Folder::ordered_coder_iter")],
  ["Archive::read", "SevenZReader::for_each_entries"])

p("C05", "Malformed archives produce an error, never a crash, hang or memory blow-up",
  "Opening and decoding any byte sequence ends with a result or an error: no panic, no abort, no endless loop, and no memory use beyond what the input's own length and the dictionary sizes it declares justify. A header that the format forbids is reported as an error rather than yielding entries.",
  ["inputs"],
  "every byte sequence, in particular every truncation of and every field-level mutation of a well-formed header whose checksums have been made consistent again",
  "No test feeds a malformed archive; header checksums hide the parser from random corruption, so only inputs with recomputed checksums reach it.",
  ["src/reader.rs", "src/folder.rs", "src/decoders.rs", "src/bcj2/mod.rs", "src/aes256sha256.rs", "lzma-rust/src/lzma2_reader.rs", "lzma-rust/src/lzma_reader.rs", "lzma-rust/src/decoder.rs", "lzma-rust/src/range_dec.rs", "lzma-rust/src/lz/lz_decoder.rs"],
  [("bounds checks while parsing", "Archive::read_*"), ("coder graph validation", "build_decode_stack / build_decode_stack2"), ("stream decoders' input validation", "LZMA2Reader::decode_chunk_header, RangeDecoder")],
  ["outcome of Archive::read and of decoding every entry", "peak memory and running time"])

p("C06", "Damaged data is never delivered as good",
  "If the content an archive yields for an entry differs from what was stored, whether through altered, truncated or substituted bytes anywhere in the file, then opening the archive or reading that entry to its end reports an error. An entry read to its end without an error has exactly the recorded length and, where a checksum is recorded, exactly the recorded checksum.",
  ["inputs", "fault_sequences"],
  "every modification of a stored archive: any byte changed, any range cut off or replaced, for every method and both solid and non-solid blocks, under any reading buffer sizes",
  "No test reads a damaged archive.",
  ["src/reader.rs", "lzma-rust/src/lzma2_reader.rs", "lzma-rust/src/lzma_reader.rs"],
  [("checksum verification", "Crc32VerifyingReader"), ("length accounting", "BoundedReader, Crc32VerifyingReader.remaining"), ("header checksums", "read_start_header, init_archive")],
  ["bytes and final result of reading each entry"])

p("C07", "Delivered bytes do not depend on how reads are split",
  "The bytes an entry yields, and whether reading it succeeds, are the same however the underlying source splits its reads (any sequence of short reads) and whatever buffer sizes the consumer uses. The same holds when writing: how the data source splits its reads and how the output sink splits its writes do not change what the archive contains.",
  ["schedules", "inputs"],
  "every sequence of short-read lengths of the source, of consumer buffer sizes (from one byte up, empty buffers included), of short writes of the sink, for every coder chain",
  "All tests read from files or slices with full reads and one consumer pattern.",
  ["src/aes256sha256.rs", "src/bcj/mod.rs", "src/bcj2/mod.rs", "src/delta.rs", "src/reader.rs", "lzma-rust/src/lzma2_reader.rs", "lzma-rust/src/lz/lz_decoder.rs", "src/writer.rs"],
  [("carry-over of partial blocks", "Cipher::update, SimpleReader::read, BCJ2Reader::read"), ("range decoder input", "RangeSource::next_byte"), ("pending match bytes", "LZDecoder::repeat_pending")],
  ["concatenation of all bytes returned by read"])

p("C08", "Iteration visits every entry once and obeys stop and error",
  "Iterating over an archive calls the visitor exactly once for each entry with that entry's own data, with the entries of a block in stored order; a visitor that asks to stop is not called again and the iteration ends successfully, and an error it returns ends the iteration with that error. An entry that follows one whose data was not fully read is never delivered complete with wrong bytes.",
  ["histories", "inputs"],
  "every archive shape (blocks and data-less entries in any interleaving) and every visitor behaviour (read all, read part, skip, stop, fail at any entry)",
  "Tests always read every entry to the end and never stop or fail inside the visitor.",
  ["src/reader.rs", "src/de_funcs.rs"],
  [("block loop and data-less entries", "SevenZReader::for_each_entries"), ("in-block loop", "BlockDecoder::for_each_entries")],
  ["sequence of visitor calls", "return value of the iteration"])

p("C09", "The LZMA2 encoder emits valid chunk streams that decode to the input",
  "For every input, every split of it into writes and flushes, and every legal option set, the LZMA2 stream produced is a legal chunk sequence: a dictionary reset and properties come first where required, sizes are in range and match the payload, the state is reset after an uncompressed chunk before the next compressed one, and the end marker comes last. Any conforming LZMA2 decoder with the declared dictionary size recovers exactly the input.",
  ["inputs", "configurations", "histories"],
  "all inputs (compressible, incompressible and mixed, across chunk limits), all write/flush splits, all legal lc/lp/pb, dictionary sizes, modes, match finders, nice lengths, depth limits and preset dictionaries",
  "Tests use one preset and small inputs; chunk-limit, window-shift and option-dependent paths are not reached.",
  ["lzma-rust/src/enc/lzma2_writer.rs", "lzma-rust/src/enc/encoder.rs", "lzma-rust/src/enc/encoder_fast.rs", "lzma-rust/src/enc/encoder_normal.rs", "lzma-rust/src/lz/lz_encoder.rs", "lzma-rust/src/lz/bt4.rs", "lzma-rust/src/lz/hc4.rs", "lzma-rust/src/enc/range_enc.rs"],
  [("chunk state machine", "LZMA2Writer::write_chunk and flags"), ("window and match finders", "LZEncoderData, BT4, HC4"), ("range coder", "RangeEncoder")],
  ["bytes written by LZMA2Writer", "LZMA2Reader and an independent decoder on those bytes"])

p("C10", "LZMA and LZMA2 decoding follows the format for every valid stream",
  "Every valid raw LZMA stream and LZMA2 chunk sequence decodes to exactly the bytes the format defines: all literal, match and repeat packets, every lc/lp/pb, matches that wrap the dictionary or continue across read calls, state, property and dictionary resets, uncompressed chunks up to the maximum size, and preset dictionaries. A stream whose match reaches before the start of the data, or whose chunk order is illegal, is rejected with an error.",
  ["inputs", "configurations"],
  "every packet sequence and chunk sequence, valid or not, and every dictionary size and read pattern",
  "Tests decode only what this encoder or one 7-Zip configuration produces; those never emit most packet kinds, resets or boundary sizes.",
  ["lzma-rust/src/decoder.rs", "lzma-rust/src/range_dec.rs", "lzma-rust/src/lz/lz_decoder.rs", "lzma-rust/src/lzma2_reader.rs", "lzma-rust/src/lzma_reader.rs", "lzma-rust/src/state.rs"],
  [("packet decoding", "LZMADecoder::decode"), ("cyclic dictionary", "LZDecoder"), ("chunk protocol", "LZMA2Reader::decode_chunk_header")],
  ["LZMA2Reader / LZMAReader output and errors"])

p("C11", "The LZMA writer and reader agree for every header and ending mode",
  "Data written through the LZMA writer, with or without a header, with a declared size or an end marker, and with or without a preset dictionary, is recovered exactly by the LZMA reader and by any conforming decoder given the same parameters. The header records the real properties, dictionary size and uncompressed size, and writing more or less than a declared size is reported as an error.",
  ["inputs", "configurations"],
  "all inputs, write splits, legal option sets, and the combinations of header, declared size, end marker and preset dictionary",
  "Only the header-less known-size mode is exercised by the tests, through archives.",
  ["lzma-rust/src/enc/lzma_writer.rs", "lzma-rust/src/lzma_reader.rs", "lzma-rust/src/enc/encoder.rs", "lzma-rust/src/lz/lz_decoder.rs"],
  [("header and size bookkeeping", "LZMAWriter::new / write / finish"), ("end conditions", "LZMAReader::read_decode")],
  ["LZMAWriter output, LZMAReader output, results of write/finish"])

p("C12", "Branch and delta filters decode exactly as defined",
  "Decoding data that was filtered for x86, ARM, ARM-Thumb, PowerPC or SPARC, or with the delta filter at any distance, restores exactly the original bytes the format defines, for every input, including short inputs and instruction patterns that straddle internal buffer boundaries.",
  ["inputs", "schedules"],
  "every byte sequence of every length, every delta distance 1 to 256, every position of an instruction relative to the internal buffer, every read pattern",
  "One x86 sample and one delta sample are tested; ARM, ARM-Thumb, PowerPC and SPARC are not tested at all.",
  ["src/bcj/mod.rs", "src/bcj/x86.rs", "src/bcj/arm.rs", "src/bcj/ppc.rs", "src/bcj/sparc.rs", "src/delta.rs", "src/decoders.rs"],
  [("instruction conversion", "BCJFilter::*_code"), ("buffering of unfinished instructions", "SimpleReader::read"), ("delta history", "Delta::decode")],
  ["entry bytes read from archives that use the filter"])

p("C13", "BCJ2 four-stream blocks decode exactly as defined",
  "Reading a block coded with the four-input x86 branch converter yields exactly the bytes the format defines from its main, call, jump and selector streams, wherever branches fall relative to buffers and to the ends of reads, with the inputs stored directly or each through its own coder.",
  ["inputs", "schedules"],
  "every set of four streams and every coder graph feeding them, every read pattern",
  "One sample archive is tested, read with a single buffer size.",
  ["src/bcj2/mod.rs", "src/bcj2/bcj2_decode.rs", "src/reader.rs"],
  [("decoder state machine", "Bcj2Decoder::decode"), ("buffer refill", "BCJ2Reader::read"), ("graph wiring", "build_decode_stack2 / get_in_stream")],
  ["entry bytes read from BCJ2 archives"])

p("C14", "Encrypted content opens with the right password and with no other",
  "Content encrypted with a password (any characters, any key-derivation cost, salt and vector the format allows) is returned exactly when that password is given; with a missing or different password the attempt reports an error and never delivers wrong bytes as a complete entry. Content encrypted by another conforming writer with the same parameters is read equally.",
  ["inputs", "configurations"],
  "all password pairs, all contents and lengths relative to the cipher block, all property encodings of salt, vector and cost",
  "One password and one file are tested; wrong and missing passwords are not.",
  ["src/aes256sha256.rs", "src/password.rs", "src/reader.rs", "src/encoders.rs"],
  [("key derivation", "get_aes_key"), ("block framing and padding", "Cipher::update/do_final, Aes256Sha256Encoder::write"), ("password errors", "Error::maybe_bad_password")],
  ["results of opening and reading with right, wrong, empty password"])

p("C15", "Header encryption keeps names and metadata out of the file in clear",
  "When the writer encrypts content and header encryption is on (the default), the finished file cannot be listed without the password and contains none of the entry names or entry bytes in clear; when header encryption is off the listing opens without the password while contents still need it.",
  ["inputs", "histories"],
  "every session with an encrypting configuration, however few or short the entries",
  "The one encryption test checks only that decryption works.",
  ["src/writer.rs", "src/aes256sha256.rs"],
  [("header packing", "SevenZWriter::write_encoded_header"), ("switch", "SevenZWriter::set_encrypt_header")],
  ["bytes of the finished archive", "opening without password"])

p("C16", "Extraction recreates the tree faithfully and stays inside the destination",
  "Extracting an archive creates, below the destination directory, each entry's directory, or its file with exactly its content and, where recorded, its modification time, and nothing else; an entry whose name would lead outside the destination is never written there, whatever its name contains, and the extraction then reports an error.",
  ["inputs", "histories"],
  "every set of entry names (absolute, with parent components, nested, with redundant separators) and every tree",
  "Tests extract a few benign archives and compare contents only.",
  ["src/de_funcs.rs", "src/reader.rs"],
  [("destination path", "decompress_impl"), ("file creation and times", "default_entry_extract_fn")],
  ["file system below and around the destination after extraction", "paths handed to a custom extract function"])

p("C17", "Compressing a path captures exactly the selected tree",
  "Compressing a directory or file stores each regular file and (for whole-tree compression) each directory below it exactly once, under its path relative to the root, with its exact content and modification time; with a filter, exactly the files whose path and parent directories pass the filter are stored. Solid and non-solid compression of the same tree store the same files.",
  ["inputs", "configurations"],
  "every directory tree (nesting, empty files and directories, names) and every filter",
  "Tests use three small trees without filters and without checking for extras.",
  ["src/en_funcs.rs", "src/writer/seq_reader.rs"],
  [("tree walk", "compress_path, collect_file_paths"), ("solid grouping", "encode_path")],
  ["entries and contents of the produced archive"])

p("C18", "A failed add leaves the archive as if it had not been attempted",
  "If adding an entry or a solid group fails because its data source or its configuration fails, the error is returned and the writer remains usable: finishing it afterwards yields an archive with exactly the entries added successfully before and after, all readable with their own contents.",
  ["fault_sequences", "histories"],
  "every session, every failing operation in it and every point of the data at which the source fails",
  "No test lets a data source fail.",
  ["src/writer.rs"],
  [("bookkeeping after encoding", "push_archive_entry / push_archive_entries")],
  ["result of the failed push", "entries read back after finish"])

p("C19", "An unfinished or torn archive is never taken for a complete one",
  "If writing stops at any point before finishing has returned (any prefix of the writer's output operations, the last one possibly partial), reading what is there reports an error or yields exactly the entries of the complete session, never a partial or altered set. This also covers output that is written out of order, as the start header is.",
  ["crash_points", "histories"],
  "every session and every prefix of its write and seek operations, with the last write cut at any byte",
  "No test interrupts writing.",
  ["src/writer.rs", "src/reader.rs"],
  [("start header written last", "SevenZWriter::finish"), ("start header checksum", "Archive::read_start_header")],
  ["outcome of reading each crash image"])

p("C20", "Blocks decode independently, in any order and in parallel",
  "Decoding the blocks of an archive separately, in any order, repeatedly or concurrently with separate sources, delivers for each block exactly its own entries with the same bytes as sequential iteration, and the blocks together cover every entry that has data exactly once.",
  ["schedules", "histories"],
  "every archive and every order, repetition and interleaving of block decodings, each block read fully or abandoned early",
  "One example decodes blocks in order; no test checks coverage or other orders.",
  ["src/reader.rs"],
  [("block start and stream map", "BlockDecoder, build_decode_stack, StreamMap"), ("entries of a block", "BlockDecoder::entries / entry_count")],
  ["entries and bytes delivered per block decode"])

p("C21", "I/O failures are always reported, never turned into a wrong success",
  "If the output sink fails or refuses bytes at any operation, adding or finishing reports an error rather than success; if the input source fails at any operation while reading, opening or reading the affected entry reports an error and no truncated content is passed off as complete. Success is reported only when every byte was accepted or delivered.",
  ["fault_sequences"],
  "every single fault position and kind (error, zero-length write) at every I/O operation of every session",
  "No test injects I/O faults.",
  ["src/writer.rs", "src/reader.rs", "src/de_funcs.rs", "lzma-rust/src/enc/range_enc.rs", "lzma-rust/src/lzma2_reader.rs", "src/bcj/mod.rs", "src/bcj2/mod.rs"],
  [("error propagation", "push_archive_entry, finish, decoder read implementations")],
  ["results of push/finish/open/read under injected faults"])

p("C22", "An archive whose start header was zeroed is recovered or rejected",
  "When the start header of a finished archive has been blanked with zeros, opening it finds the header at the end of the file and yields exactly the original entries and contents, whatever bytes the packed data and the header contain, or reports an error; it never yields a wrong listing and never fails merely because an earlier guess at the header position was wrong.",
  ["inputs"],
  "every archive (any trailing bytes that look like a header start) with its start header zeroed",
  "No test covers the recovery path.",
  ["src/reader.rs"],
  [("backward search", "Archive::try_to_locale_end_header")],
  ["outcome of opening the damaged archive"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
