#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": s, "meaning": "session state the property is about", "where": files[0]} if isinstance(s, str) else s for s in state]
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Sponge and FIPS 202 output depends only on the message, not on its delivery",
  "For every sponge, SHA-3 or SHAKE session, the bytes output are exactly those the Keccak/FIPS 202 specification assigns to the parameters and to the concatenation of all input absorbed, however the input is cut into absorb/update calls (empty ones, partial-byte last one and multi-gigabyte ones included) and however the output is cut into squeeze calls. "
  "One-shot functions, incremental sponge calls and the hash interface agree with each other. Absorbing nothing never changes the result.",
  ["inputs", "histories", "configurations"],
  "all rates and capacities the interface accepts, all delimited suffixes, all message lengths, all ways of fragmenting input and output, all backends",
  "The unit tests hash a fixed set of lengths with one or two fixed fragmentations; boundary interactions between a partly filled block, the fast full-block loop and the squeezing position are history-dependent and only some are ever visited.",
  ["lib/high/Keccak/KeccakSponge.inc", "lib/high/Keccak/KeccakSponge.c", "lib/high/Keccak/FIPS202/KeccakHash.c", "lib/high/Keccak/FIPS202/SimpleFIPS202.c", "lib/low/KeccakP-1600"],
  [("incremental absorb with partial-block queue and fast loop", "KeccakSponge.inc SpongeAbsorb"), ("domain bits and padding", "KeccakSponge.inc SpongeAbsorbLastFewBits"), ("incremental squeeze", "KeccakSponge.inc SpongeSqueeze"), ("bit-length bookkeeping", "KeccakHash.c Keccak_HashUpdate/Final/Squeeze"), ("one-shots", "KeccakSponge.inc Sponge, SimpleFIPS202.c")],
  ["state", "byteIOIndex", "squeezing"], ["bytes returned by every squeeze and final call"])

p("C02", "TurboSHAKE output depends only on message, capacity and domain byte",
  "For every TurboSHAKE session the output equals the specified 12-round sponge of the concatenated input and the domain separation byte, however input and output are fragmented, and equals the one-shot function on the same message. "
  "Squeezing without giving a domain byte behaves as domain 0x01.",
  ["inputs", "histories", "configurations"],
  "all accepted capacities, all domain bytes, all lengths and fragmentations, all backends with or without a 12-round fast loop",
  "TurboSHAKE has almost no dedicated unit test: it is reached through KangarooTwelve with two capacities and one fragmentation pattern.",
  ["lib/high/TurboSHAKE/TurboSHAKE.c", "lib/high/Keccak/KeccakSponge.inc", "lib/low/KeccakP-1600"],
  [("12-round instantiation of the sponge", "TurboSHAKE.c"), ("12-round fast loop", "KeccakP1600_12rounds_FastLoop_Absorb in each backend"), ("domain separation byte", "TurboSHAKE_AbsorbDomainSeparationByte")],
  ["state", "byteIOIndex", "squeezing"], ["bytes returned by every squeeze"])

p("C03", "SP 800-185 functions equal the standard for every history of calls",
  "cSHAKE, KMAC, TupleHash and ParallelHash (fixed-length and XOF forms) return exactly what NIST SP 800-185 specifies for their key, name, customization, tuple boundaries, block size, output length and message, however updates and squeezes are fragmented and however many blocks are processed in parallel. "
  "Incremental and one-shot forms agree; tuple element boundaries always matter, update boundaries never do.",
  ["inputs", "histories", "configurations"],
  "all strings (bit-granular where the interface allows), all block sizes, all output lengths, all fragmentations across block and parallel-batch boundaries, all backends",
  "The tests cover a few standard examples plus one checksum sweep, on three of the backends only; length-encoding widths, partial leaf queues and batch boundaries multiply far beyond those samples.",
  ["lib/high/Keccak/SP800-185/SP800-185.inc", "lib/high/Keccak/SP800-185/SP800-185.c", "lib/high/Keccak/KeccakSponge.inc", "lib/low/KeccakP-1600-times2", "lib/low/KeccakP-1600-times4", "lib/low/KeccakP-1600-times8"],
  [("left/right encode and bytepad", "SP800-185.c"), ("parallel leaves and leaf queue", "SP800-185.inc ParallelHash_Update"), ("phase handling and partial last byte", "SP800-185.inc cSHAKE_Update/Final/Squeeze"), ("tuple encoding", "SP800-185.inc TupleHash_Update")],
  ["phase", "queueAbsorbedLen", "totalInputSize", "lastByteBitLen"], ["final and squeeze outputs", "return codes"])

p("C04", "KangarooTwelve streaming equals the specified tree hash",
  "For security levels 128 and 256, the output equals the specification of KT128/KT256 on the whole message and customization string, however the message is split over update calls, whichever mix of scalar and parallel leaf processing is taken, and however the output is squeezed. "
  "The one-shot function and the incremental interface agree for every length, including lengths at and around chunk and parallel-batch boundaries and above four gigabytes.",
  ["inputs", "histories", "configurations"],
  "all message and customization lengths, all fragmentations, fixed and arbitrary output length, all degrees of parallelism",
  "Tests use a fixed list of lengths with two chunking patterns; a wrong leaf count or a stale queue node needs one particular alignment of update boundaries against 8 KiB chunks and the 2/4/8-way batch sizes.",
  ["lib/high/KangarooTwelve/KangarooTwelve.c", "lib/high/TurboSHAKE/TurboSHAKE.c", "lib/low/KeccakP-1600-times2", "lib/low/KeccakP-1600-times4", "lib/low/KeccakP-1600-times8"],
  [("first chunk, leaf queue and parallel leaves", "KangarooTwelve.c KangarooTwelve_Update"), ("customization, length encoding and final node", "KangarooTwelve.c KangarooTwelve_Final"), ("whole-leaf kernels", "KeccakP1600times8_KT128ProcessLeaves / KT256ProcessLeaves")],
  ["queueAbsorbedLen", "blockNumber", "phase"], ["final and squeeze outputs"])

p("C05", "Duplex objects follow the duplex construction over any call history",
  "After any history of duplexing, queued-input, overwrite, zero-feeding and further-output calls, each output of a duplex object equals what the duplex construction specifies for the input queued so far, for every rate including rates that are not a multiple of 8. "
  "Each call accepts exactly the inputs that fit the rate once the data already queued is counted, refuses all others without changing the object, and never touches memory outside its buffers.",
  ["inputs", "histories", "configurations"],
  "all rates 3..1600, all sequences of calls with all lengths and all delimited last-bits bytes",
  "Tests drive a handful of rates with whole-block duplexing; combinations of partially queued input, trailing bits and byte-misaligned rates are not sampled.",
  ["lib/high/Keccak/KeccakDuplex.inc", "lib/high/Keccak/KeccakDuplex.c"],
  [("duplexing call with limits", "KeccakDuplex.inc Duplexing"), ("queued input", "KeccakDuplex.inc DuplexingFeedPartialInput/FeedZeroes/OverwritePartialInput/OverwriteWithZeroes"), ("further output", "KeccakDuplex.inc DuplexingGetFurtherOutput(AndAdd)")],
  ["byteInputIndex", "byteOutputIndex", "state"], ["outputs and return codes of every call"])

p("C06", "The sponge PRG is a function of its feed/fetch/forget history only",
  "Every byte fetched equals what the SpongePRG construction yields for the sequence of seed bytes fed, bytes fetched and forget operations so far; cutting one feed or one fetch into several consecutive ones changes nothing. "
  "A forget makes the output before it unreachable from the state kept after it (the outer part is zeroed before re-permuting) and is refused, without effect, when the rate cannot cover the capacity.",
  ["inputs", "histories", "configurations"],
  "all capacities, all interleavings of feed, fetch and forget with all lengths",
  "The test runs a fixed feed/fetch pattern; pending input or output left by one operation type when another follows is a history property.",
  ["lib/high/Keccak/PRG/KeccakPRG.inc", "lib/high/Keccak/KeccakDuplex.inc"],
  [("feed with block completion", "KeccakPRG.inc SpongePRG_Feed"), ("fetch with leftover output", "KeccakPRG.inc SpongePRG_Fetch"), ("forget", "KeccakPRG.inc SpongePRG_Forget")],
  ["duplex.byteInputIndex", "duplex.byteOutputIndex"], ["fetched bytes", "return codes"])

p("C07", "Kravatte is a deck function of its string history",
  "For any key, any sequence of input strings (each given in any number of parts) and any output length requested in any number of parts, Kravatte outputs exactly the bytes the Farfalle construction specifies, including bit-granular last parts, history that keeps growing after output was taken, and the short variant. "
  "The result does not depend on how parts are cut nor on the degree of parallelism used to process them.",
  ["inputs", "histories", "configurations"],
  "all key lengths below the width, all string histories and part boundaries, all output requests, all backends (x1, x2, x4, x8)",
  "Tests check one checksum over a fixed length schedule; queue state left by one part combined with the parallel kernels of the next part is not enumerated.",
  ["lib/high/Kravatte/Kravatte.c", "lib/high/Kravatte/Kravatte.h", "lib/low/KeccakP-1600-times4", "lib/low/KeccakP-1600-times8"],
  [("mask derivation", "Kravatte.c Kravatte_MaskDerivation"), ("compression with rolled masks and queue", "Kravatte.c Kra"), ("expansion with queue", "Kravatte.c Vatte"), ("fast kernels", "KeccakP1600times4/8_KravatteCompress/Expand")],
  ["kRoll", "xAccu", "yAccu", "queue", "queueOffset", "phase"], ["Vatte output", "return codes"])

p("C08", "Xoofff is a deck function of its string history",
  "For any key, any sequence of input strings (each given in any number of parts) and any output length requested in any number of parts, Xoofff outputs exactly the bytes its specification assigns, including bit-granular last parts, history that keeps growing after output was taken, and the Xoofffie variant. "
  "The result does not depend on how parts are cut nor on the degree of parallelism used to process them.",
  ["inputs", "histories", "configurations"],
  "all key lengths below the width, all string histories and part boundaries, all output requests, all backends (x1, x4, x8, x16)",
  "Tests check one checksum over a fixed length schedule; queue state left by one part combined with the x4/x8/x16 kernels of the next part is not enumerated.",
  ["lib/high/Xoofff/Xoofff.c", "lib/high/Xoofff/Xoofff.h", "lib/low/Xoodoo", "lib/low/Xoodoo-times4", "lib/low/Xoodoo-times8", "lib/low/Xoodoo-times16"],
  [("mask derivation", "Xoofff.c Xoofff_MaskDerivation"), ("compression", "Xoofff.c Xoofff_Compress"), ("expansion", "Xoofff.c Xoofff_Expand"), ("fast kernels", "Xooffftimes4/8/16_CompressFastLoop/ExpandFastLoop")],
  ["kRoll", "xAccu", "yAccu", "queue", "queueOffset", "phase"], ["Xoofff_Expand output", "return codes"])

p("C09", "SANE sessions accept exactly the authentic in-order message stream",
  "In Kravatte-SANE and Xoofff-SANE sessions between two parties with the same key and nonce, every message wrapped by one side and delivered intact and in order is unwrapped to the original plaintext with tag, ciphertext and start-up tag equal to the specification. "
  "Any message that was altered, truncated, extended, reordered, replayed or taken from another session or position is refused and no plaintext bits are released; a party that resumes from its state before the refused message then accepts the authentic one.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "all keys, nonces, message and metadata lengths in bits (either or both empty), all delivery faults, any pairing of backends",
  "The unit test wraps and unwraps each message once, in order and unmodified or with one fixed tag flip; sessions of several messages under an adversarial network are not sampled.",
  ["lib/high/Kravatte/KravatteModes.c", "lib/high/Xoofff/XoofffModes.c"],
  [("session start", "Kravatte_SANE_Initialize / XoofffSANE_Initialize"), ("wrap and unwrap", "Kravatte_SANE_Wrap/Unwrap, XoofffSANE_Wrap/Unwrap"), ("history extension with toggling bit", "AddToHistory calls in the modes files")],
  ["e", "deck function history"], ["ciphertext, tag, plaintext and return code of each call"])

p("C10", "SANSE sessions accept exactly the authentic in-order message stream",
  "In Kravatte-SANSE and Xoofff-SANSE sessions between two parties with the same key, every message wrapped by one side and delivered intact and in order is unwrapped to the original plaintext, with tag and ciphertext equal to the specified synthetic-nonce mode. "
  "Any message that was altered, truncated, extended, reordered, replayed or taken from another session or position is refused and no plaintext bits are released; a party that resumes from its state before the refused message then accepts the authentic one.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "all keys, message and metadata lengths in bits (either or both empty), all delivery faults, any pairing of backends",
  "The unit test unwraps each message right after wrapping it; multi-message histories with faults between the parties are not sampled.",
  ["lib/high/Kravatte/KravatteModes.c", "lib/high/Xoofff/XoofffModes.c"],
  [("wrap and unwrap with synthetic nonce", "Kravatte_SANSE_Wrap/Unwrap, XoofffSANSE_Wrap/Unwrap"), ("history extension", "AddToHistory calls in the modes files")],
  ["e", "deck function history"], ["ciphertext, tag, plaintext and return code of each call"])

p("C11", "Wide block ciphers recover stored data exactly and expose tampering",
  "For the Kravatte and Xoofff wide block ciphers, deciphering what was enciphered under the same key and tweak returns the data exactly for every length, and the ciphertext equals the specification. "
  "With the authenticated variants, data that suffered bit rot, a torn, lost or misdirected write, or a wrong tweak is refused and no plaintext bits are released.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "all data lengths in bits around the split boundaries, all tweaks, all storage faults, encipher and decipher on different backends",
  "Tests encipher and decipher immediately with fixed lengths; the split into halves has length-dependent corner cases and no storage fault is ever injected.",
  ["lib/high/Kravatte/KravatteModes.c", "lib/high/Xoofff/XoofffModes.c"],
  [("length split", "Kravatte_WBC_Split / XoofffWBC_Split"), ("four-round Feistel", "Kravatte_WBC_Encipher/Decipher, XoofffWBC_Encipher/Decipher"), ("redundancy check", "Kravatte_WBCAE_Decipher, XoofffWBCAE_Decipher")],
  ["key and deck function state"], ["ciphertext, plaintext and return code"])

p("C12", "Xoodyak sessions follow the Cyclist specification on both ends",
  "For every sequence of Cyclist operations in hash or keyed mode (absorb, encrypt, decrypt, squeeze, squeeze key, ratchet, with any lengths, encrypting and decrypting from one buffer to another or in place), every output equals the Xoodyak specification, on every backend with or without full-block kernels. "
  "Two parties running the same sequence stay in agreement; after any altered, lost, reordered or duplicated message their tags differ, and a receiver that resumes from its state before the damaged message accepts the authentic one.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "all operation sequences and lengths, all key/id/counter lengths allowed, all delivery faults, any pairing of backends",
  "Tests run one pseudo-random operation schedule per mode against a checksum and known-answer tests of single messages; sequences mixing block-boundary lengths and phases are history-dependent.",
  ["lib/high/Xoodyak/Cyclist.inc", "lib/high/Xoodyak/Xoodyak.c", "lib/low/Xoodoo/plain/Xoodyak-full-blocks.c", "lib/low/Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c", "lib/low/Xoodoo/AVX512/Xoodyak-full-block-SIMD512.c"],
  [("up/down phases", "Cyclist.inc Cyclist_Up/Cyclist_Down"), ("absorb/squeeze/crypt any", "Cyclist.inc"), ("full-block kernels", "Xoodyak_*FullBlocks"), ("key and counter absorption", "Cyclist.inc Cyclist_AbsorbKey")],
  ["phase", "mode", "Rabsorb", "Rsqueeze", "state"], ["every output byte"])

p("C13", "Calls the interface forbids are refused and change nothing",
  "A call that violates the documented protocol of an object (input after output began, squeezing in fixed-length mode, finalizing twice, invalid rate, capacity, suffix, key length, security level, block size or non-byte length) returns an error and writes no output. "
  "The object then continues exactly as if the refused call had never been made.",
  ["histories", "fault_sequences", "configurations"],
  "all points of all session histories at which a forbidden call can be made",
  "Tests only make well-formed calls; refusals and their absence of side effects are never exercised.",
  ["lib/high/Keccak/KeccakSponge.inc", "lib/high/Keccak/FIPS202/KeccakHash.c", "lib/high/Keccak/SP800-185/SP800-185.inc", "lib/high/KangarooTwelve/KangarooTwelve.c", "lib/high/Keccak/KeccakDuplex.inc", "lib/high/Keccak/PRG/KeccakPRG.inc", "lib/high/Kravatte/Kravatte.c", "lib/high/Xoofff/Xoofff.c"],
  [("phase checks", "phase tests at the top of each public function"), ("parameter checks", "Initialize functions")],
  ["phase", "squeezing"], ["return codes", "outputs of the calls that follow"])

p("C14", "Concurrent sessions never influence each other",
  "Any number of sessions on distinct objects may be in progress in different execution contexts at once, interleaved at any point, even inside a call, including while other sessions are being initialized: each returns exactly what it returns when run alone. "
  "No function keeps hidden modifiable state that one session can observe from another.",
  ["schedules", "histories", "configurations"],
  "all interleavings of calls and parts of calls of sessions of all kinds on each backend",
  "The test programs are single-threaded and run one session at a time, so a shared scratch buffer or table rewritten at initialization is invisible to them.",
  ["lib/high", "lib/low/KeccakP-1600/ref-64bits/KeccakP-1600-reference.c", "lib/low/KeccakP-1600/ref-32bits/KeccakP-1600-reference32BI.c"],
  [("caller-owned instances only", "instance structures of every public header"), ("static initialization", "KeccakP1600_StaticInitialize in the reference backends")],
  ["instance structures", "writable static data of the library"], ["outputs and return codes of each session"])

p("C15", "A session survives crash, checkpoint restore and relocation of its object",
  "The bytes of an object are its whole state: a copy taken between calls and resumed later, at another suitably aligned address, by another task, after the original was destroyed, or after a crash in the middle of a later call, continues exactly as the uninterrupted session would. "
  "Initializing an object makes it independent of whatever its memory held before, including a half-finished earlier session.",
  ["crash_points", "histories", "fault_sequences", "configurations"],
  "all points between calls for copies, all points inside calls for crashes, all object kinds on each backend",
  "Tests keep every object at one address from initialization to the end and never abandon a call midway.",
  ["lib/high"],
  [("self-contained instance structures", "XKCP_DeclareSpongeStructure, KangarooTwelve_Instance, ParallelHash_Instance, Kravatte_Instance, Xoofff_Instance, Xoodyak_Instance"), ("initialization", "all *_Initialize and *_MaskDerivation functions")],
  ["the instance structures"], ["outputs and return codes after the restore"])

p("C16", "All builds of the library interoperate",
  "Parties running different build targets (reference, compact, 32-bit, 64-bit, lane-complementing, SSSE3, AVX, AVX2, AVX-512, with or without assembly) that execute the same protocol steps produce identical bytes and identical return codes at every step, for every function and mode. "
  "A stream may change backend at any message boundary without either side noticing.",
  ["configurations", "histories", "inputs"],
  "all histories of all public functions, all pairs of targets available on the machine",
  "Each test run checks one target against stored checksums of fixed schedules; targets are never run against each other on common histories.",
  ["lib/LowLevel.build", "Makefile.build", "lib/low", "lib/high"],
  [("per-target selection of kernels", "Makefile.build targets"), ("fast-loop and parallel kernels selected at compile time", "*_FastLoop_supported, *_FastKravatte_supported, *_FastXoofff_supported, CyclistFullBlocks_supported")],
  ["none shared between parties"], ["transcripts of the parties"])

p("C17", "Calls only touch the memory they were given",
  "No call reads or writes outside the object and the buffers passed to it, wherever these lie (any alignment of data buffers, ending right before or starting right after inaccessible memory, zero-length buffers, in-place where allowed). "
  "Input buffers are never modified, and of an output buffer exactly the requested bytes are written.",
  ["inputs", "histories", "configurations"],
  "all functions, lengths, alignments and placements of buffers, on each backend",
  "Tests use generously sized, aligned static buffers, so overreads, overwrites past the requested length and alignment assumptions go unnoticed.",
  ["lib/high", "lib/low"],
  [("partial-lane input/output", "lib/low/common/SnP-Relaned.h, *_AddBytes/*_ExtractBytes in each backend"), ("vector loads in fast loops", "lib/low/*/*.c, *.s")],
  ["caller buffers"], ["buffer contents and memory protection around every call"])

p("C18", "State access and permutation layers act on exactly the addressed bytes",
  "After any history of initialize, add, overwrite, zero, extract, permute and fast-loop operations, the logical content of a Keccak-p[1600] or Xoodoo state equals the byte-string model: each operation affects exactly the addressed bytes and each permutation call is the specified number of rounds. "
  "In the parallel layers the instances are independent and each equals a serial state driven with the same operations.",
  ["inputs", "histories", "configurations"],
  "all operation sequences with all offsets, lengths, lane counts, lane offsets and instance indices, on each backend and degree of parallelism",
  "The SnP tests walk offsets and lengths from a fixed start state with one order of operations; interactions with lane complementing, bit interleaving and scattered layouts depend on the history.",
  ["lib/low/KeccakP-1600", "lib/low/KeccakP-1600-times2", "lib/low/KeccakP-1600-times4", "lib/low/KeccakP-1600-times8", "lib/low/Xoodoo", "lib/low/Xoodoo-times4", "lib/low/Xoodoo-times8", "lib/low/Xoodoo-times16", "doc/SnP-documentation.h", "doc/PlSnP-documentation.h"],
  [("state access", "*_AddBytes, *_OverwriteBytes, *_OverwriteWithZeroes, *_ExtractBytes, *_ExtractAndAddBytes"), ("interleaved access", "*_AddLanesAll, *_OverwriteLanesAll, *_ExtractLanesAll, *_ExtractAndAddLanesAll"), ("permutations", "*_Permute_Nrounds/12/24, *_PermuteAll_*"), ("fast loops", "*_FastLoop_Absorb")],
  ["opaque state"], ["extracted bytes"])

p("C19", "The file hashing tool never reports a digest for data it did not read",
  "For every named file, standard input or string, the hashing utility prints the digest of exactly that content under the most recently selected function and format, however the operating system cuts the reads. "
  "If a file cannot be opened or fully read, or the result cannot be written, it prints no digest for that item and exits with a failure status.",
  ["inputs", "fault_sequences", "configurations"],
  "all option sequences, file contents and sizes, short reads, interrupted reads, read errors at any offset, open failures and output failures",
  "The utility has no test at all, and I/O failures cannot be produced by the test-suite.",
  ["util/KeccakSum/KeccakSum.c", "util/KeccakSum/base64.c"],
  [("read loop", "KeccakSum.c processFile"), ("option processing", "KeccakSum.c process"), ("encoding", "base64.c base64encode, KeccakSum.c hexencode")],
  ["Specifications", "Instance"], ["standard output and exit status"])

p("C20", "Data values never influence control flow or memory addresses",
  "Which instructions every library call executes and which addresses it accesses depend on the lengths given, the history of calls, the parameters and, for unwrapping and deciphering, on whether the message is accepted, "
  "but not on the values of keys, messages, associated data, tags, ciphertexts or state: two histories that differ in such values alone have the same trace, so an observer of time or caches learns nothing about them. "
  "In particular, rejecting a forged tag takes the same steps wherever it is wrong.",
  ["inputs", "histories"], "all pairs of inputs of equal lengths, all histories of all public functions",
  "Tests compare outputs only; control flow and addresses are not observed.",
  ["lib/high", "lib/low"], [("table-free permutations", "lib/low"), ("absorbing and squeezing", "lib/high/Keccak/KeccakSponge.inc"), ("tag comparison", "KravatteModes.c, XoofffModes.c")])

p("C21", "Stand-alone compact implementations equal the library",
  "The stand-alone compact C and Python FIPS 202 implementations and the Rust KangarooTwelve implementation return the same digests as the library for every message, customization string, rate, suffix and output length, touch no memory outside the buffers given, and keep nothing from one call to the next. "
  "KeccakSum.py prints exactly the digests of the files it could read in the instance and encoding last chosen, and nothing for a file it could not read to its end.",
  ["inputs", "histories", "file contents", "I/O errors"], "all messages, parameters, output lengths and interleavings of calls; all argument lists and file-system answers of KeccakSum.py",
  "No test in the suite runs them; their own self-tests compare known answers for a few lengths.",
  ["Standalone/CompactFIPS202", "Standalone/KangarooTwelve"], [("one-shot functions", "Standalone/CompactFIPS202/C/*.c, Standalone/KangarooTwelve/Rust/k12.rs")])

p("C22", "Any combination of permutation implementations gives the same library",
  "Every custom build that doc/HOWTO-customize.build allows, with one implementation of each permutation and, at will, any one implementation for each degree of parallelism, compiles and behaves as the predefined targets do: "
  "the same bytes and return codes for every history of every public function, and sessions may be split between parties that run different custom builds.",
  ["configurations", "histories", "inputs"], "all combinations of the fragments of lib/LowLevel.build that run on the machine, all histories of all public functions",
  "Only the 14 predefined targets are built and tested: half of the low-level fragments (unrolled, x86-64 assembly and other variants) are in none of them, and code that falls back from one degree of parallelism to another is reached with few combinations.",
  ["Makefile.build", "lib/LowLevel.build", "doc/HOWTO-customize.build", "lib/low", "lib/high/KangarooTwelve/KangarooTwelve.c", "lib/high/Keccak/SP800-185/SP800-185.inc", "lib/high/Kravatte/Kravatte.c", "lib/high/Xoofff/Xoofff.c"],
  [("fragments", "lib/LowLevel.build"), ("choice of the widest kernel present, then narrower ones", "XKCP_has_KeccakP1600times2/4/8, XKCP_has_Xoodootimes4/8/16")],
  ["session objects, whose layout depends on the build"], ["return codes and bytes of every public function"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
