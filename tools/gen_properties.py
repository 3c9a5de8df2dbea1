#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})
M, K, G = "goost/magma/", "goost/kuznyechik/", "goost/gost89/"
NOSUITE = "The only test that runs computes one Kuznyechik MAC of four full blocks; "

p("C01", "Magma block encryption equals the standard for every key, table and block",
  "For every 256-bit key, every 64-bit block and every substitution table, encrypting a block gives exactly the value GOST R 34.12-2015 (Magma) / GOST 28147-89 defines: 32 rounds, subkeys K1..K8 three times and then K8..K1, round function 'add the subkey mod 2^32, substitute, rotate left 11', halves exchanged at the end. The block object and the raw 64-bit transformation always agree, and a key given without a table uses the standard's own table.",
  ["inputs"], "every key, every block, every substitution table, both encryption entry points",
  NOSUITE + "Magma is never executed by it. The unbuildable unit suite has 7 sampled vectors.",
  [M+"BlkEncrypted.cpp", M+"EncryptionBase.cpp", M+"BlkForwarded.cpp", M+"BlkBackwarded.cpp", M+"BlkSwapped.cpp", M+"LazyKey.cpp", M+"SboxR3412.cpp"],
  [("forward/forward/forward/backward composition", M+"BlkEncrypted.cpp"), ("unrolled rounds", M+"EncryptionBase.cpp")],
  ["Block::value()", "EncryptionBase::transform()"])
p("C02", "Magma block decryption inverts encryption for every key and every table",
  "For every key, every block and every substitution table (bijective or not), decrypting an encrypted block returns the original block and encrypting a decrypted block returns the original block. This holds whatever round function the key object implements.",
  ["inputs"], "every key, every 64-bit block, every round function",
  NOSUITE + "decryption is never executed; the unbuildable suite has one decryption vector.",
  [M+"BlkDecrypted.cpp", M+"BlkForwarded.cpp", M+"BlkBackwarded.cpp", M+"BlkSwapped.cpp"],
  [("forward/backward/backward/backward composition", M+"BlkDecrypted.cpp")], ["Block::value()"])
p("C03", "Kuznyechik block encryption equals GOST R 34.12-2015 for every key and block",
  "For every 256-bit key and every 128-bit block, encryption gives exactly the Kuznyechik value of GOST R 34.12-2015: the substitution acts on each byte by the standard's table, the linear transformation is 16 steps of the standard's shift register over GF(2^8), the ten round keys come from the standard's 32-step key schedule, and nine full rounds are followed by a final key addition.",
  ["inputs"], "every 256-bit key, every 128-bit block, every byte value in every position",
  NOSUITE + "that is one key and five blocks, which touches only part of the substitution table and of the field multiplication.",
  [K+"BlkS.cpp", K+"BlkR.cpp", K+"BlkL.cpp", K+"BlkIterKey.cpp", K+"Key.cpp", K+"BlkEncrypted.cpp", K+"BlkXored.cpp"],
  [("substitution table", K+"BlkS.cpp"), ("field multiplication", K+"BlkR.cpp"), ("key schedule", K+"BlkIterKey.cpp")],
  ["BlkEncrypted::value()", "Key::encrypt()"])
p("C04", "Magma substitution layers apply the supplied table to every nibble, for all 2^32",
  "For every 32-bit input, a substitution built from eight 16-entry rows and one built from the packed 64-byte table replace each of the eight nibbles independently by the corresponding table entry, and the rotating wrapper rotates the wrapped result left by 11 bits. The default table is the one fixed by GOST R 34.12-2015, and the two representations of one table agree on all inputs.",
  ["inputs"], "all 2^32 inputs, every table",
  NOSUITE + "no Magma substitution is executed at all.",
  [M+"SboxNibble.cpp", M+"SboxByte.cpp", M+"SboxByte64Tab.cpp", M+"SboxTwisted.cpp", M+"SboxR3412.cpp"],
  [("nibble lookup", M+"SboxNibble.cpp"), ("packed lookup", M+"SboxByte64Tab.cpp"), ("rotation", M+"SboxTwisted.cpp")],
  ["Sbox::transform()"])
p("C05", "GOST 28147-89 CFB: ciphertext is the standard's and decryption restores any data",
  "For every key, table, 64-bit initial value and message of any length (including lengths that are not a multiple of the block), encrypting through the GOST 28147-89 cipher-feedback sink and finalizing yields exactly as many bytes as the message, equal to the standard's gamma-with-feedback ciphertext, an incomplete last block being masked with the leading bytes of the gamma block. Reading that ciphertext through the matching source gives back exactly the message and then end of data.",
  ["inputs", "histories"], "every message length and content, every key, initial value",
  NOSUITE + "no CFB code is executed. The unbuildable suite has one two-block message and no incomplete block.",
  [G+"CFBSink.cpp", G+"CFBSource.cpp"],
  [("feedback register", G+"CFBSink.cpp"), ("feedback register", G+"CFBSource.cpp"), ("tail", G+"CFBSink.cpp finalize")],
  ["Sink::write/finalize output", "Source::read output"],
  [{"name": "iv", "meaning": "feedback register", "where": G+"CFBSink.h"}, {"name": "plain", "meaning": "bytes of the unfinished block", "where": G+"CFBSink.h"}])
p("C06", "GOST R 34.13 CFB on Magma: standard ciphertext, decryption restores any data",
  "For every key, 128-bit initial value (two 64-bit halves) and message of any length, encrypting through the Magma cipher-feedback sink and finalizing yields exactly as many bytes as the message, each block masked with the encryption of the ciphertext block two positions back (the initial value's halves before that), an incomplete last block being masked with the leading bytes of its gamma block. Reading that ciphertext through the matching source gives back exactly the message and then end of data.",
  ["inputs", "histories"], "every message length and content, every key, both halves of the initial value",
  NOSUITE + "no CFB code is executed. The unbuildable suite has one four-block message and no incomplete block.",
  [M+"CFBSink.cpp", M+"CFBSource.cpp"],
  [("two-block shift register", M+"CFBSink.cpp"), ("two-block shift register", M+"CFBSource.cpp"), ("tail", M+"CFBSink.cpp finalize")],
  ["Sink::write/finalize output", "Source::read output"],
  [{"name": "ivl, ivr", "meaning": "older and newer half of the feedback register", "where": M+"CFBSink.h"}])
p("C07", "Encrypting sinks: output depends only on the bytes written, not on the chunking",
  "However a message is cut into writes (any sizes, empty writes included, for ECB any multiples of the block), an encrypting sink (CFB of either standard, ECB) delivers to the sink below the same bytes in the same order: after each write every block completed so far has been delivered and nothing of an incomplete block, and finalizing delivers the remaining incomplete block once. Finalizing returns the sink below, holding exactly the ciphertext, and also works when nothing was written.",
  ["histories", "inputs"], "every partition of every message into writes",
  NOSUITE + "no sink is executed. 2^(n-1) partitions of an n-byte message exist; the unbuildable suite writes everything in one call.",
  [M+"CFBSink.cpp", G+"CFBSink.cpp", M+"ECBSink.cpp", "goost/Sink.h"],
  [("carry-over buffer", M+"CFBSink.cpp write"), ("carry-over buffer", G+"CFBSink.cpp write")],
  ["bytes received by the underlying sink after each write and after finalize"])
p("C08", "Decrypting sources and MACs: result independent of read sizes and fragmentation",
  "Whatever sequence of sizes a reader asks for, and in whatever non-empty pieces (of at most the requested size) the source below delivers its bytes, the concatenation of what a CFB source returns is the plaintext, every read returns exactly the requested number of bytes until the data ends, and an empty result for a non-empty request appears only at the end and persists. ECB decryption and the Magma MAC likewise depend only on the concatenated bytes, not on how the source below fragments them, and a CFB source never takes more than one block beyond what it was asked for.",
  ["histories", "inputs", "fault_sequences"], "every sequence of read sizes times every fragmentation by the underlying source",
  NOSUITE + "no source is executed; the unbuildable suite only uses a source that always delivers whole blocks and reads everything at once.",
  [M+"CFBSource.cpp", G+"CFBSource.cpp", M+"ECBSource.cpp", M+"Imit.cpp", "goost/Source.h"],
  [("left-over buffer", M+"CFBSource.cpp read"), ("left-over buffer", G+"CFBSource.cpp read"), ("block assembly", M+"ECBSource.cpp read, " + M+"Imit.cpp value")],
  ["Source::read results", "requests made to the underlying source"])
p("C09", "ECB mode enciphers each block independently, round-trips, refuses partial blocks",
  "For every key and every message of whole blocks, the ECB sink outputs the block-by-block encryption and the ECB source decrypts it back, block by block, then reports end of data; a source built from a key container behaves as one built from the equivalent key and table. A write that is not a whole number of blocks, a read request smaller than a block, and a ciphertext that ends inside a block are refused with an error, never processed into output.",
  ["inputs", "histories"], "every key, container, message, and every length of data or request",
  NOSUITE + "ECB is never executed; the unbuildable suite has one aligned message.",
  [M+"ECBSink.cpp", M+"ECBSource.cpp", M+"Container.h", G+"ECBSink.h", G+"ECBSource.h"],
  [("alignment check", M+"ECBSink.cpp"), ("alignment check", M+"ECBSource.cpp"), ("container to key", M+"ECBSource.cpp makeKey")],
  ["Sink output", "Source::read results", "exceptions"])
p("C10", "Magma MAC equals the GOST R 34.13 MAC for every message length",
  "For every key and every byte message of any length, including empty, the Magma MAC is the GOST R 34.13-2015 value: CBC chaining of the blocks, the last block combined with K1 when it is complete and with K2 when it is incomplete, an incomplete last block being completed by a single one bit and zeros (byte 0x80, then zero bytes). In particular, appending zero bytes to a message changes its padded form, and both reduction branches of the K1/K2 derivation follow the standard.",
  ["inputs"], "every key (all carry branches of K1 and K2), every message length and content",
  NOSUITE + "the Magma MAC is never executed; the unbuildable suite has one full-block message.",
  [M+"Imit.cpp", M+"BlkShifted.cpp"],
  [("last-block key derivation", M+"Imit.cpp"), ("padding", M+"Imit.cpp value")], ["Imit::value()"])
p("C11", "Kuznyechik MAC equals the GOST R 34.13 MAC for every stream",
  "For every key and every stream, whose last block may be incomplete or which may be empty, the Kuznyechik MAC is the GOST R 34.13-2015 value: CBC chaining, K1 for a complete last block, K2 for an incomplete one, which is completed by a single one bit and zeros (byte 0x80, then zero bytes). Only the bytes the stream declares valid in its last block influence the result, so a MAC over a CTR-encrypted stream is the MAC of the ciphertext bytes.",
  ["inputs"], "every key (all carry branches of K1 and K2), every number of valid bytes, every stream implementation",
  NOSUITE + "so the incomplete-block branch, the empty stream and three of the four carry branches are never run.",
  [K+"Imit.cpp", K+"BlkShifted.cpp", K+"StMemory.cpp"],
  [("conditional shift", K+"Imit.cpp"), ("last-block choice", K+"Imit.cpp value")], ["Imit::value()"])
p("C12", "GOST 28147-89 MAC equals the standard for every message length",
  "For every key, table and byte message, the GOST 28147-89 imitation insert is the standard's: 16 rounds per block with subkeys K1..K8 twice and no final exchange, message completed with zero bytes to whole blocks and to at least two blocks. The result is always eight bytes and the message passed in is not altered.",
  ["inputs"], "every key, table, message length and content",
  NOSUITE + "this code has no test at all, not even in the unbuildable suite.",
  [G+"DataImit.cpp", G+"ImitedBlock.cpp"],
  [("padding and chaining", G+"DataImit.cpp value"), ("16-round block", G+"ImitedBlock.cpp")], ["DataImit::value()", "ImitedBlock::value()"])
p("C13", "CTR encryption uses one fresh counter per block and is its own inverse",
  "For every key, 64-bit initial value and stream of any length, block i of the CTR-encrypted stream is block i of the input masked with the encryption of the counter (initial value in the upper half, block number i in the lower half, arithmetic mod 2^128), with the same number of blocks, the same declared sizes and the same position of the last block, after which there is no next one. Encrypting the encrypted stream again with the same key and initial value restores the input, and incrementing a counter block is addition of one mod 2^128 for every value.",
  ["inputs", "histories"], "every initial value, counter value, stream length and order of iterator operations",
  NOSUITE + "CTR is never executed; the unbuildable suite reads four blocks and increments one counter value.",
  [K+"StCTREncrypted.cpp", K+"BlkIncremented.cpp"],
  [("counter chain", K+"StCTREncrypted.cpp next"), ("carry", K+"BlkIncremented.cpp")], ["Iterator::value/size/last/next"])
p("C14", "A memory stream presents exactly its words, block by block, to any iterator",
  "For any number of 64-bit words, including none and odd numbers, iterating a memory stream visits every word exactly once and in order, two per block, with the last block flagged as last and declaring how many of its bytes are valid (8 for a single word, 0 for the empty stream) and unused bytes zero, and with no next block after it. Any number of iterators may be used in any interleaving, restarted, and kept after the stream or earlier iterators are gone, without affecting what each one sees.",
  ["inputs", "histories"], "every word count, every interleaving and lifetime of iterators",
  NOSUITE + "that is one even word count and one forward pass with the stream kept alive.",
  [K+"StMemory.cpp", K+"StMemory.h", K+"Iterator.h", K+"Stream.h"],
  [("offset arithmetic", K+"StMemory.cpp next_iter"), ("last detection", K+"StMemory.cpp last")], ["Iterator::value/size/last/next"])
p("C15", "Objects are immutable: using one never changes what any other yields",
  "Sinks, sources, keys, blocks, MACs, streams and iterators are values: repeating an operation on the same object always gives the same result, and continuing from one object (write, read, next, encrypt, MAC) never changes what that object, any earlier or later object, or any unrelated object sharing the same key or source yields. Objects derived from others, copies included, keep working after those are destroyed, and the caller's input data is never modified.",
  ["histories"], "every branching history of operations over any set of live handles",
  NOSUITE + "one object is used once; branching histories grow factorially and none is tested.",
  ["goost/Sink.h", "goost/Source.h", M, K, G, "README.md"],
  [("const members, copy-on-write of buffers", M+"CFBSink.cpp, "+M+"CFBSource.cpp, "+G), ("lazy caches", M+"KeyCachedData.cpp, "+K+"BlkCached.cpp")],
  ["all public operations"])
p("C16", "Lazily cached values are fixed by their first successful computation",
  "A cached block and cached key data return, on every use and in any order of use, the value delivered by the first successful computation of the underlying object, even if that object would deliver something else later. A computation that fails leaves nothing behind: its error reaches the caller, the next use computes again, and after success the underlying object is not consulted again.",
  ["histories", "fault_sequences"], "every order of accesses, every pattern of failing computations",
  "The one test uses caches with deterministic inputs only, so it cannot tell a cache from recomputation, and no computation ever fails.",
  [K+"BlkCached.cpp", M+"KeyCachedData.cpp", M+"LazyKey.cpp", K+"Key.cpp"],
  [("loaded flag set after the fill", K+"BlkCached.cpp"), ("cached flag set after the fill", M+"KeyCachedData.cpp")],
  ["BlkCached::value()", "KeyCachedData::key()", "calls made to the underlying object"])
p("C17", "Shared objects may be used from several threads at once, without data races",
  "When several threads use the same key, block, sink, source, stream, iterator or MAC object at the same time, including the very first use that fills a lazy cache, every operation returns the same result as in a single-threaded run, there is no data race in the sense of the C++ memory model, and no schedule deadlocks. Threads working on unrelated objects never influence each other either.",
  ["schedules"], "every interleaving of concurrent operations on shared objects",
  "The one test is single-threaded.",
  [K+"BlkCached.cpp", M+"KeyCachedData.cpp", M, K, G],
  [("synchronized lazy fill", K+"BlkCached.cpp"), ("synchronized lazy fill", M+"KeyCachedData.cpp"), ("otherwise no mutable state", "README.md principles")],
  ["results of every thread", "memory accesses of the library"])
p("C18", "A failing collaborator or allocation never corrupts, loses or leaks anything",
  "If a user-supplied sink, source, key, key data, table, container, stream or block throws at any call, or memory allocation fails at any point, the operation in progress fails with that very error and produces no result; no memory is leaked, and every existing object still yields what it yielded before, so that simply repeating the operation succeeds with the normal result.",
  ["fault_sequences", "crash_points"], "every point of failure in every operation, and every pair of consecutive failures",
  "The one test injects no failure.",
  [M, K, G],
  [("exceptions propagate, objects are immutable", "goost/"), ("cache flags set after the fill", K+"BlkCached.cpp, "+M+"KeyCachedData.cpp")],
  ["exceptions", "results of repeated operations", "live allocations"])
p("C19", "Key text and key material are decoded exactly, and malformed material is refused",
  "A key given as text is accepted exactly when it consists of 64 hexadecimal digits (either case) and then denotes the standard's key value; text that is shorter, longer or contains any other character, native keys that do not have eight words, containers whose key is not 32 or whose table is not 64 bytes, and subkey indices outside 0..7 are refused with an error at the latest on first use, never turned into some other key. Block text is accepted exactly when it has at most as many hexadecimal digits as the block, read as a left-zero-padded number, and substitution tables that are too short are refused rather than read past their end.",
  ["inputs"], "every text, every length, every character in every position, every index",
  NOSUITE + "that is one well-formed key; malformed material is tested nowhere.",
  [M+"KeyDataString.cpp", M+"KeyDataNative.cpp", M+"KeyCachedData.cpp", M+"BlkString.cpp", K+"KeyDataString.cpp", K+"BlkString.cpp", M+"ECBSource.cpp", M+"SboxNibble.cpp", M+"SboxByte64Tab.cpp"],
  [("length and digit checks", M+"KeyDataString.cpp, "+K+"KeyDataString.cpp"), ("container checks", M+"ECBSource.cpp makeKey")],
  ["exceptions", "KeyData::key()", "Block::value()", "encryption results"])
p("C20", "Block primitives compute exact 64/128-bit arithmetic for every value",
  "For every block value, the elementary block objects compute exactly what they name: raw blocks give back the value they were built from through any of their constructors, exclusive-or of two or more blocks is bitwise, swapping exchanges the halves, and shifting by n is multiplication by 2^n modulo the block size for every n from 0 to the block's bit length less one, with all bits carried between the halves. They compose freely with any other block implementation, which they evaluate without altering.",
  ["inputs"], "every block value, every shift distance, every composition",
  NOSUITE + "shifting is exercised by 1 bit only; Magma primitives not at all.",
  [M+"BlkRaw.cpp", M+"BlkXored.cpp", M+"BlkXored.h", M+"BlkShifted.cpp", M+"BlkSwapped.cpp", K+"BlkRaw.cpp", K+"BlkXored.cpp", K+"BlkXored.h", K+"BlkShifted.cpp"],
  [("carry between halves", M+"BlkShifted.cpp, "+K+"BlkShifted.cpp")], ["Block::value()"])
p("C21", "Cost per block is constant: long messages need no more stack and linear work",
  "Encrypting, decrypting or authenticating a message takes an amount of call-stack space that does not depend on the message's length, and a number of block-cipher evaluations and memory allocations, and a total size of the latter, proportional to the number of blocks. Hence messages of any length that fits in memory are processed without crashing.",
  ["inputs"], "every message length",
  NOSUITE + "four blocks; growth with length is invisible to it.",
  [M+"Imit.cpp", K+"Imit.cpp", K+"StCTREncrypted.cpp", M+"CFBSink.cpp", M+"CFBSource.cpp", G+"DataImit.cpp"],
  [("chaining value evaluated block by block", M+"Imit.cpp, "+K+"Imit.cpp"), ("counter evaluated block by block", K+"StCTREncrypted.cpp next")],
  ["stack high-water mark", "number of key evaluations", "number and total size of allocations"])
p("C22", "Every mode works with every key implementation, using only its round function",
  "Every mode that accepts an abstract Magma key (CFB of both standards, ECB in both directions, the raw transformation) works with any implementation of that interface, not only the library's own, and its output is the one determined by that implementation's round function. Each block operation evaluates the round function with subkey indices 0..7 only, in the standard's order.",
  ["inputs", "programs"], "every implementation of the key interface: all answer sequences of the round function",
  NOSUITE + "no Magma mode is executed, and the unbuildable suite only uses the library's own key class.",
  [M+"Key.h", M+"CFBSink.cpp", M+"CFBSource.cpp", M+"ECBSink.cpp", M+"ECBSource.cpp", G+"CFBSink.cpp", G+"CFBSource.cpp", M+"BlkForwarded.cpp", M+"BlkBackwarded.cpp"],
  [("abstract key passed through", M+"BlkForwarded.h, "+M+"BlkBackwarded.h")], ["calls on the key", "mode output"])
p("C23", "No operation touches memory outside the buffers it owns or was given",
  "For every message length, chunking, fragmentation, key, table and stream length, no operation reads or writes outside the objects and buffers involved, uses memory after it was released, or shifts by more than a word's width. This includes incomplete last blocks, empty messages and malformed key material.",
  ["inputs", "histories"], "every length and history of every public operation",
  NOSUITE + "without a memory checker and with full blocks only.",
  [M, K, G],
  [("exact-size buffers and length checks", "goost/")], ["AddressSanitizer / UBSan instrumented accesses of the library"])

p("C24", "Modes stack on each other in any order, each level doing exactly its own work",
  "Encrypting sinks, decrypting sources, MACs and streams take any other sink, source or stream below them, the library's own included. For every stack of CFB (of either standard) and ECB sinks, with one key or a key per level, writing a message and finalizing level by level delivers the composition of the levels' encryptions, however the message is cut; the same stack of sources restores the message for every size of reads; a MAC over a stack of sources is the MAC of what they deliver; CTR streams over CTR streams mask with each level's own gamma and keep the sizes. Data that cannot pass through an ECB level, because they end inside a block, are refused. Stacks used by turns, or fed by one sink, do not affect each other.",
  ["inputs", "histories"], "every stack, every cut and fragmentation of every message",
  NOSUITE + "no mode is ever used over another one, there or in the unbuildable suite.",
  [M+"CFBSink.cpp", M+"CFBSource.cpp", M+"ECBSink.cpp", M+"ECBSource.cpp", M+"Imit.cpp", G+"CFBSink.cpp", G+"CFBSource.cpp", K+"StCTREncrypted.cpp", K+"Imit.cpp"],
  [("sinks write whole blocks below and finalize returns the sink below", M+"CFBSink.cpp, "+M+"ECBSink.cpp"), ("sources ask below for what completes a block", M+"CFBSource.cpp, "+M+"ECBSource.cpp")],
  ["bytes at the lowest sink", "bytes read from the topmost source", "MAC value", "stream blocks"])
p("C25", "Data are processed in constant memory, and all memory is given back",
  "However long the data, a sink, source, iterator or MAC holds no more memory than a constant amount besides the data handed over in a single call, as long as the user keeps only the latest object: nothing of what has passed is retained. When the objects are gone all their memory is given back, and using one key, table, sink, source, stream or MAC object again and again, or making ever other keys, tables and blocks, does not accumulate memory.",
  ["inputs", "histories"], "every message length, every number of uses",
  NOSUITE + "nothing measures memory.",
  [M+"CFBSink.cpp", M+"CFBSource.cpp", M+"ECBSink.cpp", M+"ECBSource.cpp", M+"Imit.cpp", K+"Imit.cpp", K+"StCTREncrypted.cpp", K+"StMemory.cpp", K+"BlkCached.cpp", M+"KeyCachedData.cpp"],
  [("each object refers only to what it still needs", "goost/"), ("counter and iterator advance without their predecessors", K+"StCTREncrypted.cpp")],
  ["bytes allocated and not released"])
p("C26", "Collaborators may use the library while it is calling them",
  "A sink, source, key, key data, table, container, block or stream supplied by the user may itself use any object of the library while it is being called - of another kind, of the same kind, or the very objects that are calling it where that is not circular (the value of a cache being defined by itself) - and collaborators of the inner use may do so again. Every use yields what it yields alone, the outer one also when the inner one fails and the collaborator copes with that; none of them waits for ever.",
  ["inputs", "programs", "histories"], "every operation, every call it makes to a collaborator, every use of the library within it",
  NOSUITE + "no test has a collaborator of its own.",
  [M, K, G],
  [("no state outside the objects; locks that belong to one cache each", M+"KeyCachedData.cpp, "+K+"BlkCached.cpp")],
  ["results of the outer and of the inner use, objects afterwards"])
p("C27", "Objects do not belong to a thread: they outlive the one that made or used them",
  "Every object can be made in one thread and used in any other, one after the other, also when the thread that made it, or that used it first, has ended since; and the destructors of thread-local objects can make and use objects of the library as their thread ends. Every use yields what it yields in the main thread, however threads have used the library before.",
  ["inputs", "programs", "histories"], "every operation, every thread and moment in its life at which objects are made and used, whatever was used before",
  NOSUITE + "no test has a thread.",
  [M, K, G],
  [("all state is in the objects, and they own it", "goost/")],
  ["results of operations in each thread, and as it ends"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
