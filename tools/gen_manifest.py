#!/usr/bin/env python3
"""Writes MANIFEST.json and completes checks.json (bounds, assumptions) from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REFA = "the reference model (harness/ref.h) states the standards correctly: it is checked against the standards' printed examples before every run"
SAN = "AddressSanitizer and the UBSan checks named in run.py report what they are built to report; the library is compiled with g++ -O1 for this check"
OPT = "the library is compiled with g++ -O2 for this check"
T = {
 "C01": ("stateless exploration: every sequence of round-function answers with bounded deviations, plus key/table/block alphabets, replayed on the reference model",
   "quick: substitution answers within 2 deviations (9 kinds of answers, equal halves included) over all 32 rounds for 8 keys x tables, one-hot and one-cold keys and blocks, all byte values at all positions; every construction of a key", "as quick with 40 keys x tables", [REFA, OPT]),
 "C02": ("stateless exploration: encryption composed with decryption over every bounded sequence of round-function answers and key/table/block alphabets, both orders",
   "quick: as C01, non-bijective tables and arbitrary round functions included", "as quick with 40 keys x tables", [OPT]),
 "C03": ("explicit enumeration of layer inputs (all byte values at all positions, all byte pairs through R and S) and key/block alphabets against the reference model",
   "quick: S, R, L on every byte value per position, all bit pairs, all 65536 values of byte pairs; one-hot keys, all bytes of keys and blocks", "as quick, L on byte pairs, more keys", [REFA, OPT]),
 "C04": ("exhaustive enumeration of all 2^32 inputs of each substitution layer against the table",
   "quick: all 2^32 inputs for the default table and generated tables in both representations, rotation included", "more tables", [REFA, OPT]),
 "C05": ("bounded exhaustive exploration of lengths, positions, keys and initial values, traces compared with the reference model and decrypted by the real source",
   "quick: every length up to a few hundred bytes and around powers of two, every byte value at every position of short messages, one-hot keys and initial values, all key constructions; compiled with -O2: 2^17..2^21 blocks, one less and one more, 16 MB in pieces", "longer messages and more keys, 2^25 blocks, 4 GB written and read in pieces", [REFA, SAN]),
 "C06": ("bounded exhaustive exploration of lengths, positions, keys and initial values, traces compared with the reference model and decrypted by the real source",
   "quick: every length up to a few hundred bytes and around powers of two, every byte value at every position of short messages, one-hot keys and both halves of the initial value; compiled with -O2: 2^17..2^21 blocks, one less and one more, 16 MB in pieces", "longer messages and more keys, 2^25 blocks, 4 GB written and read in pieces", [REFA, SAN]),
 "C07": ("explicit-state exploration of all write partitions, observation after every write",
   "quick: every composition of every length up to 17 bytes incl. empty writes; all 2- and 3-cut partitions of longer messages; ECB likewise in blocks", "every composition up to 20+ bytes", [REFA, SAN]),
 "C08": ("explicit-state exploration of all fragmentations below x all read-size sequences above",
   "quick: every fragmentation and every read sequence of messages up to 9 bytes, uniform and two-cut ones beyond, requests up to SIZE_MAX; MAC and ECB over every fragmentation", "up to 11 bytes in full", [REFA, SAN]),
 "C09": ("bounded exhaustive exploration of messages, writes, reads and refusals",
   "quick: every length up to 200 bytes, every write size, empty writes, every request size, every truncation, containers of all key bytes; compiled with -O2: 2^17..2^21 blocks, one less and one more, 16 MB in pieces", "longer, 2^25 blocks, 4 GB written and read in pieces", [REFA, SAN]),
 "C10": ("bounded exhaustive exploration of message lengths, byte values and steering block sequences against the reference model",
   "quick: every length up to 1100 bytes x 8 keys covering all four K1/K2 reduction outcomes, all byte values at all positions of 12 lengths, all sequences of 5 steering blocks, powers of two to 2^21 blocks, one less and one more", "lengths to 4200, 6 steering blocks, 2^25 blocks, a message of 4 GB", [REFA, SAN]),
 "C11": ("bounded exhaustive exploration of streams (word counts, declared sizes, garbage beyond them, CTR below) against the reference model",
   "quick: memory streams of 0..70 words, streams of 1..4 blocks with 0..16 valid bytes, garbage in each other byte, 8 keys covering all four K1/K2 outcomes, all byte values, 4 steering blocks, powers of two to 2^18 blocks, one less and one more", "300 words, 12 blocks, 5 steering blocks, 2^22 blocks", [REFA, OPT]),
 "C12": ("bounded exhaustive exploration of message lengths, byte values and steering block sequences against the reference model",
   "quick: every length up to 1100 bytes x 8 keys, tables and key kinds, all byte values at all positions of 12 lengths, all sequences of 5 steering blocks, powers of two to 2^21 blocks, one less and one more", "lengths to 4200, 6 steering blocks, 2^25 blocks, a message of 2 GB", [REFA, SAN]),
 "C13": ("bounded exhaustive exploration of streams, initial values and iteration orders; counter increments over all carry patterns",
   "quick: 0..24 words x 7 initial values x 8 keys x 3 iteration orders, declared sizes 0..16, stacked encryptions, all carry boundaries of the increment, all 65536 values of byte pairs, 2^17 and 2^18 blocks, one less and one more, in full, counters walked to 2^24", "80 words, 2^22 blocks, counters walked to 2^32", [REFA, OPT]),
 "C14": ("explicit-state exploration of all histories over a stream and three iterators",
   "quick: every history of 6 operations (new, next, drop, look, drop stream) for 7 stream lengths, every length to 300 words, 2^18..2^22 words, one less and one more, a stream of more than 4 GB, survivors at every position", "histories of 7 operations, lengths to 1200, to 2^26 words", [SAN]),
 "C15": ("explicit-state exploration of all branching histories over pools of objects, every object observed afterwards",
   "quick: every branching history of up to 4 writes/reads from any earlier object (6 chunk sizes, 5 read sizes), 3-action sequences over 22 actions sharing keys and, up to one of them, 10 that are refused or fail below, CTR iterator pools of depth 5; 24 kinds of objects x all ordered pairs of 32 parameter variants made and destroyed in turn under 4 address-reuse policies; every change of a single element of a parameter while the original is alive or gone; every kind between two uses of every other; compiled with -O2: 66 operations 65600 times on the same and on new objects (600 for those that make a Kuznyechik key); every history of 4 copies, moves, uses and drops of 44 kinds of objects", "depth 5 / 4 / 6; 6 copies, moves, uses, drops", [REFA, SAN]),
 "C16": ("explicit-state exploration of all histories of uses, failures and changes of the underlying object against the cache model; all thread interleavings up to a preemption bound for concurrent first uses",
   "quick: cached blocks: all histories of 7 operations; cached key data, and cached key data over cached key data: all histories of 5 operations out of 9 (fault at the 1st, 2nd, 5th, 8th consultation); key: 5 operations; 2 and 3 threads over caches whose computation fails or never delivers the same twice: every schedule with up to 3 (2) preemptions at locks, 2 with reference counting; 0..65537 failures in a row followed by 66000 uses", "9 / 6 / 6 operations, two more preemptions", [SAN, "its scenarios of several threads run as in C17: compiled with -fsanitize=thread against the runtime in harness/explore.cpp, schedule points at locks, one-time initialisation and atomics"]),
 "C17": ("stateless model checking of the real code: all thread interleavings up to a preemption bound under a controlled scheduler, with happens-before race detection",
   "quick: about 90 scenarios of 2 or 3 threads over keys, tables, key data, blocks, modes, MACs, streams: cold and warm shared objects and unrelated objects; every schedule with up to 3 (tiny), 2 (one block, 2 threads) or 1 (others) preemptions at locks, one-time initialisation and atomics, and up to 2 (tiny) or 1 with reference counting included; stale values of relaxed/acquire loads count as deviations; races by vector clocks on every instrumented access",
   "3 threads everywhere; one to two more preemptions for the small scenarios", ["schedule points are pthread mutexes, rwlocks, condition variables, once, function-local statics and atomics; code between them is covered by race detection (a race-free program behaves as if they were the only points)", "accesses inside the compiled standard library and inside libc are not tracked", "a thread's own allocations that no other thread touches in any explored execution carry no schedule points", "the library is compiled with g++ -O1 -fsanitize=thread against the runtime in harness/explore.cpp"]),
 "C18": ("fault enumeration over the real code: every call into a collaborator (four error types), every allocation, pairs of faults",
   "quick: 66 scenarios, each operation on fresh objects and on objects in the middle of a message; every call x 4 error types, every allocation (every 9th in four very long scenarios), pairs for the small ones", "every allocation, denser pairs", [SAN, "single-threaded; failures of operator new stand for all allocation failures"]),
 "C19": ("exhaustive enumeration of malformed and well-formed material at every place",
   "quick: all 256 characters at all 64 positions of key text and all positions of block text of 0..64 digits, all lengths to 200 (block text to 600) and around powers of two to 2^18, keys one digit apart alive together, signs/prefixes/blanks at all places, every size of native keys to 600 words, of containers and tables, and sizes 2^8..2^18 too large, wrong indices; errno holding an error before each; key and block text under a global locale that groups digits", "lengths to 600 (1100), sizes to 2^26, all container size pairs", [REFA, SAN]),
 "C20": ("enumeration of operand alphabets and of all compositions of the operations up to a depth, against exact arithmetic",
   "quick: one-hot, one-cold and boundary operands (pairs of them), every shift 0..63 / 0..127, every constructor, all compositions of depth 3-4", "all operand pairs, depth 4-5", [SAN]),
 "C21": ("measurement over all lengths of a grid on the real code: stack high-water mark, evaluation and allocation counts, bytes allocated",
   "quick: 34 workloads x lengths to 65537 (300000) blocks for the stack; every length to 64 and powers of two to 2^14 for the counts", "to 2*10^6 blocks; 2^17", [OPT, "growth that stays below 16 KB of stack at 65537 blocks, or below a factor of two per block (bytes allocated: two and a half per doubling), is not seen"]),
 "C22": ("stateless exploration: every mode driven by a key stub whose answers are enumerated, calls compared with the standard's order",
   "quick: all modes x 30 round functions x 0..12 blocks and every tail; answers within 2 deviations over all 32 rounds for 4 keys x tables", "0..40 blocks; 24 keys x tables, all 9 answers twice", [REFA, SAN]),
 "C23": ("bounded exhaustive exploration of lengths, chunkings, fragmentations and malformed material under AddressSanitizer and UBSan",
   "quick: all two-cut chunkings of up to 34 bytes, pieces 1..10 x reads for up to 26 bytes, requests up to SIZE_MAX, objects whose makers are gone, MACs to 500 bytes, streams to 40 words, texts to 140 characters, material to 100 elements, messages to 256 KB", "60 / 50 bytes, MACs to 2000 bytes", [SAN]),
 "C24": ("explicit enumeration of all stacks up to a depth x keys shared or not x lengths x cuts x reads x fragmentations, against the composition of the models",
   "quick: all stacks of up to 4 sinks and sources, lengths to 100 (1 level), 73, 41, 17 (4 levels), 7 sizes of writes, 7 of reads, 7 of pieces, all first cuts; MACs over stacks of up to 3; two stacks by turns; a sink feeding two stacks; CTR up to 4 times over memory and user streams", "5 levels, longer", [REFA, SAN]),
 "C25": ("measurement over all lengths of a grid and many repetitions on the real code: peak of the bytes held, bytes held after repeated use",
   "quick: 29 workloads x 16 lengths to 65537 blocks (16385 for Kuznyechik); 400 repetitions of 34 workloads, 700 uses of 15 kinds of objects with ever other parameters", "to 10^6 blocks; 14000 uses", [OPT, "memory is what operator new hands out; growth below 64 KB over the longest message, or below 8 bytes per byte handed over in a single call, is not seen"]),
 "C26": ("exhaustive exploration of nested uses: every operation x every call it makes to a collaborator x every operation carried out within that call, one level more for a part of them",
   "quick: 66 operations, at up to 24 places (and the first and last eight) of the calls each makes, the same 66 inside, on objects made before or there and then, and inner uses that fail at three places; a quarter of all triples; every operation inside itself on the same objects at up to 400 places", "every call up to 2000, all triples at 4 places", [OPT, "a cache that is asked for the value it is about to compute is left out: its value would be defined by itself"]),
 "C27": ("exhaustive exploration of the threads, and moments in their life, in which objects are made and used, each combination in a process of its own",
   "quick: 66 operations on objects made and used at every pair and triple of 6 stages (main, a thread, its end, a later thread, its end, main again), and made anew; every pair of stages x every operation at the first x all others at the second", "as quick, and all operations that make a Kuznyechik key among the others", [SAN, "threads follow one another: C17 is about those at the same time"]),
}
checks = json.load(open(os.path.join(HERE, "checks.json")))
extra = {}
out = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": [],
       "notes": "All checks explore the real code, rebuilt from /repo's working tree in a scratch folder under /verif/build. No hooks in /repo. See DESIGN.md."}
for l in open(os.path.join(HERE, "properties.jsonl")):
    pid = json.loads(l)["id"]
    t = T[pid]
    if pid not in checks:
        out["not_applicable"].append({"property": pid, "reason": "check under construction"})
        continue
    checks[pid]["bounds"] = {"quick": t[1], "thorough": t[2] if t[2].startswith("thorough") else "thorough: " + t[2]}
    checks[pid]["assumptions"] = t[3]
    out["checks"].append({
        "property": pid,
        "quick_cmd": "python3 run.py %s --tier quick" % pid,
        "thorough_cmd": "python3 run.py %s --tier thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": "model checking: " + t[0],
        "level": "model_checking",
        "level_note": "Holds on everything enumerated within the bounds (%s); every enumerated execution runs the real code. Assumes: %s." % (t[1], "; ".join(t[3])),
    })
json.dump(dict(sorted(checks.items())), open(os.path.join(HERE, "checks.json"), "w"), indent=1)
json.dump(out, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
