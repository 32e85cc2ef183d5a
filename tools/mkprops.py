#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note, state=(), observe=("public API",)):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None), _tech=tech, _note=note))


GO = ["sha1cd.go", "sha1cdblock_generic.go", "sha1cdblock_amd64.go", "sha1cdblock_amd64.s", "sha1cdblock_arm64.go", "sha1cdblock_arm64.s"]
DET = ["detection.go", "sha1cdblock_generic.go", "sha1cdblock_amd64.s", "sha1cdblock_arm64.s", "ubc/ubc.go", "ubc/const.go", "internal/const.go"]
CGO = ["cgo/sha1.go", "cgo/sha1.c", "cgo/ubc_check.c"]
DIG = [("digest", "chaining value h, buffer x[:nx], byte count len, flag col", "sha1cd.go type digest")]
T = "TLA+ spec: TLC checks the design exhaustively at small scale; "
CONC = T + "recorded executions of the real code validated step by step against the concrete TLA+ spec with TLC"
IDEAL = T + "recorded executions of the real code validated against the relational TLA+ spec with TLC"
NB = ("Exhaustive over the scaled-down specification; for the code, every execution of the generated histories is compared with the "
      "specification (all by a fast rendering, a sample and every disagreement by TLC, which alone decides). Bounded by the inputs and histories run. ")

prop("C01", "Attack-free input hashes to its standard SHA-1 digest",
     "For every message in which no block is part of a detected collision attack, the digest returned by every way of hashing (incremental, collision-resistant sum, one call) is exactly the FIPS 180-4 SHA-1 digest of that message. This holds for every length, content and way of feeding it, in the Go package and in the cgo package.",
     ["inputs", "histories"], "every message without an attack block, any length, any sequence of writes", 
     "The tests hash a fixed list of golden strings and a few files; padding boundaries, block content and buffer offsets range over an unbounded input space.",
     GO + CGO[:1], [("Write buffers to whole blocks", "sha1cd.go Write"), ("padding with bit length", "sha1cd.go checkSum"), ("80 rounds", "sha1cdblock_generic.go blockGeneric and the assembly")],
     CONC, NB, DIG)
prop("C02", "Digest and flag do not depend on how the input is split into writes",
     "For every message and every way of splitting it into consecutive writes, including empty writes, single bytes and pieces that straddle block boundaries, the resulting digest and collision flag are the same. In particular a collision block is detected and hashed alike whether it arrives in one write or in several.",
     ["inputs", "histories"], "all messages and all partitions of them into writes",
     "The tests try halves of golden strings; the number of splittings is exponential, and splitting of attack blocks is not tested.",
     ["sha1cd.go", "detection.go"] + CGO[:1], [("Write: fill buffer, whole blocks directly, keep the rest", "sha1cd.go Write")], IDEAL, NB, DIG)
prop("C03", "Every block of a listed collision attack is reported",
     "Whenever the hashed message, padding included, contains a block that together with one of the 32 published disturbance vectors forms a (near-)collision, the collision-resistant sum reports a collision. This holds for every vector, every chaining value, every position of the block (first, middle, last, completed only by padding) and whatever was hashed before or after it.",
     ["inputs", "histories", "configurations"], "all messages with an attack block of any of the 32 vectors, at any position, after any history",
     "Real attacks are known for only a few vectors, so the tests exercise three or four of the 32 and at one position; the others have never been run through the code (17 of them could not be detected at all, see known_findings.txt).",
     DET + ["sha1cd.go"], [("bit conditions select candidates", "ubc/ubc.go CalculateDvMask"), ("companion message recompressed from the test step", "sha1cdblock_generic.go hasCollided, rectifyCompressionState"), ("saved compression states", "sha1cdblock_*.s, blockGeneric")],
     CONC + "; attack blocks for all 32 vectors made by solving the bit conditions and substituting the vector's message difference in the running process", NB, 
     [("col", "a collision was seen", "sha1cd.go type digest")])
prop("C04", "No collision is ever reported for a message without an attack block",
     "If no block of the message (padding included) collides with its companion under any of the 32 disturbance vectors, the collision-resistant sum reports no collision. Blocks that meet the preliminary bit conditions, or whose companion ends in a chaining value that differs from its own in any single bit, are not reported.",
     ["inputs", "histories"], "all messages without attack blocks, including near misses in each word and bit of the chaining value",
     "A false alarm needs a block that passes the bit conditions of some vector and is then misjudged; random or golden inputs practically never get past the bit conditions of most vectors.",
     DET, [("all five words compared", "sha1cdblock_generic.go hasCollided"), ("flag starts clear", "sha1cd.go Reset")], CONC + "; near-miss blocks made for each vector and each word", NB)
prop("C05", "A detected attack block is hashed to the safe digest",
     "When a block is detected as part of an attack, it is compressed three times in a row instead of once, and hashing continues from there, so the digest equals that of the reference algorithm with safe hashing. The two messages of a real collision pair therefore get different digests, and what precedes or follows the block is hashed normally.",
     ["inputs", "histories"], "all messages with one or more detected blocks, in any position, by any history",
     "The tests compare a handful of published files; several attack blocks in one message, attack blocks in the padding and each vector are not reached.",
     ["sha1cdblock_generic.go", "detection.go", "sha1cdblock_amd64.s", "sha1cdblock_arm64.s", "cgo/sha1.c"], [("rehash loop on hit", "sha1cdblock_*: block loop, rehash")], CONC, NB)
prop("C06", "The collision flag lasts until reset and is never invented",
     "Once a block that was written has been detected, every later collision-resistant sum of that hasher reports it, whatever is written or summed in between, until a reset or a restore of another state. A detection that happens only because of the padding added by a sum is reported by that sum but is not remembered: if more data is written, the flag is that of the longer message.",
     ["histories", "inputs"], "all sequences of write, sum, reset, checkpoint and restore on a hasher",
     "It quantifies over histories; the tests call the sum once per hasher.",
     ["sha1cd.go", "detection.go", "sha1cdblock_generic.go"], [("flag is only ever set by a block, cleared by Reset", "sha1cd.go; sha1cdblock_*.go"), ("sum works on a copy", "sha1cd.go Sum, CollisionResistantSum")], CONC, NB, DIG)
prop("C07", "Taking a sum does not change the hasher",
     "Any number of sums of either kind, at any points of a history, leave the hasher as it was: repeating a sum gives the same digest and flag, and all later digests, flags and checkpoints are those of the same history without the sums.",
     ["histories", "inputs"], "all histories with sums interleaved anywhere",
     "The tests take one or two sums at the end of a message.",
     ["sha1cd.go", "cgo/sha1.go"], [("sum works on a copy of the state", "sha1cd.go Sum, CollisionResistantSum; cgo/sha1.go")], IDEAL, NB, DIG)
prop("C08", "A reset hasher behaves like a new one",
     "After a reset, a hasher with any earlier history (partial blocks, detected collisions, sums, restored states) gives for every later history the same digests, collision flags and checkpoints as a newly created hasher.",
     ["histories"], "all histories before and after the reset",
     "Tests reset hashers whose leftovers do not matter; a leftover shows only for particular combinations of what came before and after.",
     ["sha1cd.go", "cgo/sha1.go"], [("all fields reinitialised", "sha1cd.go Reset; cgo/sha1.go Reset")], IDEAL, NB, DIG)
prop("C09", "A restored checkpoint continues exactly where it was taken",
     "Restoring a marshaled state, into a new hasher or one with any earlier history, any number of times and in any order, yields a hasher whose every later digest, collision flag and checkpoint equals that of the hasher it was taken from at that moment. In particular a collision found before the checkpoint is still reported after it, and one the receiving hasher had found earlier is not.",
     ["histories", "inputs"], "all histories before the checkpoint, of the receiver, and after the restore",
     "The tests marshal halves of golden strings into fresh hashers and never with a collision present (both parts of the last sentence were false, see known_findings.txt).",
     ["sha1cd.go"], [("state written and read back", "sha1cd.go MarshalBinary, UnmarshalBinary")], IDEAL, NB, DIG, ["MarshalBinary", "UnmarshalBinary"])
prop("C10", "A malformed checkpoint is refused and changes nothing",
     "Restoring any byte string that is not a state produced by this package's encoding (wrong length, wrong identifier, truncated, extended, from another hash) returns an error, never panics, and leaves the hasher's later digests, collision flag and checkpoints as if it had not been tried. Any string with a valid identifier and the right length is accepted without a panic, then or later.",
     ["inputs", "histories"], "all byte strings and all states of the receiving hasher",
     "The tests feed no malformed state.", ["sha1cd.go"], [("identifier and size checked before anything is assigned", "sha1cd.go UnmarshalBinary")], IDEAL, NB, DIG, ["UnmarshalBinary"])
prop("C11", "Checkpoints have a canonical, stable 98-byte encoding",
     "A checkpoint is always 98 bytes: a 6-byte identifier, the chaining value, the buffered bytes padded with zeros to a block, and the 64-bit byte count, all big-endian. It depends only on the message hashed so far (for a collision-free message its identifier is \"shacd\\x01\"), not on how it was fed, on earlier sums, resets or uses of the hasher, and contains no leftovers of other data.",
     ["histories", "inputs"], "all histories leading to the same message",
     "The tests compare the states of golden strings fed in one way to a fresh hasher.", ["sha1cd.go"], [("only x[:nx] is copied, the rest zero", "sha1cd.go MarshalBinary")], CONC, NB, DIG, ["MarshalBinary"])
prop("C12", "All builds and both packages give identical results",
     "For every history, the accelerated builds (amd64 with SHA extensions, arm64), the portable build and other architectures, big-endian and 32-bit ones included, return the same digests, collision flags, checkpoints and errors, and the cgo package returns the same digests and flags as the Go package.",
     ["configurations", "inputs", "histories"], "all inputs and histories, all pairs of build and package",
     "The tests run on one machine with one build, so one of the implementations is never executed, and compare packages on a few files only.",
     GO + CGO + ["sha1cdblock_noasm.go", "cgo/fallback_no_cgo.go"], [("same algorithm in assembly, Go and C", "sha1cdblock_*.{go,s}, cgo/*.c")],
     T + "executions of the same histories by all builds (native, emulated arm64, 32-bit, big-endian, no SHA extensions) and both packages validated in one TLA+ trace with TLC", NB, DIG)
prop("C13", "Hashers are independent of each other and safe to use concurrently",
     "Operations on one hasher never affect another: any interleaving of operations on several hashers, including ones on different goroutines at the same time and one-call sums, gives each the results it has alone, without data races. Sums and checkpoints of one hasher that nobody is writing to may also be taken from several goroutines at once.",
     ["schedules", "histories"], "all interleavings of operations on any number of hashers",
     "The tests use one hasher at a time on one goroutine; scratch state shared between hashers shows only under particular interleavings.",
     ["sha1cd.go", "sha1cdblock_generic.go", "sha1cdblock_amd64.go", "sha1cdblock_arm64.go", "detection.go", "cgo/sha1.go", "ubc/const.go"],
     [("no mutable package state; scratch on the stack", "sha1cdblock_*.go")], 
     T + "interleaved and concurrent executions (also under the race detector) validated against the relational TLA+ spec with TLC", NB + "Schedules of goroutines are sampled. ", DIG)
prop("C14", "The bit-condition mask is exactly the published set of conditions",
     "For every expanded message, the mask of candidate disturbance vectors has the bit of a vector set if and only if all unavoidable bit conditions of that vector hold, in the Go implementation and in the C implementation alike.",
     ["inputs"], "all 2^512 message blocks", "The test compares Go with C on a few recorded inputs; the function has some 500 conditions in a nested expression, most visible only for blocks that meet nearly all others of a vector.",
     ["ubc/ubc.go", "cgo/ubc_check.c", "cgo/ubc_check.go"], [("straight-line evaluation of conditions", "ubc/ubc.go CalculateDvMask")],
     T + "masks computed by the real code for blocks that meet all, or all but one, of each vector's conditions validated against the TLA+ table of conditions with TLC", 
     "Each of the conditions of each vector is falsified alone, with all others of that vector met, and each vector is met in full, so a dropped, weakened or changed condition shows. ", (), ["ubc.CalculateDvMask", "cgo.CalculateDvMask"])
prop("C15", "The disturbance-vector table is the published one",
     "The table holds exactly the 32 published disturbance vectors, each with its type, parameters, test step (58 or 65), distinct mask bit and the 80-word message difference that its definition determines by the message expansion.",
     ["inputs", "configurations"], "all 32 entries of 80 words each, in the Go and the C table", "The table is data; the tests use the entries of three or four vectors for which attacks are published.",
     ["ubc/const.go", "cgo/ubc_check.c"], [("literal table", "ubc/const.go")],
     T + "the table as found in the running code compared by TLC with the one the TLA+ spec derives from the definition of the disturbance vectors", "Complete: all entries of the tables are compared. ", (), ["ubc.SHA1_dvs"])
prop("C16", "Message lengths are accounted for in 64 bits",
     "The bit length that goes into the padding is right for every message length, across 2^29 bytes (2^32 bits), 2^32 bytes and beyond (modulo 2^64 bits), on 32-bit and 64-bit platforms, also when hashing continues from a restored state of any length.",
     ["inputs", "configurations"], "all byte counts from 0 to 2^64-1, all remainders modulo the block size",
     "The tests hash at most a few MB; a truncation to 32 bits needs more than 512 MB to show.",
     ["sha1cd.go", "cgo/sha1.c"], [("uint64 byte count, shifted to bits in checkSum", "sha1cd.go Write, checkSum")], CONC + "; restored states with byte counts around every power of two, and real messages of more than 512 MB and 4 GB", NB, DIG)
prop("C17", "Caller's memory is respected and the hash.Hash contract is kept",
     "No call modifies or keeps a reference to the caller's input, checkpoint or result slices; a sum appends to its argument, leaving the argument's existing bytes unchanged; writes return the full length and no error. The digest size is 20 and the block size 64.",
     ["inputs", "histories"], "all calls in all histories, slices of any length, offset and spare capacity",
     "The tests pass nil to sums and never look at their inputs again.",
     ["sha1cd.go", "cgo/sha1.go"], [("buffer copied, results appended", "sha1cd.go, cgo/sha1.go")], IDEAL, NB, DIG)
prop("C18", "The one-call sum equals creating, writing and summing",
     "For every byte slice, the digest and collision flag returned by the one-call function equal those of a new hasher to which the slice is written and whose collision-resistant sum is taken, and calls do not influence each other.",
     ["inputs", "histories"], "all byte slices, after any earlier calls", "The tests compare the two on golden strings without collisions.",
     ["sha1cd.go", "cgo/sha1.go"], [("same code on a local digest", "sha1cd.go Sum; cgo/sha1.go Sum")], IDEAL, NB, DIG)

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
m = {"version": 1, "setup_cmd": "python3 bin/setup.py",
     "checks": [{"property": p["id"], "quick_cmd": "python3 bin/check.py %s --tier quick" % p["id"],
                 "thorough_cmd": "python3 bin/check.py %s --tier thorough" % p["id"], "technique": p["_tech"],
                 "level": "model_checking", "level_note": p["_note"].strip()} for p in P],
     "not_applicable": [],
     "notes": "No hooks in /repo: the checks use public calls only. Two defects repaired (fix: commits), see known_findings.txt."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
