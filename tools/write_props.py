# Regenerates /verif/properties.jsonl (kept as code so that long texts stay readable).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(("name","meaning","where"), s)) for s in state],
            mechanism=[dict(zip(("name","where"), m)) for m in mech], observe_at=list(observe), hook_needed=hook)))

REG="eth_abi/registry.py"; COD="eth_abi/codec.py"; DEC="eth_abi/decoding.py"; ENC="eth_abi/encoding.py"; GRA="eth_abi/grammar.py"; BAS="eth_abi/base.py"; NUM="eth_abi/utils/numeric.py"

p("C01","Concurrent calls on shared codecs never affect each other",
  "When any number of threads call encode, decode, packed encode, is_encodable or is_encodable_type through codecs that share one registry, every call returns (or rejects) exactly what the ABI rules prescribe for its own arguments alone. This holds under every interleaving, including when several threads are the first to use a type. No such call blocks forever.",
  ["schedules","inputs"],"every interleaving, at bytecode granularity, of 2..4 client threads issuing codec calls on shared registries, from cold or warm caches",
  "All 1206 tests are single-threaded; the coder objects handed out by the lookup caches and the cached parse results are shared by every thread of a process and no test ever has two calls in flight.",
  [COD,REG,ENC,DEC,GRA],[("coders keep no per-call state; per-call decode state lives in a fresh stream",DEC),("lookup caches",REG)],
  [("cached coder objects","one encoder/decoder instance per type string shared by all callers",REG),("parse cache","parsed types shared by all callers",GRA)],
  ["return value or exception class of each call"])
p("C02","A registration change is seen by every lookup that starts after it returns",
  "Once a call that registers or unregisters an encoder or decoder has returned, every lookup, encode, decode or encodability check that starts afterwards in any thread uses the changed registry, for the type itself and for every tuple or array type built from it. A call that overlaps changes behaves according to the registry before or after each of them; it never fails or reports a type missing merely because another thread was changing the registry. Of several threads racing to register the same label or lookup exactly one succeeds.",
  ["schedules","histories"],"every interleaving of mutating threads with looking-up/encoding/decoding threads on one registry, and every history of such calls",
  "Tests change the registry and look it up from one thread, with at most one change between two lookups; a stale cache entry or a lookup disturbed mid-scan needs an overlap that no test creates.",
  [REG,COD],[("caches are discarded on every registration change",REG),("lookup scans a snapshot of the registrations",REG)],
  [("get_encoder/get_decoder caches","memoised lookups, invalidated on change",REG)],
  ["which coder a call used, per registry.get_encoder/get_decoder/has_encoder/encode/decode"])
p("C03","A registry behaves as an exact lookup table over any history of calls",
  "After any sequence of register, unregister, copy and lookup calls, successful or rejected, a type string resolves to the coder of the single live registration that matches it, is reported missing if none matches and ambiguous if several do; labels and lookups of live registrations cannot be reused, and those of removed registrations can. A rejected registration or removal of an encoder or of a decoder leaves the registry unchanged. The hypothesis strategy registry obeys the same rules.",
  ["histories","inputs","fault_sequences"],"every finite history of registry operations over literal, predicate-object and function lookups, with and without labels, including operations that fail, interleaved with lookups that fill the caches",
  "The tests apply one or two operations to a fixed registry; label bookkeeping, cache invalidation and ambiguity depend on longer histories (remove by an equal predicate then reuse the label, re-register after a failed call, ...).",
  [REG,"eth_abi/tools/_strategies.py"],[("PredicateMapping keeps predicate->value and label->predicate in step",REG),("cache invalidation on change",REG)],
  [("registrations","predicate -> coder, label -> predicate",REG)],["lookup results and exception classes"])
p("C04","Registry copies and separate registries are isolated from each other",
  "A copy of a registry (copy(), copy.copy or copy.deepcopy, also while other threads use or change the original) starts with exactly the registrations the original had at one moment, and from then on no change to either, in any order or thread, is visible through the other - neither for plain types nor for tuples and arrays containing them, nor for the standard versus the packed registry.",
  ["histories","schedules"],"every tree of copies, every assignment of later changes to its members and every interleaving of copying with changes",
  "One test copies a registry and compares object identities; nothing changes copies of copies in varying orders with warm caches, or copies while another thread registers.",
  [REG,COD],[("copy() duplicates both mappings and gives the copy its own caches",REG)],
  [("registry tree","original and copies, each with own mappings and caches",REG)],["lookups through each registry and codecs over them"])
p("C05","The strict flag of a decode call applies to that call only",
  "Whatever decode or decoder-lookup calls were made before or are running in other threads, and with whatever strict setting, a decode call with strict on rejects every value whose bytes or string padding is missing or non-zero, and a call with strict off accepts it for the byte-string types it names directly. This also holds for custom types whose decoder was registered as a ready-made object.",
  ["histories","schedules"],"every history and interleaving of strict and lenient decode / get_decoder calls on shared registries, with class-registered and instance-registered decoders, for payloads whose validity depends on strictness",
  "One test makes a lenient call followed by one strict call on a built-in type; leaks through shared decoder objects appear only for other orders, other registrations or overlapping calls.",
  [REG,DEC,COD],[("strict is set on the decoder object returned by the lookup; lookups are cached per strict value",REG)],
  [("decoder.strict","strictness of a (possibly shared) decoder object",DEC)],["acceptance of lenient-only payloads"])
p("C06","An interrupted or failed call leaves nothing behind",
  "If an encode, decode, encodability check, type parse, lookup or registry copy is cut short at any point by an exception raised from outside it (keyboard interrupt, timeout, out of memory), the call does not go on to return a made-up result: the exception reaches the caller (an ordinary Exception possibly as the cause of a coding error, and an encodability check may answer False to it), and every later call, in any thread and also on the same type, behaves as if the interrupted call had never been made. The caller's decimal context is as it was, no lock stays held, and an interrupted registration change leaves its own registration made or not made (at most still or already without its label), so that it can be made or taken back again afterwards, and damages no other.",
  ["crash_points","histories"],"every point at which CPython can deliver an asynchronous exception inside a library call, crossed with histories before and after it",
  "No test interrupts a call; errors in tests come only from the values themselves at a handful of points.",
  [COD,REG,DEC,ENC,GRA,NUM],[("calls build state locally and publish finished coders only",REG),("decimal.localcontext restores the context",NUM)],
  [("caches","only completed results are cached",REG)],["results of later calls, decimal context, progress"])
p("C07","Strict decode of a damaged payload is right or rejected, never wrong",
  "For any payload produced by encode and then damaged in any way (truncated, extended, bits flipped, words overwritten, pieces dropped, duplicated, swapped or spliced), strict decode either returns exactly the values that the bytes present spell out under the ABI layout - complete words, correct padding, booleans 0 or 1, pointers that lead neither back into the pointer area nor past the end - or raises a decoding error (UnicodeDecodeError for malformed string text). It never returns values made from missing bytes, never accepts broken padding, and never raises anything else.",
  ["fault_sequences","inputs"],"every encodable value of every type, every sequence of storage/transport damage to its encoding",
  "Decoder tests use a fixed list of malformed payloads and hypothesis tests of single word decoders; combinations of damage at every position of nested encodings are not sampled.",
  [DEC,COD],[("read length checks, padding checks, validate_pointers",DEC)],
  [],["decode outcome versus an independent reference decoder"])
p("C08","Lenient decode forgives padding only",
  "With strict=False, damage confined to the padding of a bytes or string value (missing, non-zero or extra padding bytes) is tolerated for byte-string types named directly and the exact value is returned; all other damage, in particular data bytes missing because of truncation or an inflated length, is rejected with a decoding error exactly as in strict mode. A lenient decode accepts every payload a strict decode accepts, with the same result.",
  ["fault_sequences","inputs"],"every encodable value, every sequence of damage to its encoding, decoded with strict=False",
  "Three example payloads are decoded leniently in the tests; none has missing data bytes.",
  [DEC,REG],[("ByteStringDecoder.read_data_from_stream branches on strict",DEC)],[],["decode outcome versus an independent reference decoder"])
p("C09","A damaged payload cannot make decode run away",
  "Whatever the payload bytes claim as array sizes, string lengths or offsets, a decode call finishes - with values or with a decoding error - after an amount of work and memory that, for a given type, stays in proportion to the payload length and the size of the returned value and never grows with the magnitude of a claimed size.",
  ["fault_sequences","inputs"],"every type, every payload, every damaged length, count or offset word up to 2**256-1",
  "One regression test has a 1 s timeout on seven fixed payloads.",
  [DEC],[("reads fail at end of data; pointers are validated before being followed",DEC)],[],["simulator step count and allocation limit of each decode call"])
p("C10","Fixed-point coding ignores and preserves the caller's decimal environment",
  "Whatever decimal context (precision, rounding, exponent limits, traps) each thread has active, and whether the call succeeds, fails or is interrupted, encoding a fixed/ufixed value is exact or rejected with an encoding error, decoding is exact, and the thread's decimal context (settings and flags) is unchanged afterwards. A value with more fractional digits than the type holds is always rejected, never silently rounded, whatever its sign.",
  ["configurations","schedules","crash_points","inputs"],"every ambient decimal context per thread, every interleaving of threads with different contexts, every interruption point, every value",
  "Tests run under the default decimal context only and in one thread.",
  [ENC,DEC,NUM],[("decimal.localcontext(abi_decimal_context) around all arithmetic",NUM)],
  [("abi_decimal_context","module-wide 999-digit context template",NUM)],["results, decimal.getcontext() before/after"])
p("C11","Stream faults surface and never corrupt a decoded value",
  "When decoding reads from a stream (a custom stream class, or a caller-made frame-tracking byte stream) that fails, an I/O error raised by the stream reaches the caller as that error (or as a further error of the same stream met while cleaning up after it), and a short or empty read leads to a decoding error or to the correct value, never to a wrong value; a later decode from a healthy stream is unaffected. The frame-tracking stream keeps its position and frame stack exactly, over any history of push, pop, seek and read, and a decode that succeeds leaves the frame stack as it found it.",
  ["fault_sequences","histories"],"every sequence of read/seek faults at every call the decoder makes on its stream, every history of frame operations",
  "Tests decode from in-memory streams that never fail, with one short scripted frame history.",
  [DEC,COD],[("length check after every read",DEC),("push_frame/pop_frame",DEC)],
  [("frame stack and total offset","where relative pointers lead",DEC)],["decode outcome, stream position and frames"])
p("C12","A failure is never sticky",
  "When a lookup or coding call fails - because the type is unknown, malformed, ambiguous or invalid, the value or payload is bad, or a user-supplied matcher, coder factory or coder raises any exception - the failure is reported to that call only. As soon as the cause is gone the same call succeeds, and a failure for one type, value or payload never changes the outcome for another.",
  ["fault_sequences","histories"],"every sequence of failing and healthy calls, with transient faults injected into user-supplied matchers, factories and coders",
  "Each test makes one failing call and stops.",
  [REG,COD,GRA],[("exceptions are not cached by the lookup and parse caches",REG)],[("caches","hold successes only",REG)],["outcome of calls after failures"])
p("C13","Caller data is never modified or aliased, payloads are read atomically",
  "Encode and decode never modify their arguments, and what they return shares no storage with them: changing an argument or payload buffer after the call changes no result, and no result is changed by later calls. A decode of a mutable payload buffer that another thread rewrites meanwhile returns what decoding one single state of that buffer during the call gives.",
  ["schedules","histories"],"every interleaving of a decode with writers of its payload buffer, every history of calls sharing argument objects",
  "Tests use throw-away immutable arguments from one thread.",
  [COD,DEC,ENC],[("the decode stream copies the payload once at the start",COD)],[],["arguments after the call, results re-read later"])
p("C14","Parsed types are stable shared values",
  "Parsing or normalizing a type string gives the same structure every time: over any history and interleaving of parses, validations, item-type derivations, equality tests, coder constructions, encodes and decodes, a parsed type keeps rendering to the string it came from, with unchanged components, sizes, array dimensions and dynamic-ness, and deriving an item type leaves the original intact.",
  ["histories","schedules"],"every history and interleaving of grammar operations and codec calls over shared type strings",
  "Tests inspect freshly parsed types once; parse results are cached and shared process-wide, so damage done by one user shows up only in a later one.",
  [GRA,BAS],[("parse results are cached and treated as immutable",GRA)],[("parse cache","type string -> parsed type",GRA)],["to_type_str/components/arrlist/is_dynamic after other operations"])
p("C15","Re-entrant calls behave like ordinary calls",
  "Calls made from inside another call in the same thread - by a custom encoder, decoder, matcher, coder factory or stream, or by a signal handler or finalizer that happens to run at any point inside a library call - give their normal results and do not change the result of the call they interrupt, except that a registration change made there may or may not be seen by the interrupted call.",
  ["schedules","programs"],"every point inside a library call at which nested calls may run, every nesting of codec, lookup and registration calls",
  "No test nests calls.",
  [COD,REG,DEC,ENC],[("no per-call state outside locals and the per-call stream",DEC)],[],["results of outer and nested calls"])
p("C16","Results do not depend on call history",
  "In one thread, after any sequence of earlier successful and failing calls on the standard, packed and custom codecs - any types, values that compare equal but differ in type, repeated, many distinct types - each encode, decode, is_encodable or is_encodable_type call gives exactly what the ABI rules prescribe for its arguments alone.",
  ["histories","inputs"],"every finite sequence of codec calls in one process",
  "Each test makes one call on a nearly fresh process state; caches and shared coder objects accumulate over histories no test builds.",
  [COD,REG,ENC,DEC,GRA],[("caches keyed by type string only hold stateless coders",REG)],[("lookup and parse caches","grow with history",REG)],["call results versus an independent reference implementation"])
p("C24","Shipped hypothesis strategies generate encodable values only",
  "Whatever random choices are made, in whatever thread and decimal environment, and whatever strategies were looked up, registered, drawn from or interrupted before, every value drawn from get_abi_strategy(t) for a valid type t is encodable as t (a custom type's part coming from the strategy registered for it at the lookup). The same choices for the same type give the same value, drawn values share no mutable state with later ones, and looking up or drawing leaves the thread's decimal settings as they were.",
  ["histories","schedules","inputs"],"every type, every sequence of random choices, every history of lookups, draws and strategy registrations, every decimal context hypothesis itself works in",
  "The tests compare the repr of some strategies and never draw from them in a history, under another decimal context or at chosen extremes.",
  ["eth_abi/tools/_strategies.py","eth_abi/utils/numeric.py"],[("per-type strategy factories","eth_abi/tools/_strategies.py"),("exact scaling under a private decimal context","eth_abi/utils/numeric.py")],[("strategy registry","lookup -> strategy or factory","eth_abi/tools/_strategies.py")],["drawn values, their encodings, repeated draws"])
# Pure-function guarantees: listed for completeness, not simulation targets.
p("C20","Decode inverts encode",
  "For every list of ABI types and every encodable list of values, decoding the encoding returns values equal to the originals in their canonical python form.",
  ["inputs"],"every type and value","Sampled by hypothesis round-trip tests.",[ENC,DEC],[("head-tail layout",ENC)])
p("C21","Encode follows the ABI specification byte for byte",
  "For every list of types and encodable values the output is the byte string the Solidity contract ABI specification defines.",
  ["inputs"],"every type and value","Fixed vectors only.",[ENC],[("head-tail layout",ENC)])
p("C22","is_encodable agrees with encode",
  "For every type string and python value, is_encodable is true exactly when encode accepts the value.",
  ["inputs"],"every type string and python value","Fixed vectors and hypothesis samples.",[COD,ENC],[("validate_value shared by both paths",ENC)])
p("C23","The grammar accepts exactly the documented type strings",
  "Every type string of the documented grammar parses and renders back to itself, every other string is rejected with a parse error, and validation rejects exactly the types the specification excludes.",
  ["inputs"],"every string","Fixed vectors.",[GRA],[("PEG grammar",GRA)])
p("C25","Packed encoding is the concatenation of minimal encodings",
  "For every list of types and values encode_packed returns the concatenation of the unpadded big-endian encodings of the leaves in order.",
  ["inputs"],"every type and value","Fixed vectors.",[ENC],[("Packed* encoders",ENC)])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
