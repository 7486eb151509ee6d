#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": hook}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append(d)
E, D, R = "internal/encoder/", "internal/decoder/", "internal/runtime/struct_field.go"

p("C01", "Round trip: Unmarshal(Marshal(v)) restores v",
  "For every value v whose type is built from booleans, integers, floats, strings, byte slices, slices, arrays, maps with string or integer keys, structs (any tag options) and single pointers, Unmarshal of Marshal(v) into a fresh variable of the same type succeeds and yields a value equal to v. The only permitted differences are nil versus empty slices and byte slices, a pointer to a nil slice or map coming back as a nil pointer, and fields that are not serialised.",
  ["inputs", "programs"], "all supported Go types x all their values (incl. boundary integers, arbitrary bytes in strings, NaN/Inf, empty and nil containers)",
  "The suite compares a few dozen literal encodings and separately decodes a few literals; no test feeds Marshal output back into Unmarshal, and the type space is unbounded.",
  ["marshal.go", "unmarshal.go", E+"struct.go", E+"map.go", D+"struct.go", D+"map.go", D+"slice.go"],
  [("compile type to encoder", E+"compile.go:compile"), ("compile type to decoder", D+"compile.go:compile")],
  ["phpserialize.Marshal", "phpserialize.Unmarshal"])

p("C02", "Marshal emits exactly the well-formed PHP document denoting v",
  "Whenever Marshal(v) succeeds (and no custom Marshaler is involved) its output is one complete, strictly well-formed PHP serialize() document: every declared string length equals the byte length, every declared element count equals the number of entries, list indexes are 0..n-1 in order, struct entries appear in field declaration order, and every scalar denotes exactly the Go value. Each map entry appears exactly once.",
  ["inputs", "programs"], "all supported types x values",
  "Tests compare some literal outputs; lengths, counts and nesting must be right for every combination of type, size and content.",
  [E+"struct.go", E+"map.go", E+"map_reflect.go", E+"slice.go", E+"slice_reflect.go", E+"array.go", E+"string.go", E+"int_as_string.go", E+"uint_at_string.go", E+"common.go"],
  [("count written fields then splice struct buffer", E+"struct.go:compileStructFields"), ("array head", E+"common.go:appendArrayBegin"), ("digit counting", E+"int_as_string.go:iterativeDigitsCount")],
  ["bytes returned by phpserialize.Marshal"])

p("C03", "Unmarshal stores exactly the value the document denotes",
  "For every well-formed PHP document and every destination type, Unmarshal either fails, when some decoded part is not representable in the corresponding destination (wrong kind, out of range, non-integer key for a list, non-string key for a struct), or succeeds and stores exactly the value the document denotes there. It succeeds whenever every part is representable.",
  ["inputs", "programs"], "all well-formed documents (arrays, objects, sparse and unordered integer keys, mixed keys, nesting) x all destination types",
  "Tests decode a few dozen literals into a few types; the cross product of document shapes and destination types is unbounded.",
  ["unmarshal.go", D+"context.go", D+"struct.go", D+"map.go", D+"slice.go", D+"array.go", D+"ptr.go", D+"int.go", D+"uint.go", D+"float.go", D+"string.go", D+"bytes.go", D+"bool.go"],
  [("per-type decoders", D+"compile.go:compile"), ("token readers", D+"context.go")],
  ["phpserialize.Unmarshal error and destination"])

p("C04", "Unmarshal never panics, crashes or hangs on any bytes",
  "For every byte string and every destination argument (including nil, non-pointers, and pointers to any Go type) Unmarshal returns normally, with nil or an error, in time bounded by the input. It never panics, overflows the stack, or loops, whatever lengths, counts, indexes or keys the input declares; the one documented exception is memory consumption by a huge in-range list index.",
  ["inputs", "programs"], "all byte strings x all destination types",
  "The existing fuzz target only runs its 7 seeds under go test and uses 9 destinations; truncation tests cover 8 literals.",
  ["unmarshal.go", D+"context.go", D+"interface.go", D+"map.go", D+"slice.go", D+"array.go", D+"compile.go"],
  [("bounds helpers", D+"context.go:hasByte/hasBytes"), ("argument validation", "unmarshal.go:validateValue"), ("depth limit", D+"type.go:maxDecodeNestingDepth")],
  ["phpserialize.Unmarshal", "process exit status", "CPU time per call"])

p("C05", "Malformed documents are rejected",
  "Unmarshal returns an error for every input that is not a complete document: every proper prefix of a document, every document followed by extra bytes, and every document with a damaged type tag, separator, quote, terminator, brace, string length, integer or boolean payload, or with an array key that is neither integer nor string. (An element count that disagrees with the number of entries, and the text of floats inside skipped values, are not part of this guarantee.)",
  ["inputs", "programs"], "all byte strings outside the grammar x destination types",
  "Truncation is tested for 8 literal documents only; single-byte damage at every position of arbitrary nested documents is not.",
  ["unmarshal.go", D+"context.go", D+"struct.go", D+"map.go", D+"slice.go", D+"array.go", D+"bool.go", D+"interface.go"],
  [("end of buffer check", "unmarshal.go:validateEndBuf"), ("token readers", D+"context.go")],
  ["phpserialize.Unmarshal error"])

p("C06", "Decoded integers are exact or an error",
  "An integer in the document is stored exactly when it lies in the range of the destination integer type and is rejected with an error otherwise; it is never truncated, wrapped, saturated or sign-changed. This holds for every signed and unsigned width, for named integer types, and wherever the integer appears: top level, struct field, pointer, slice, array or map element, map key, string-tagged field, and dynamic (any) value.",
  ["inputs", "programs"], "all decimal integers (any digit count, sign, leading zeros) x all integer kinds x all positions",
  "Tests check a handful of boundary literals, mostly for int64/uint64 at top level.",
  [D+"int.go", D+"uint.go", D+"wrapped_string.go", D+"interface.go"],
  [("parseInt64 with digit and limit checks", D+"int.go:parseInt64"), ("OverflowInt/OverflowUint", D+"int.go:processBytes")],
  ["phpserialize.Unmarshal error and destination"])

p("C07", "Floats survive exactly",
  "Every float64 and float32, including subnormals, extremes, negative zero, infinities and NaN, marshals to a valid PHP float token (or quoted number, with the string option) that denotes exactly that value, and unmarshals back bit-identically (NaN to NaN). A decimal float token decodes to the correctly rounded float64, and finite magnitudes beyond the destination's range are errors.",
  ["inputs"], "all 2^64 float64 and 2^32 float32 bit patterns; all decimal float tokens",
  "Tests check about ten literals.",
  [E+"float.go", D+"float.go", D+"wrapped_string.go", E+"interface.go"],
  [("shortest formatting", E+"float.go:appendFloat64/appendFloat32"), ("special tokens", D+"float.go:processBytes")],
  ["phpserialize.Marshal", "phpserialize.Unmarshal"])

p("C08", "Dynamic decoding into any has fixed result types",
  "Decoding any well-formed document into an empty interface yields nil for null, bool, int64 for integers, float64 for floats, string for strings, map[any]any with int64 or string keys for arrays, and map[string]any for objects, recursively at every level, with exactly the document's contents; duplicate keys keep the last value. The result is the same wherever the interface sits: top level, field, slice, array or map element, and whatever it held before.",
  ["inputs"], "all well-formed documents x positions of the interface",
  "Tests decode about ten small literals into any and check dynamic types for three.",
  [D+"interface.go", D+"map.go"],
  [("dispatch on tag", D+"interface.go:decodeEmptyInterface"), ("any map keys", D+"interface.go:mapKeyDecoder")],
  ["dynamic type and content of the destination"])

p("C09", "Unmarshal isolates input, destination and past results",
  "Unmarshal never modifies its input slice, and what it stored does not change when the caller afterwards overwrites the input, makes further Unmarshal or Marshal calls, or mutates or appends to any other decoded part. Byte slices decoded from different parts of one document never share writable memory, including spare capacity.",
  ["inputs", "histories"], "all documents x destination types x later caller actions",
  "No test mutates the input or appends to a decoded slice after decoding, nor re-checks an earlier result after later calls.",
  ["unmarshal.go", D+"bytes.go", D+"string.go", D+"slice.go", D+"context.go"],
  [("private copy of the input", "unmarshal.go:unmarshal"), ("string copies", D+"string.go:Decode"), ("pooled runtime context", D+"context.go:ReleaseRuntimeContext")],
  ["input bytes", "earlier destinations", "cap/append behaviour of decoded slices"])

p("C10", "Marshal owns nothing of the caller's and shares nothing it returns",
  "Marshal never modifies the value it encodes, and the bytes it returns are never changed by later Marshal or Unmarshal calls, nor does overwriting or appending to returned bytes affect any later result. A failing Marshal returns nil bytes together with the error.",
  ["inputs", "histories"], "all values x sequences of later calls",
  "Encoding reuses pooled buffers; aliasing only shows over specific call sequences, which tests do not create.",
  [E+"marshal.go", E+"buffer.go", E+"context.go", E+"struct.go"],
  [("copy out of the pooled buffer", E+"marshal.go:Marshal"), ("pooled buffers", E+"buffer.go, "+E+"context.go")],
  ["returned byte slices", "encoded value"],
  state=[("ctxPool/bufferPool", "scratch buffers reused between calls", E+"context.go, "+E+"buffer.go")])

p("C11", "Concurrent use is race free and equals sequential use",
  "Any number of goroutines may call Marshal and Unmarshal concurrently, on shared read-only values and inputs, including the very first use of a type (also recursive types) by several goroutines at once. No data race or crash occurs and every call returns exactly what it would return running alone.",
  ["schedules", "inputs"], "all interleavings of concurrent first and later uses of types",
  "The root suite is sequential and not run under the race detector; compile caches and pools are only contended by accident.",
  [E+"compile_cache.go", E+"context.go", E+"buffer.go", D+"compile.go", D+"context.go"],
  [("copy-on-write caches behind atomic pointers", E+"compile_cache.go:storeEncoder, "+D+"compile.go:storeDecoder"), ("sync.Pool", E+"context.go, "+D+"context.go")],
  ["call results", "race detector reports"],
  state=[("cachedEncoderMap/cachedDecoderMap", "published compiled codecs by type", E+"compile_cache.go, "+D+"compile.go")])

p("C12", "Results depend only on the arguments, never on call history",
  "The outcome of a Marshal or Unmarshal call is the same whatever calls preceded it in the process: successful, failed, with unsupported or cyclic values, malformed documents, custom methods that returned errors, panicked or re-entered the package, and whatever order types were first used in. In particular a failed or panicked call never poisons a later one.",
  ["histories", "inputs"], "all finite sequences of calls",
  "Pools and caches carry state between calls; tests run fixed short sequences and never check a result after failures or panics.",
  [E+"context.go", E+"marshal.go", E+"ptr.go", E+"interface.go", E+"compile_cache.go", D+"compile.go", D+"context.go"],
  [("context reset", E+"context.go:newCtx"), ("recursion bookkeeping undone on every path", E+"ptr.go"), ("only successful compiles are cached", E+"compile_cache.go")],
  ["results of calls in long hostile sequences"],
  state=[("Ctx.Seen, Ctx.StackDepth", "recursion tracking in the pooled context", E+"context.go")])

p("C13", "Marshal rejects exactly the cyclic values",
  "Marshal returns an error, without crashing or looping, for every value that reaches itself through pointers, maps, slices, arrays or interfaces. It never reports recursion for acyclic values, however deeply nested they are and however many times the same pointer, map or slice is shared by different parts or overlaps another.",
  ["inputs"], "all cyclic and all acyclic shared object graphs, all nesting depths",
  "Tests cover five direct self-cycles; longer and mixed cycles, sharing (DAGs), aliasing slices and depths beyond the tracking threshold are untested.",
  [E+"ptr.go", E+"interface.go", E+"slice.go", E+"map.go", E+"map_reflect.go", E+"slice_reflect.go", E+"array.go"],
  [("depth-triggered tracking", E+"ptr.go:checkStructRecursiveEncoder/checkRecursiveEncoder"), ("tracking through interfaces", E+"interface.go:reflectRecursiveValue")],
  ["error or output of phpserialize.Marshal", "process exit status", "CPU time"])

p("C14", "Custom Marshalers are honoured at every position",
  "Wherever a non-nil value whose type (as stored, including pointer types) implements Marshaler is encoded - top level, field, pointer field, slice, array or map element, or inside an interface - MarshalPHP is called exactly once and its bytes are spliced verbatim into the output at that place. If it returns an error, Marshal returns that same error and no bytes; nil Marshaler interfaces, and nil pointers whose element type implements Marshaler, encode as null.",
  ["inputs", "programs"], "all types containing Marshaler values at any position x values x errors",
  "Tests use a value-receiver struct at top level and as a struct field only.",
  [E+"compile.go", E+"marshal_php.go", E+"struct.go", E+"ptr.go", E+"interface.go"],
  [("Implements check", E+"compile.go:compile"), ("splice", E+"marshal_php.go:compileMarshaler")],
  ["calls observed by instrumented Marshalers", "output bytes", "returned error identity"])

p("C15", "Custom Unmarshalers receive exactly their value's bytes",
  "Wherever a value is decoded into a destination whose pointer type implements Unmarshaler - top level, field, pointer, slice, array or map element, or a non-nil interface with methods holding one - UnmarshalPHP is called exactly once with exactly the raw bytes of that one value (null instead resets the destination without a call), and the rest of the document is decoded unaffected, even if the method modifies or appends to the bytes it was given. If it returns an error, Unmarshal returns that same error.",
  ["inputs", "programs"], "all documents x destination types containing Unmarshalers at any position",
  "Tests use one slice-typed Unmarshaler in one struct field and two at top level.",
  [D+"unmarshal_php.go", D+"interface.go", D+"context.go", D+"compile.go"],
  [("skipValue delimits the raw bytes", D+"unmarshal_php.go:Decode"), ("interface path", D+"interface.go:decodePHPUnmarshaler")],
  ["bytes seen by instrumented Unmarshalers", "remaining destination", "returned error identity"])

p("C16", "Struct fields map to the same keys in both directions",
  "A struct field is serialised and deserialised under exactly one key: the name in its php tag when that name is valid, else the Go field name; unexported fields and fields tagged \"-\" are neither written nor read, and embedded structs or struct pointers are rejected in both directions. With omitempty a field is left out exactly when it holds its type's zero value, and all other fields are always written; decoding matches keys exactly (case-sensitively) regardless of their order.",
  ["programs", "inputs"], "all struct types (field counts, names, tags, options) x values x key orders",
  "Tests use a few fixed tag forms on the encoder, fewer on the decoder, and never compare the two.",
  [R, E+"struct.go", D+"struct.go", D+"compile.go"],
  [("tag parsing", R+":StructTagFromField/IsIgnoredStructField"), ("field selection", E+"struct.go:compileStructFieldsEncoders, "+D+"compile.go:compileStruct")],
  ["keys in Marshal output", "fields set by Unmarshal"])

p("C17", "Encoding does not depend on how a value is reached",
  "The bytes Marshal produces for a value (without custom Marshalers) are the same, up to map iteration order, whether it is passed directly, through a pointer, inside an interface, or as the element or field of a slice, array, map or struct, statically or dynamically typed. A type accepted in one of these positions is accepted in all of them (except that a pointer to a pointer is refused, see C18); whether an interface may hold a nil pointer to, or an empty or nil map with values of, a type that is itself refused is not specified, since nothing of that type is then encoded.",
  ["inputs", "programs"], "all supported types x values x positions",
  "There are separate statically compiled and dynamic (interface) encoders; tests compare them on one list of literals.",
  [E+"interface.go", E+"map_reflect.go", E+"slice_reflect.go", E+"struct_reflect.go", E+"ptr.go", E+"compile.go"],
  [("static encoders", E+"compile.go"), ("dynamic encoders", E+"interface.go:reflectInterfaceValue")],
  ["bytes returned by phpserialize.Marshal"])

p("C18", "Unsupported types and values are refused with an error",
  "Marshal of a value containing a channel, function, complex number, uintptr, unsafe pointer, a map with a key type other than strings and integers, a directly nested pointer type (unless reached through an interface), or an embedded struct - in any position that is actually encoded - returns an error, never a panic and never output. Unmarshal likewise returns an error when a document part targets a channel, function, complex number, unsafe pointer, nested pointer or embedded struct (the last two at any position; the others when a value is stored there). The refusal is the same on every repeated attempt.",
  ["programs", "histories"], "all types containing an unsupported part at any position x repeated use",
  "Tests try five types once each.",
  [E+"compile.go", E+"interface.go", E+"map.go", E+"map_reflect.go", E+"struct.go", D+"compile.go", D+"invalid.go", D+"ptr.go"],
  [("compile errors", E+"compile.go:compile"), ("invalidDecoder", D+"invalid.go")],
  ["errors from Marshal and Unmarshal"])

p("C19", "Unmarshal into existing data updates only what the document names",
  "Decoding into a struct leaves fields whose keys are absent untouched; decoding into an existing map keeps its other entries and replaces the named ones with freshly decoded values; a non-nil pointer is decoded through in place; slices are replaced by fresh storage that never reuses or shows old elements; arrays have unnamed elements zeroed. Entries under unknown string keys of a struct have no effect.",
  ["inputs", "histories"], "all pre-populated destinations x documents",
  "Tests almost always decode into zero values.",
  [D+"struct.go", D+"map.go", D+"slice.go", D+"array.go", D+"ptr.go", D+"bytes.go"],
  [("map kept when non-nil", D+"map.go:Decode"), ("fresh slice", D+"slice.go:Decode"), ("array zeroing", D+"array.go:Decode")],
  ["destination before and after", "previously aliased storage"])

p("C20", "Objects and arrays decode alike",
  "A PHP object document with string property names and the PHP array document with the same entries decode to equal results (or both fail) for every struct, map and nested destination, whatever the class name's bytes or length; as part of skipped values they are interchangeable too. The class name never influences the result.",
  ["inputs", "programs"], "all documents x class names x destination types other than any, slices and arrays",
  "Tests decode a handful of stdClass literals.",
  [D+"context.go", D+"struct.go", D+"map.go"],
  [("skipClassName", D+"context.go:skipClassName")],
  ["phpserialize.Unmarshal results"])

p("C21", "Memory use is linear in the data",
  "The total memory Unmarshal allocates is bounded by a constant plus a constant multiple of the input length plus the decoded values' size, provided list keys are dense; in particular a declared element count or string length that the input does not contain costs nothing, and lists decode with linear, not quadratic, total allocation. Marshal's total allocation is linear in the output size.",
  ["inputs"], "all documents with dense list keys; all values",
  "Tests never measure allocation, and small examples cannot distinguish linear from quadratic growth.",
  [D+"slice.go", D+"map.go", E+"struct.go", E+"buffer.go", E+"marshal.go"],
  [("preallocation", D+"slice.go:Decode, "+D+"map.go:Decode"), ("growth", D+"slice.go:Decode")],
  ["runtime allocation counters around each call"])

p("C22", "Recursive types are supported in both directions",
  "Every self-referential or mutually recursive type built from structs, pointers, slices, arrays and maps can be used with Marshal and Unmarshal: finite values of it round-trip with full content at every level, and compiling the type always terminates (types whose recursion goes only through directly nested pointers are refused with an error).",
  ["programs", "inputs"], "all recursive type shapes x finite values",
  "Tests encode one struct-through-slice recursion and decode no recursive type.",
  [E+"compile.go", E+"struct.go", E+"slice.go", E+"map.go", E+"array.go", E+"ptr.go", D+"compile.go"],
  [("seen map", E+"struct.go:compileStruct, "+E+"slice.go, "+E+"map.go"), ("structTypeToDecoder", D+"compile.go:compileStruct")],
  ["Marshal/Unmarshal results", "process exit status"])

p("C23", "One nesting limit, enforced everywhere",
  "Unmarshal accepts documents nested up to 10000 containers deep and returns an error (never a crash) for anything deeper. The limit is the same whether the nested containers are decoded into structs, maps, slices, arrays, pointers or any, skipped because their key or index is unknown, or handed raw to an Unmarshaler, and counts the total depth across such changes.",
  ["inputs", "programs"], "all nesting depths x container kinds x destination kinds, mixed",
  "The test calls inner decoders directly at the limit; no test nests a real document deeply or mixes decoding and skipping.",
  [D+"type.go", D+"struct.go", D+"map.go", D+"slice.go", D+"array.go", D+"context.go", D+"unmarshal_php.go"],
  [("depth counters", D+"*.go:Decode, "+D+"context.go:skipArray")],
  ["phpserialize.Unmarshal error", "process exit status"])

p("C24", "List elements land at their key's index",
  "Decoding a PHP array with non-negative integer keys, in any order and with any gaps, into a slice yields length max(key)+1 with each value at the index given by its key and zero values in the gaps; into a fixed array of length n it stores the values with keys below n, ignores the others whatever their content, and zeroes the rest. For a list with entries any positive declared count gives the same result, and negative or string keys are errors.",
  ["inputs", "programs"], "all key sequences (order, gaps, duplicates, declared counts) x element types x array lengths",
  "Tests use three small key patterns.",
  [D+"slice.go", D+"array.go", D+"bytes.go", D+"int.go"],
  [("growth by index", D+"slice.go:Decode"), ("index bound", D+"array.go:Decode"), ("readInt", D+"int.go:readInt")],
  ["destination slice/array"])

p("C25", "Skipped values are skipped exactly",
  "A value that is not stored (unknown struct key, out-of-range array index) may be any well-formed PHP value - including objects with arbitrary class names, strings containing any bytes such as quotes, semicolons or braces, and deep nesting - and decoding the remainder gives the same result as if that entry were absent. Malformed structure inside a skipped value is still an error.",
  ["inputs"], "all well-formed values in skipped positions",
  "Tests skip four small values.",
  [D+"context.go", D+"struct.go", D+"array.go"],
  [("skipValue family", D+"context.go:skipValue/skipArray/skipString/skipClassName")],
  ["phpserialize.Unmarshal result with and without the entry"])

p("C26", "Null is handled uniformly at every position",
  "Marshal writes null exactly for nil interfaces, pointers, maps and slices other than byte slices, at every position. Unmarshal of null sets pointers, maps, slices (byte slices too), interfaces and Unmarshaler destinations to their zero value and leaves booleans, numbers, strings, structs and fixed arrays as they were, at every position and whatever they held.",
  ["inputs", "programs"], "all nilable types x positions; all destinations x previous contents",
  "Tests only check that null is accepted by ten zero-valued destinations.",
  [E+"ptr.go", E+"interface.go", E+"map_reflect.go", E+"slice_reflect.go", D+"ptr.go", D+"map.go", D+"slice.go", D+"bytes.go", D+"interface.go", D+"context.go"],
  [("deRefNilEncoder", E+"ptr.go"), ("validateNull", D+"context.go")],
  ["bytes of Marshal", "destination of Unmarshal"])

p("C27", "The string option quotes scalars faithfully in both directions",
  "A boolean, integer, float, string or pointer to one, in a field with the string option (and a scalar held by an interface field with it, when encoding), is written as a PHP string whose content is the value's exact text (nil pointers and nil interfaces as null), with the correct length, and reads back to the same value. When decoding such numeric fields, a string that is not entirely one valid in-range number of the field's type is an error, as is a non-string token other than null.",
  ["inputs", "programs"], "all scalar kinds x values x string contents",
  "Tests cover about fifteen literals, mostly small integers, and decode five.",
  [E+"int_as_string.go", E+"uint_at_string.go", E+"float.go", E+"bool_as_string.go", E+"interface.go", E+"compile.go", D+"wrapped_string.go", D+"compile.go"],
  [("digit counting for the length prefix", E+"int_as_string.go:iterativeDigitsCount, "+E+"uint_at_string.go:uintDigitsCount"), ("wrapped decoders", D+"wrapped_string.go")],
  ["Marshal output", "Unmarshal destination and error"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
p("C28", "Time is linear in the data",
  "The CPU time of Unmarshal grows at most linearly (up to the cost of hashing and memory) with the length of the input plus the size of the existing destination, and that of Marshal with the size of the value visited plus the output, whatever the shape: long lists, maps, objects and strings, many fields, unknown or out-of-range entries, values handed raw to an Unmarshaler, deep nesting above much content, shared parts, and calls that end in an error. In particular no part of the data is scanned, copied or searched once more for every level around it or for every element beside it.",
  ["inputs", "programs"], "all shapes of documents and values, all destination types, all sizes",
  "Tests use small documents and values, on which quadratic work is not noticeable, and measure no time.",
  ["internal/decoder/context.go", "internal/decoder/slice.go", "internal/decoder/map.go", "internal/decoder/struct.go", "internal/decoder/interface.go", "internal/encoder/context.go", "internal/encoder/ptr.go", "internal/encoder/interface.go", "internal/encoder/marshal.go"],
  [("one pass over the input with skipping in place", "internal/decoder/context.go:skipValue"), ("growth of slices by doubling", "internal/decoder/slice.go:Decode"), ("set of values being encoded", "internal/encoder/context.go:Ctx, internal/encoder/ptr.go:encodeCheckRecursive")],
  ["CPU time of Marshal and Unmarshal at two sizes"])

p("C29", "Nothing but the results outlives a call",
  "When Marshal or Unmarshal has returned, successfully, with an error or by a panic of a custom method, the library keeps no reference to the value, the input, the destination or the result, apart from working buffers of at most the size of one call: however many calls are made with fresh data of the same types, memory held by the library does not grow with their number, whether the calls continue or have stopped, and no goroutines are left behind. What a caller keeps of a result (a decoded string, byte slice, key, element or pointer, or a returned document) keeps only memory in proportion to itself alive, not the document it was read from or the buffer it was written in.",
  ["inputs", "histories", "programs"], "all types x all sequences of calls with fresh data (succeeding, refused, cyclic, panicking) x all parts of results that are kept",
  "Tests make a handful of calls, never look at the heap and never drop their data; a leak of a few bytes per call shows only after thousands of calls.",
  ["internal/encoder/context.go", "internal/encoder/marshal.go", "internal/encoder/ptr.go", "internal/encoder/interface.go", "internal/encoder/compile_cache.go", "internal/decoder/context.go", "internal/decoder/string.go", "internal/decoder/bytes.go", "unmarshal.go"],
  [("pooled contexts", "internal/encoder/context.go:newCtx, internal/decoder/context.go:ReleaseRuntimeContext"), ("set of values being encoded is emptied", "internal/encoder/ptr.go:encodeCheckRecursive, internal/encoder/interface.go:reflectRecursiveValue"), ("copies of decoded text", "internal/decoder/string.go, internal/decoder/bytes.go")],
  ["live heap after garbage collections, number of goroutines"])

p("C30", "The same guarantees on every platform and supported Go version",
  "The package compiles and all properties C01 to C27 hold alike on 64-bit and 32-bit platforms, with every Go version from the minimum in go.mod to the newest, and whatever the compiler optimises: results differ only where int, uint and uintptr have another range, in which case a number that does not fit is an error. In particular lengths, counts, indexes and integers of documents beyond 32 bits are treated as on 64-bit platforms: stored in 64-bit destinations, skipped where they are skipped, refused where they cannot be represented.",
  ["inputs", "programs", "configurations"], "all inputs and types x platforms (word size) x Go versions x optimisation levels",
  "The suite is run on one platform with one Go version and has no documents with numbers beyond 32 bits for destinations of type int.",
  ["internal/decoder/int.go", "internal/decoder/uint.go", "internal/decoder/array.go", "internal/decoder/slice.go", "internal/decoder/context.go", "internal/encoder/context.go", "go.mod"],
  [("conversions between int64 and int", "internal/decoder/int.go:readInt, internal/decoder/context.go:readLengthInt"), ("limit of slice sizes", "internal/decoder/slice.go:maxSliceBytes"), ("overflow checks by reflect", "internal/decoder/int.go:processBytes")],
  ["as for C01 to C27, in builds for other platforms and by other compilers"])

with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
print(len(P))
