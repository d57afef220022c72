#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the wording lives in one reviewable place)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

GO1 = ["encode.go", "encoder.go", "decode.go", "decoder.go", "buffer.go"]
GO2 = ["v2/encode.go", "v2/encoder.go", "v2/decode.go", "v2/decoder.go", "v2/buffer.go"]
RS = ["encoder.rs", "decoder.rs", "kind.rs", "lib.rs"]
C = ["c_bindings/encoder.rs", "c_bindings/decoder.rs", "c_bindings/types.rs", "c_bindings/lib.rs", "polyglot.h.in"]
TS = ["encoder.ts", "decoder.ts", "kind.ts", "index.ts"]
CODEC = GO1 + GO2 + RS + C + TS

prop("P01", "Every sequence of encoded values decodes back to itself",
 "In each implementation (Go v1, Go v2, Rust, C bindings, TypeScript), encoding any sequence of supported values and then decoding the produced bytes with the same sequence of reads yields exactly the values that were encoded, in order, with no error. After the last read nothing is left over. This holds for every value of every kind, including empty and large payloads, extreme numbers, negative zero, NaNs (bit for bit where the language can express a NaN payload), and multi-byte text.",
 ["inputs", "histories"], "all sequences of values of all kinds, all payload sizes (subject to the 32-bit length limit), all starting buffer states",
 "The unit tests encode one or two fixed values per kind (mostly 'Test String', 32, -32 and the like); varint widths, buffer growth and positions inside longer sequences are not sampled.",
 CODEC, [("varint encoders and decoders", "encode.go, v2/encode.go, encoder.rs, encoder.ts and the matching decode files"), ("zig-zag mapping of signed integers", "same files"), ("length-prefixed payloads", "same files")],
 ["Encoder API output bytes", "Decoder API return values"])

prop("P02", "All implementations emit the same canonical bytes",
 "For every sequence of values, Go v1, Go v2, Rust, the C bindings and TypeScript all produce exactly the same bytes: a kind tag per value, minimal-length little-endian base-128 varints, zig-zag for signed numbers, big-endian IEEE floats, and length-prefixed payloads. The bytes depend only on the values, not on the initial size, capacity, prior content or growth history of the buffer they are written to, and bytes already in the buffer are kept.",
 ["inputs", "configurations"], "all value sequences; all buffer sizes, capacities and pre-existing contents; all varint length classes",
 "integration-test-data.json holds one sample per kind and is only compared one implementation at a time; no test varies the buffer's starting state or crosses varint length boundaries in containers and payload lengths.",
 CODEC, [("kind table", "encode.go, v2/encode.go, kind.rs, kind.ts"), ("hand-unrolled varint writers", "v2/encode.go"), ("buffer growth before each write", "buffer.go, v2/buffer.go, encoder.ts")],
 ["encoded bytes"])

prop("P03", "Any implementation decodes what any other encoded",
 "Bytes produced by any of the five implementations are decoded by each of the other four to the same sequence of values, with nothing left over.",
 ["inputs", "configurations"], "all value sequences (text restricted to valid UTF-8) and all ordered pairs of implementations",
 "Each language's integration test decodes the same 16 fixed samples; no test runs two implementations on generated values.",
 CODEC, [("shared wire format", "encode/decode files of each implementation")], ["encoded bytes", "decoded values"])

prop("P04", "No byte string crashes or hangs a decoder",
 "Whatever bytes a decoder is given, and whatever sequence of reads is made (including reads after earlier reads failed), every read terminates with a value or the implementation's ordinary error. No input makes a decoder panic, abort, read out of bounds or loop forever.",
 ["inputs", "histories"], "all byte strings (random, truncated, mutated valid encodings, hostile lengths) and all read sequences, in all five implementations",
 "Decode tests only feed well-formed input plus one wrong-kind byte; truncated varints, hostile lengths and reads after errors are never generated.",
 GO1 + GO2 + RS + C + TS, [("length checks before indexing", "decode.go, v2/decode.go, decoder.rs, decoder.ts")], ["process survival", "returned error"])

prop("P05", "Decoders accept only complete well-formed values",
 "A read succeeds only if the input at the current position starts with one complete, well-formed encoding of the requested type, and then returns exactly the value that encoding denotes and advances exactly past it. Truncated input, lengths larger than the remaining input, varints longer than the type's maximum, and varints denoting numbers outside the type's range are refused with an error; no value is ever fabricated from them.",
 ["inputs", "histories"], "all byte strings and all read sequences; compared read by read with an independent reference decoder",
 "No test feeds over-long or overflowing varints, or cuts an encoding at each byte; round-trip samples can never reach those.",
 GO1 + GO2 + RS + C + TS, [("overflow and length guards in the decoders", "decode.go, v2/decode.go, decoder.rs, decoder.ts")], ["returned value", "returned error", "remaining bytes"])

prop("P06", "A read of the wrong kind is refused and consumes nothing",
 "When the next encoded item is not of the requested kind (including a slice or map whose element, key or value kind differs), the read returns the error belonging to the requested type and the decoder stays exactly where it was. A following read of the right kind then succeeds, however many mismatched reads came before it.",
 ["inputs", "histories"], "all pairs of (present item, requested kind), element kind mismatches, and any interleaving of mismatched and matching reads, in all five implementations",
 "The tests try a single mismatched read per type on the item's own buffer; they do not check the position after refused container reads nor mixes of failing and succeeding reads.",
 GO1 + GO2 + RS + C + TS, [("kind check before consuming", "decode.go, v2/decode.go, decoder.ts"), ("cursor rewind on mismatch", "decoder.rs")], ["returned error", "next read's value"])

prop("P07", "Decoding memory is bounded by the input",
 "The memory a decoder allocates for a read is bounded by a small constant plus a small multiple of the bytes actually present in the input. A short message that merely declares a huge length is refused without allocating that length.",
 ["inputs"], "all inputs with declared payload or container lengths from 0 to 2^32-1 and any number of bytes actually present",
 "No test measures allocation on malformed input.",
 GO1 + GO2 + RS + C + TS, [("length compared with remaining input before allocation", "decode.go, v2/decode.go, decoder.rs, decoder.ts")], ["bytes allocated during the read"])

prop("P08", "Decoded values and encoded buffers do not share memory",
 "A decoded value never changes when the input bytes it was decoded from are overwritten afterwards, and decoding never modifies its input. An encoded buffer never changes when the values that were encoded into it are modified afterwards, and encoding never modifies those values. A byte-slice read with caller-provided scratch space returns exactly the decoded bytes, whatever the scratch held before.",
 ["inputs", "histories"], "all values, all scratch slices (nil, empty, shorter, longer, spare capacity), all later mutations",
 "No test mutates the source or the destination after the call; scratch reuse is tested with one size.",
 GO1 + GO2 + RS + C + TS, [("copying in decodeBytes/decodeString", "decode.go, v2/decode.go, decoder.ts, c_bindings/decoder.rs")], ["values re-read after mutation"])

prop("P09", "Buffers behave like an append-only byte sequence",
 "For any history of writes, encodes, growth requests, explicit cursor moves, resets and re-use, a buffer's contents and length are exactly the concatenation of what was written since the last reset, adjusted by the moves. Growing never changes contents and afterwards there is room for the requested number of bytes; no write is ever shortened or dropped, whatever the initial size or backing storage. Buffers created over caller-provided bytes obey the same rules.",
 ["histories", "configurations"], "all operation histories over all constructors, initial sizes (including 0), lengths and capacities",
 "Buffer tests write a few fixed chunks to default-sized buffers; the v2.0.0 'silent short writes' bug fixed upstream shows that growth histories matter.",
 ["buffer.go", "v2/buffer.go", "v2/encode.go", "encoder.ts"], [("Grow/Write/Reset/MoveOffset", "v2/buffer.go"), ("Write/Reset", "buffer.go"), ("resize on demand", "encoder.ts")], ["Bytes/Len/Cap of the buffer", "encoder.bytes"])

prop("P10", "Pooled objects come out empty and are never shared",
 "A buffer or decoder obtained from a pool never shows contents from an earlier use and is never handed to two holders at the same time, for any history of get, use, return and re-get. Returning nil is harmless.",
 ["histories", "schedules"], "all get/use/put histories over any number of buffers, pools and goroutines",
 "pool_test.go does one get/put/get sequence.",
 ["v2/pool.go", "v2/buffer.go", "decoder.go"], [("Reset on Put", "v2/pool.go"), ("decoder rebinding on Get", "decoder.go")], ["Bytes/Len after Get", "identity of pooled objects"])

prop("P11", "Independent encoders and decoders are safe to use concurrently",
 "Any number of goroutines or threads may encode and decode on their own buffers and decoders, and get and return pooled ones, at the same time; each obtains exactly the result it would have obtained alone and there is no data race. In every implementation the same holds for any number of encoders and decoders that are in use at once and take turns within one thread.",
 ["schedules", "inputs"], "all interleavings of independent encode/decode/pool workloads (sampled; concurrent ones with the race detector observing, turn-taking ones in generated orders)",
 "No existing test starts a second goroutine on the codec.",
 GO1 + GO2 + ["v2/pool.go", "decoder.go", "c_bindings/decoder.rs", "c_bindings/encoder.rs"], [("no shared mutable package state outside sync.Pool", "v2/pool.go, decoder.go, v2/encode.go")], ["per-goroutine results", "race detector reports"])

prop("P12", "Errors travel as values and keep their identity",
 "An error encoded by any implementation decodes to an error with exactly the same message, and reading it is never confused with the read itself failing. In Go the decoded error compares equal (errors.Is) to any error with the same message and unequal to any error with a different message.",
 ["inputs"], "all messages (empty, long, multi-line, non-ASCII, equal to the decoder's own error messages), alone and inside longer sequences",
 "One fixed message is tested per implementation; the Is relation is never tested for inequality.",
 ["encode.go", "decode.go", "v2/error.go", "v2/encode.go", "v2/decode.go", "encoder.rs", "decoder.rs", "c_bindings/encoder.rs", "c_bindings/decoder.rs", "encoder.ts", "decoder.ts"], [("Error type with Is by message", "encode.go, v2/error.go"), ("two error results on Decoder.Error", "decoder.go, v2/decoder.go")], ["decoded error message", "errors.Is"])

prop("P13", "The C API reports status truthfully and manages ownership",
 "Every call of the C API with a status argument sets it: pass exactly when the operation took effect, and a specific failure code otherwise, including null handles, null buffers and null strings, which never crash. (The nil probe answers through its boolean result.) Any legal history of creating, using and freeing encoders, decoders, buffers, strings and errors is free of leaks, double frees and invalid accesses, and encoding into a caller buffer that is too small reports failure without writing past it. The declarations, kind names and status names of the public header say what the library does.",
 ["histories", "inputs", "fault_sequences"], "all legal call histories, all buffer capacities, null arguments in any position",
 "polyglot_test.c runs one success path and a handful of null checks.",
 C, [("null checks and status codes", "c_bindings/encoder.rs, c_bindings/decoder.rs"), ("Box/CString ownership transfer and free functions", "c_bindings/decoder.rs, c_bindings/encoder.rs"), ("kind and status names, prototypes", "polyglot.h.in, polyglot.h, c_bindings/types.rs")], ["polyglot_status_t", "AddressSanitizer/LeakSanitizer"])

prop("P14", "Generated Go compiles for every supported schema",
 "For every protobuf schema within the supported feature set (messages, nesting, recursion, enums, optional and repeated fields, maps, any mixture of scalar types; each file in a Go package of its own and importing none), the Go plugins (v1 and v2) emit source that compiles against the library, with one type per message and per enum.",
 ["programs"], "all schemas in the supported subset",
 "The generators have no tests at all.",
 ["generator/golang", "v2/generator/golang", "protoc-gen-go-polyglot/main.go", "v2/protoc-gen-go-polyglot/main.go", "utils/utils.go", "v2/utils/utils.go"], [("templates", "generator/golang/templates, v2/generator/golang/templates"), ("type and name mapping", "generator/golang/structs.go, utils/utils.go and their v2 twins")], ["go/types result", "declared identifiers"])

prop("P15", "Generated Go messages round-trip",
 "Encoding any instance of a generated Go message and decoding it, into a fresh or an already used object, reproduces every field, enum, list, map and nested message exactly (v1 presents an absent nested message as an empty one), however long its lists and maps and however deep its nesting, with memory in proportion to the size of the message. A nil message encodes as nil, which decodes without error and sets nothing; decoding into a nil object is an error. An error written in place of a message is read back by the library as that error, and the message decoder refuses it.",
 ["programs", "inputs", "histories"], "all schemas in the supported subset, all message values, any re-use of the target object",
 "The generators have no tests; the only generated code in the tree is one benchmark message.",
 ["generator/golang/templates", "v2/generator/golang/templates", "generator/golang", "v2/generator/golang"], [("encode/decode templates", "generator/golang/templates/*.templ, v2/generator/golang/templates/*.templ")], ["decoded struct", "remaining bytes"])

prop("P16", "Generated Go code follows one wire layout",
 "The bytes a generated Go message encodes to are exactly its scalars and enums, then its lists, then its nested messages and maps, each group in declaration order and each value in the primitive encoding that the schema type prescribes, with lists and maps preceded by their kind-tagged sizes and absent messages encoded as nil. They are appended to whatever the buffer already holds. Code generated by the v1 and v2 plugins from the same schema interoperates in both directions.",
 ["programs", "inputs"], "all schemas in the supported subset and all message values, compared with a schema-directed reference encoder",
 "The generators have no tests.",
 ["generator/golang", "v2/generator/golang", "generator/golang/templates", "v2/generator/golang/templates"], [("kind mapping and encode templates", "generator/golang/structs.go, templates/encode.templ and their v2 twins")], ["encoded bytes of generated messages"])

prop("P17", "Generated Rust code compiles and interoperates",
 "For every schema within the Rust generator's supported subset (no struct that contains itself, no enum aliases, nested messages always present) the Rust plugins (v1 and v2) emit code that compiles against the Rust library, whatever the field privacy option; messages encoded by it have the same bytes as the same message encoded by the generated Go code, and each side decodes the other's bytes to the same values, leaving what follows the message unread. A nil decodes to no message, and an encoded error in place of a message is returned as an error with the same text.",
 ["programs", "inputs"], "all schemas in the Rust generator's supported subset and all message values",
 "The Rust generator has no tests.",
 ["generator/rust", "v2/generator/rust", "generator/rust/templates", "protoc-gen-rs-polyglot/main.go"], [("templates and type mapping", "generator/rust/templates, generator/rust/structs.go")], ["cargo build result", "encoded bytes", "decoded values"])

prop("P18", "Generated decoders reject malformed messages cleanly",
 "Given any bytes, a generated message decoder (Go and Rust) returns an error or a message; it never crashes, and never allocates more than a small multiple of the input size. It returns an error whenever the input is not a complete encoding of that message: truncation at any byte, a field of another kind, or a size larger than the elements present.",
 ["programs", "inputs"], "all schemas in the supported subset; truncations, mutations and random bytes for each",
 "The generators have no tests.",
 ["generator/golang/templates", "v2/generator/golang/templates", "generator/rust/templates", "v2/generator/rust/templates", "decode.go", "v2/decode.go", "decoder.rs"], [("error checks in decode templates", "generator/golang/templates/decode.templ and decodeInline.templ, generator/rust/templates/decode*.templ, v2 twins")], ["returned error", "process survival", "allocation"])

prop("P19", "Code generation is deterministic and independent per file",
 "The output generated for a schema file depends only on that file and the options: repeated runs give identical bytes, and generating it together with other files, in any order, gives the same content as generating it alone. Exactly one output file is produced per requested schema file and every plugin answers every valid request without crashing and in reasonable time, however the messages refer to one another.",
 ["programs", "configurations"], "all schemas, all groupings and orderings of files in a request, all four plugins",
 "The generators have no tests; map iteration and state carried between files only show with several files.",
 ["generator", "v2/generator", "protoc-gen-go-polyglot/main.go", "protoc-gen-rs-polyglot/main.go", "protoc-gen-ts-polyglot/main.go", "v2/protoc-gen-go-polyglot/main.go"], [("per-file template execution", "generator/*/generator.go")], ["CodeGeneratorResponse"])

prop("P20", "Generated names and enum numbers follow the schema",
 "Every message, field, enum and enum value of a schema appears in the generated Go, Rust and TypeScript code under the documented name mapping, nested types under their parent's name, each field with the declared type and each enum constant with the declared number. Names that the target language or the generated methods reserve are escaped, never dropped, and distinct schema elements never collapse into one. A TypeScript module parses and imports every library name it uses.",
 ["programs"], "all schemas in the supported subset whose names do not collide under the documented mapping",
 "The generators have no tests; name mapping helpers are untested.",
 ["utils/utils.go", "v2/utils/utils.go", "generator/golang/structs.go", "generator/rust/structs.go", "generator/typescript/structs.go"], [("CamelCase, SnakeCase and full-name mapping", "utils/utils.go, v2/utils/utils.go")], ["declared identifiers, types and constant values"])

prop("P21", "Generated TypeScript code works with the TypeScript library",
 "For every schema within the supported subset the TypeScript plugin emits modules that type-check against the TypeScript library, and whose messages round-trip and have the same bytes as the same message encoded by the generated Go code.",
 ["programs", "inputs"], "all schemas in the supported subset and all message values",
 "The TypeScript generator has no tests.",
 ["generator/typescript", "v2/generator/typescript", "protoc-gen-ts-polyglot/main.go"], [("templates", "generator/typescript/templates")], ["tsc result", "encoded bytes", "decoded values"])

prop("P22", "Generators embedded as a library behave like the plugins",
 "A program that imports the generator packages gets the plugins' output: a Generator object may be used for any number of requests, several objects may be used in any order or at the same time, and each answer depends only on its own request and the custom code set on that object, not on earlier requests or other objects. In Go output, CustomFields, CustomEncode and CustomDecode code appears in every message (fields in the struct, encode and decode code in front of the message's fields), so that the generated code compiles and custom data round-trips wherever messages occur; ExecuteTemplate without a header emits the same declarations without package clause and imports.",
 ["programs", "histories", "schedules"], "all schemas in the supported subset, all histories of requests with and without custom code over several Generator objects, one after another or concurrently",
 "No test uses the generators; the extension points have no test at all.",
 ["generator/golang/generator.go", "v2/generator/golang/generator.go", "generator/rust/generator.go", "v2/generator/rust/generator.go", "generator/typescript/generator.go", "v2/generator/typescript/generator.go", "generator/golang/templates"], [("Generator with CustomFields, CustomEncode, CustomDecode, Generate and ExecuteTemplate", "generator/*/generator.go, v2/generator/*/generator.go")], ["CodeGeneratorResponse", "encoded bytes and decoded values of hooked messages"])

prop("P23", "A plugin's answer is complete or it is an error",
 "For every request (well formed, cut short, damaged, naming missing files or types, with an unknown parameter, or using a construct outside the supported subset such as a proto2 group) and whatever happens around the run (rustfmt missing, failing, dying half-way or printing warnings, a rustfmt configuration in the working directory, a request that arrives in pieces, an unreadable standard input, an unwritable standard output), a plugin either answers with exactly one complete output of generated code per requested file, the same that an undisturbed run gives, or reports an error by its exit status or in the response. It never claims success with missing, partial or foreign content, and circumstances that do not prevent an answer do not make it fail.",
 ["inputs", "fault_sequences", "configurations"], "all requests and all of the listed disturbances, all six plugins and generator packages",
 "The plugins and generators have no tests, let alone ones with failing tools and damaged requests.",
 ["protoc-gen-go-polyglot/main.go", "protoc-gen-rs-polyglot/main.go", "protoc-gen-ts-polyglot/main.go", "v2/protoc-gen-go-polyglot/main.go", "generator/golang/generator.go", "generator/rust/generator.go", "generator/typescript/generator.go", "v2/generator/golang/generator.go", "v2/generator/rust/generator.go", "v2/generator/typescript/generator.go", "generator/golang/structs.go", "generator/rust/structs.go", "generator/typescript/structs.go"], [("error handling of main", "protoc-gen-*-polyglot/main.go"), ("running rustfmt", "generator/rust/generator.go, v2/generator/rust/generator.go"), ("refusal of unsupported kinds", "generator/*/structs.go")], ["exit status", "CodeGeneratorResponse"])

prop("P24", "Long streams are exact and cost in proportion to their length",
 "However many values are encoded into one encoder, from whatever initial buffer, and read back from one decoder, the bytes are the concatenation of the values' encodings and every value reads back; and the cost is proportional to the length of the stream, never to its square: over a whole encoding all allocations together (including what is reallocated) stay below a small multiple of the bytes written, over a whole decoding below a small multiple of the encoded bytes plus a small amount per value, and a stream of a million values is encoded and decoded in seconds, not minutes.",
 ["inputs", "histories"], "all sequences of values of every kind repeated up to over a million values, all initial buffers, five implementations; Go also for raw writes",
 "The tests encode a handful of values; a buffer that grows by just what is missing, or a decoder that copies the rest of its input, passes them all.",
 GO1 + GO2 + RS + C + TS, [("growth of the encoding buffer", "buffer.go, v2/buffer.go Grow, encoder.rs, encoder.ts resize"), ("consuming the input", "decode.go, v2/decode.go, decoder.rs, decoder.ts")], ["encoded bytes", "decoded values", "bytes allocated", "processor time"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
