#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is reviewable)."""
import json
import os

R = "runtime/src/"
C = "compiler/src/"
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)


p("C01", "Decoding untrusted bytes never panics",
  "Decoding any byte string as any value, string, optional, array, list, structure, union or message either returns a value or returns an error; it never panics, never reads outside the given bytes and never overflows its own size arithmetic. The same holds while iterating over a list or array that was decoded, and every such iteration terminates.",
  ["inputs"], "every byte string (any length and content), every decoder of the runtime and every decoder the code generator can emit",
  "The 26 tests decode well-formed buffers they built themselves; none feeds truncated or hostile prefixes to each decoder.",
  [R + "message/util/common.rs", R + "message/util/string.rs", R + "message/util/array.rs", R + "message/util/list.rs", C + "gen/rust/message.from_slice.template", C + "gen/rust/structure.template", C + "gen/rust/union.template"],
  [("length checks before every slice", R + "message/util/*.rs from_slice"), ("checked size arithmetic", R + "message/util/array.rs")],
  ["decoder return value", "panic"])
p("C02", "Decoders report exactly the bytes they consumed",
  "A successful decode reports a size that is never larger than the input and that is exactly the extent of the encoding it interpreted: prefix or presence byte, body and terminator; every following element is decoded right after it. When the input is shorter than the encoding requires, decoding reports truncation rather than a shortened value.",
  ["inputs"], "every byte string and every decoder of the runtime and of generated code",
  "Tests compare a handful of total sizes on complete buffers; an off-by-one on one codec or a partial value on a short buffer is not sampled.",
  [R + "message/util/common.rs", R + "message/util/string.rs", R + "message/util/array.rs", R + "message/util/list.rs", C + "gen/rust/message.from_slice.template"],
  [("size returned with each decoded value", R + "message/interface.rs"), ("cursor advanced by the reported size", C + "gen/rust/message.from_slice.template")],
  ["reported size", "error kind"])
p("C03", "Writers and readers of the same type agree on the wire format",
  "For every value codec, structure, union and message, the sequence of elements a writer emits (prefixes, presence bytes, raw bytes, terminators, byte order and nested encodings) is the sequence the reader of the same type consumes, in the same order. So everything written successfully is read back as the same elements.",
  ["inputs", "programs"], "every value that can be written, for every codec and every generated message type",
  "Round trips are tested for a few messages and values only; a writer and reader that drift apart for one codec, one byte order or one optional combination go unnoticed.",
  [R + "message/util/common.rs", R + "message/util/string.rs", R + "message/util/list_base.rs", R + "message/util/array.rs", R + "message/util/list.rs", C + "gen/rust/message.write.template", C + "gen/rust/message.from_slice.template", C + "gen/rust/union.template"],
  [("paired read and write implementations", R + "message/util")],
  ["bytes written", "values decoded"])
p("C05", "Length prefixes and terminators always describe what follows, or writing fails",
  "Whenever a length-prefixed string, array or list is written successfully, the prefix on the wire equals the number of bytes or items that follow; a length that the prefix type cannot represent makes the write fail instead of wrapping. A terminated string containing the terminator is refused.",
  ["inputs"], "every string, array and list, of every length, with every prefix width",
  "Tests write short strings and lists; lengths beyond the prefix width and embedded terminators are never tried.",
  [R + "message/util/string.rs", R + "message/util/list_base.rs", R + "message/util/common.rs"],
  [("prefix range check before writing", R + "message/util/common.rs"), ("item count updated per appended item", R + "message/util/list_base.rs")],
  ["bytes written", "write error"])
p("C06", "I/O and nested errors are never swallowed",
  "If the output refuses or fails any byte, or any nested element fails to encode or decode, the enclosing operation reports failure; success is reported only after every byte of the element was handed over completely. An item whose encoding failed is not counted.",
  ["fault_sequences", "inputs"], "every position at which the output may fail or a nested element may be malformed, for every writer and reader",
  "Tests write into growable memory buffers, which never fail.",
  [R + "message/util/common.rs", R + "message/util/string.rs", R + "message/util/list_base.rs", R + "message/util/size.rs", C + "gen/rust/message.write.template", C + "gen/rust/structure.template"],
  [("error propagation and all-or-error writes", R + "message/util")],
  ["returned result", "item count"])
p("C07", "Array and list containers keep count, storage and indexing consistent",
  "The item count of an array always matches its storage divided by the item size when it is decoded or validated from parts, element i is exactly the i-th item-sized slot, and iteration yields each slot once in order. List iteration yields items in order, at most as many as were counted, and stops for good after a malformed item.",
  ["inputs", "histories"], "every buffer, count, index and sequence of append, read and iterate operations",
  "Tests index a few small arrays; sizes that do not match, indexes near the end and malformed list items are not covered.",
  [R + "message/util/array.rs", R + "message/util/list.rs", R + "message/util/list_base.rs", R + "message/macros.rs"],
  [("validated construction", R + "message/util/array.rs"), ("chunked iteration", R + "message/util/array.rs"), ("remaining-items counter", R + "message/util/list.rs")],
  ["item count", "items yielded"])
p("C09", "Measured message size equals the number of bytes written",
  "Measuring the encoded size of any value without writing it returns exactly the number of bytes that writing the same value produces, and fails exactly when writing would fail for a reason other than the output.",
  ["inputs"], "every writable value",
  "No test measures a size.",
  [R + "message/util/size.rs"],
  [("counting output that accepts everything", R + "message/util/size.rs")],
  ["measured size", "bytes written"])
p("C10", "Bit fields read and write exactly their own bits",
  "Reading a bit field returns exactly the bits the layout assigns to it as an unsigned number in the declared byte order, whatever the other bits are; writing it stores the low bits of the value there and leaves every other bit of the buffer unchanged; reading after writing returns the stored bits.",
  ["inputs", "configurations"], "every field width that is not a whole number of bytes, every bit offset allowed for it, both byte orders, every buffer content and value",
  "Tests exercise five or six width/offset combinations with a few values out of 244 combinations and all contents.",
  [R + "codec/bits.rs", C + "gen/rust/structure.field.template", C + "gen/base/structure.rs"],
  [("mask and shift", R + "codec/bits.rs"), ("staging buffer for widths that do not match the integer", R + "codec/bits.rs")],
  ["buffer bits", "returned value"])
p("C11", "Whole-byte scalars use the declared byte order at every width",
  "Reading or writing a scalar of any whole number of bytes interprets exactly those bytes, in the declared byte order, zero-extended into the integer; writing stores the low bytes of the value and touches nothing else.",
  ["inputs", "configurations"], "every width from 1 to 8 bytes, both byte orders, every content and value",
  "Odd widths such as 3, 5, 6 and 7 bytes are hardly used in the tests, and never in big endian.",
  [R + "codec/bytes.rs", C + "gen/base/structure.rs", C + "gen/rust/util.rs"],
  [("staging buffer for odd widths", R + "codec/bytes.rs"), ("codec selection", C + "gen/rust/util.rs")],
  ["buffer bytes", "returned value"])
p("C12", "Scalar arrays inside structures address their own items",
  "Item i of a scalar array occupies the i-th item-sized slot of the array, is read and written in the declared byte order and type, the reported length is the declared length, and iteration visits every item once in order.",
  ["inputs", "configurations"], "every item width and type, index, content and both byte orders",
  "Tests use a couple of arrays of two widths.",
  [R + "codec/arrays.rs", C + "gen/base/structure.rs", C + "gen/rust/structure.field.template", C + "compiler/structure.rs"],
  [("item addressing", R + "codec/arrays.rs"), ("item bit size", C + "compiler/structure.rs")],
  ["item values", "buffer bytes"])
p("C13", "Structure layout follows the schema, fields never overlap",
  "The fields of a structure occupy consecutive bit ranges in schema order, starting at zero and covering its total size rounded up to bytes; getter, setter and raw accessors of a field address the same range with the same byte order, and nested structures sit at their own offset. A field that cannot be addressed at its position is refused when the schema is compiled.",
  ["programs", "inputs"], "every accepted structure definition",
  "The fixed test schemas cover few placements; a wrong offset for one combination of widths is not seen.",
  [C + "compiler/structure.rs", C + "gen/base/structure.rs", C + "gen/rust/structure.field.template", C + "gen/rust/structure.template"],
  [("running bit offset", C + "compiler/structure.rs"), ("byte window of a field", C + "compiler/structure.rs")],
  ["accessor ranges", "structure size"])
p("C14", "Views convert between raw and typed values and back",
  "A signed field of any width is its two's complement value; a boolean is true exactly for non-zero raw values and is stored as one or zero; floats of 32 and 64 bits are bit-exact; scaled float views use mutually inverse affine maps whose range ends are the raw minimum and maximum. Setting a representable value through the typed accessor and reading it back yields that value.",
  ["inputs", "configurations"], "every width and raw value; every declared range and multiplier",
  "Tests try one or two values of a few widths and views.",
  [C + "compiler/structure.rs", C + "gen/base/structure.rs", C + "gen/rust/structure.field.template"],
  [("view selection and coefficients", C + "compiler/structure.rs"), ("generated conversions", C + "gen/rust/structure.field.template")],
  ["typed accessor results", "stored bits"])
p("C15", "Enumerations decode only to declared values",
  "Reading an enumerated field returns the variant declared for exactly that raw value and nothing for every other raw value, including gaps and values beyond the largest; writing a variant stores its declared value. An enumeration that does not fit in the field is refused when the schema is compiled.",
  ["inputs", "programs"], "every enumeration (dense, sparse, any field width) and every raw value",
  "The test enumeration is dense and starts at zero, so gaps never occur.",
  [C + "compiler/enum.rs", C + "compiler/structure.rs", C + "gen/rust/structure.field.template", C + "gen/rust/enum.template", C + "gen/rust/enum.rs"],
  [("generated variant table", C + "gen/rust/structure.field.template")],
  ["decoded variant", "stored value"])
p("C16", "Messages encode every field once, in schema order, with its declared codec",
  "A generated message reader and writer handle every field exactly once, in the order of the schema, with the codec, length-prefix width, byte order and optional marker the schema implies, starting right after the previous field.",
  ["programs"], "every accepted message definition, both byte orders, every combination of field kind and optional marker",
  "Test messages cover a small part of the field kinds and none in big endian.",
  [C + "compiler/message.rs", C + "gen/base/message_from_slice.rs", C + "gen/base/message_write.rs", C + "gen/rust/message.from_slice.template", C + "gen/rust/message.write.template"],
  [("field codec selection", C + "gen/base/message_from_slice.rs")],
  ["bytes written", "fields decoded"])
p("C17", "Reported field offsets delimit each field exactly",
  "Decoding with offsets yields the same value and size as plain decoding, and reports for each field the range of input bytes it was decoded from: consecutive, starting at zero, ending at the reported size, with nested messages relative to their own start.",
  ["inputs", "programs"], "every accepted message definition and every input",
  "Offsets are checked for one message with one buffer.",
  [C + "gen/rust/message.offsets.template", C + "gen/rust/message_offsets.rs", R + "message/util/common.rs", R + "message/util/list.rs"],
  [("start and end recorded around each decode", C + "gen/rust/message.offsets.template")],
  ["reported offsets"])
p("C18", "Union decoding, encoding and discriminants use one and the same table",
  "For every union, reading selects the case whose declared value equals the discriminant and fails for any other value; writing a case succeeds only when the discriminant holds that case's value; setting the discriminant stores that value at the declared path. Accessors return a case's content only when that case is active.",
  ["inputs", "programs"], "every union definition, discriminant type and position, and every raw discriminant value",
  "Tests use two unions with dense unsigned values and consistent discriminants.",
  [C + "compiler/union.rs", C + "gen/rust/union.rs", C + "gen/rust/union.template"],
  [("case value", C + "compiler/union.rs"), ("generated match tables", C + "gen/rust/union.template")],
  ["decoded case", "write error", "stored discriminant"])
p("C19", "No undefined behaviour is reachable from the safe API",
  "No sequence of safe calls into the runtime, the compiler or generated code can create an invalid value, reinterpret memory of a different size, access memory outside a buffer or unwrap a missing value unchecked.",
  ["inputs", "histories"], "every use of the safe interfaces",
  "Undefined behaviour need not fail a test, and tests do not run under a checker.",
  [R + "codec/bits.rs", R + "codec/bytes.rs", R + "message/util/list_base.rs", C + "compiler/message.rs", C + "gen/template.rs", C + "gen/rust/structure.field.template"],
  [("every unsafe operation is guarded or is plain data", "runtime, compiler, templates")],
  ["unsafe operations"])
p("C20", "Compiling any schema reports errors instead of panicking",
  "For every schema the loader accepts as well-formed, compiling it and generating code either succeeds or returns an error naming the problem; no bit size, array length, enumeration, path, name or case value makes the compiler panic, overflow or loop.",
  ["inputs"], "every schema document",
  "Only a dozen valid schemas are compiled in the tests.",
  [C + "compiler/structure.rs", C + "compiler/union.rs", C + "compiler/message.rs", C + "compiler/enum.rs", C + "compiler/protocol.rs", C + "gen/template.rs", C + "gen/base/structure.rs", C + "interface.rs"],
  [("validation before use", C + "compiler")],
  ["compile result", "panic"])
p("C21", "The byte order declared by a protocol governs everything generated from it",
  "Every scalar, bit field, array item, length prefix and plain message field of a protocol is read and written in the byte order that protocol declares, little endian when it declares none; imported types keep the byte order of the protocol that defines them.",
  ["programs"], "every protocol, both byte orders",
  "The only big-endian test schema is symmetric: it reads back what it wrote, which holds in any byte order.",
  [C + "compiler/protocol.rs", C + "compiler/structure.rs", C + "compiler/message.rs", C + "gen/rust/util.rs"],
  [("endianness of the protocol copied into every field", C + "compiler")],
  ["generated codecs"])
p("C22", "Names resolve to exactly the declared type or compilation fails",
  "Every reference to a structure, message, enumeration, union, discriminant or imported type is resolved to the type declared under that name, generated code names imported types by their import path and local types by their own name, and an undefined or ambiguous name makes compilation fail.",
  ["programs"], "every schema and set of imports",
  "Tests contain no undefined, misspelled or colliding names and one import.",
  [C + "compiler/protocol.rs", C + "compiler/util.rs", C + "util.rs", C + "compiler/message.rs", C + "compiler/union.rs", C + "compiler/structure.rs"],
  [("lookup with error on a miss", C + "compiler"), ("type path table", C + "compiler/util.rs")],
  ["compile result", "generated type paths"])
p("C23", "Chosen integer types hold every permitted value and are no wider than needed",
  "The integer chosen for a length prefix is the smallest of 8, 16, 32 and 64 bits that holds the declared maximum length, and the integer chosen for a field of n bits is the smallest that holds n bits; unsupported widths are refused.",
  ["inputs"], "every maximum length and every bit width",
  "Tests use three maximum lengths, none at a boundary.",
  [C + "compiler/structure.rs"],
  [("threshold chains", C + "compiler/structure.rs")],
  ["selected type"])
p("C24", "Variable-size placement rules make every accepted message decodable",
  "A schema is accepted only if each message can be decoded without knowing its total size in advance except for one trailing element: at most one element whose items have variable size, nothing of variable size after it, nothing at all after a payload, and no payload inside list items. Lists that are not at the end of the outermost message are decoded to their exact end.",
  ["programs"], "every message definition, including through references, unions and lists",
  "No test compiles an invalid message or embeds a list in another message except as list item.",
  [C + "compiler/message.rs", C + "compiler/union.rs", C + "gen/base/message_from_slice.rs"],
  [("size classification of fields", C + "compiler/message.rs"), ("embedded marker", C + "compiler/message.rs")],
  ["compile result", "decoder choice"])
p("C25", "Every accepted schema can be rendered by the templates",
  "Every fragment, variable and function the generator asks for exists in the template it uses and is defined at the point of rendering, for every kind of field, view, union case and option; so generation never fails for lack of a template part.",
  ["programs"], "every accepted schema, every generator path",
  "Rendering paths that no test schema takes are never rendered.",
  [C + "gen/template.rs", C + "gen/base/structure.rs", C + "gen/base/message.rs", C + "gen/base/message_from_slice.rs", C + "gen/base/message_write.rs", C + "gen/rust/union.rs", C + "gen/rust/message.rs", C + "gen/rust/message_offsets.rs", C + "gen/rust/enum.rs", C + "gen/swift/structure.rs"],
  [("template fragments and variables", C + "gen/rust/*.template")],
  ["generator result"])
p("C26", "Generated output is a deterministic function of the schemas and options",
  "Generating from the same schemas with the same options always yields byte-identical files; nothing in the output depends on hashing order, time, process or environment.",
  ["histories", "inputs"], "every schema, every run",
  "Each test build generates once and never compares.",
  [C + "compiler/enum.rs", C + "compiler/protocol.rs", C + "gen/template.rs", C + "interface.rs", C + "gen/rust/mod.rs"],
  [("ordered vectors drive generation, maps are only looked up", C + "compiler")],
  ["generated files"])
p("C27", "Generation options control exactly their own part of the output",
  "Each option enables or disables exactly the files of its own kind, a file is included in the umbrella module if and only if it was written, and every generated protocol is reported with the path of its umbrella.",
  ["configurations"], "every combination of the six options and every protocol",
  "Tests use two combinations.",
  [C + "interface.rs", C + "gen/mod.rs", C + "gen/rust/mod.rs"],
  [("option flags", C + "interface.rs"), ("file kinds", C + "gen/rust/mod.rs")],
  ["files written", "umbrella content"])
p("C28", "Generated code type-checks for every combination of schema features",
  "For every kind of field, view, optional marker, position, union case, import and byte order that the schema compiler accepts, the generated code compiles against the runtime.",
  ["programs"], "every accepted schema built from the schema language's features whose names are valid, distinct Rust identifiers",
  "Test schemas combine few features; optional structures, imported array items and messages without borrowed fields never occurred.",
  [C + "gen/rust", C + "gen/base", R + "message/util/common.rs", R + "message/macros.rs"],
  [("type expressions of fields", C + "gen/rust/util.rs"), ("trait bounds", R + "message/util/common.rs")],
  ["compiler diagnostics"])
p("C31", "The build helper fails loudly and exports every protocol",
  "The build-script helper aborts the build when loading, compiling or generating fails, and otherwise exports one variable per generated protocol, named after it, holding the path of its generated code.",
  ["inputs", "fault_sequences"], "every failure of every step, every list of protocols",
  "The test build only exercises the success path.",
  [C + "build_script.rs", C + "interface.rs"],
  [("panic on error, one export per protocol", C + "build_script.rs")],
  ["build script output", "exit"])
p("C33", "Decoded values borrow the input and views cannot outlive it",
  "Strings, payloads, structures, arrays and lists decoded from a buffer refer to that buffer without copying, cannot outlive it, and cannot be used to modify it; mutable accessors exist only on mutable storage.",
  ["programs"], "every program using the API",
  "A program that misuses a borrowed value either fails to compile or is never written in a test.",
  [R + "message/interface.rs", R + "message/util/string.rs", R + "message/util/array.rs", R + "message/util/list.rs", C + "gen/rust/structure.template"],
  [("lifetimes of decoder outputs", R + "message/interface.rs"), ("trait bounds on mutable accessors", C + "gen/rust/structure.field.template")],
  ["compiler diagnostics"])
p("C29", "The Swift runtime reads and writes the same wire format as the Rust runtime",
  "Every codec of the Swift runtime consumes and produces the same bytes as its Rust counterpart.",
  ["inputs"], "every value and byte string",
  "The Swift tests are not part of the build and cover a few values.",
  ["Swift/BP3DProto/message/common.swift", "Swift/BP3DProto/message/string.swift", "Swift/BP3DProto/message/list.swift", "Swift/BP3DProto/codec/bit.swift", "Swift/BP3DProto/codec/byte.swift"],
  [("parallel implementation", "Swift/BP3DProto")], ["bytes"])
p("C30", "Template rendering substitutes exactly the named variables",
  "Rendering a fragment yields its text with every variable reference replaced by the value in scope, transformed by the named function, doubled braces reduced to one, and everything else unchanged.",
  ["inputs"], "every template and every variable value",
  "One template is rendered in the unit tests.",
  [C + "gen/template.rs"], [("tokenizer", C + "gen/template.rs")], ["rendered text"])
p("C32", "Decoding work is bounded by the input size",
  "Decoding and iterating take time and memory proportional to the input, whatever lengths the input claims.",
  ["inputs"], "every byte string",
  "Tests use truthful lengths.",
  [R + "message/util/list.rs", R + "message/util/array.rs"], [("item loop", R + "message/util/list.rs")], ["time", "memory"])
p("C34", "Scaled float views lose at most one raw step",
  "Writing a value within the range of a scaled float view and reading it back differs from it by at most one raw step.",
  ["inputs"], "every range, multiplier, width and value",
  "Tests compare two values with a tolerance.",
  [C + "gen/rust/structure.field.template", C + "compiler/structure.rs"], [("affine conversion in floating point", C + "gen/rust/structure.field.template")], ["typed accessor results"])

P.sort(key=lambda d: d["id"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
