#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the entries stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))
JR, JS, JE = "lib/json/reflector.h", "lib/json/serializable.h", "lib/json/errorhandling.h"
BR, BS = "lib/binary/reflector.h", "lib/binary/serializable.h"
TR, VE = "lib/traits.h", "lib/versioning.h"
JH, BH = "lib/json/reflector-boosthana.h", "lib/binary/reflector-boosthana.h"
JC, BC = "lib/json/reflector-chronoutilities.h", "lib/binary/reflector-chronoutilities.h"
GS, GJ, GB = ("generator/serializationcodegenerator.cpp", "generator/jsonserializationcodegenerator.cpp",
              "generator/binaryserializationcodegenerator.cpp")
GM, GF, GC = "generator/main.cpp", "generator/codefactory.cpp", "generator/consumer.cpp"

p("C01", "JSON round trip restores an equal object",
  "Serialising any object of a supported type to JSON and deserialising that JSON again yields an object equal to the original and reports no deserialisation error. "
  "This holds for every nesting of the supported types, via the member functions and via the JsonReflector functions, for generated and for Boost.Hana reflection, and also when the target type has non-empty default values.",
  ["inputs", "programs"], "all supported types (scalars, enums, strings, lists, sets, maps, multimaps, pairs, tuples, smart pointers, optionals, variants, nested and derived classes) and all their values",
  "The tests round-trip a handful of hand-picked objects; embedded NULs, boundary numbers, key collisions, empty/null states, default contents and combinations of containers are not reached.",
  [JR, JS, JH, GJ], [("push()/pull() overload sets", JR), ("toJson()/fromJson()", JS), ("generated push()/pull() specialisations", GJ)])
p("C02", "JSON output is well-formed and follows the documented type mapping",
  "toJson() yields well-formed JSON with unique member names in which every C++ value is represented by the JSON value the documentation assigns to its type, with exactly the value the object holds. "
  "Objects contain one member per serialised field under the field's name and in declaration order (base classes first), lists keep their order, map entries become members, multimap values are grouped into one array per key, null pointers/strings/empty optionals become null, and variants become {\"index\",\"data\"}.",
  ["inputs", "programs"], "all values of all supported types",
  "The tests compare a few complete strings; they cannot cover every type combination, string content needing escapes, boundary numbers or repeated multimap keys.",
  [JR, JH, GJ], [("push() overloads", JR), ("serializeJsonDocToString()", JR)])
p("C03", "A serialised JSON document is independent of the source object",
  "Once toJsonDocument()/push() has returned, the resulting RapidJSON document owns copies of all data. "
  "It can be read and serialised with the same result after the source object (including all strings, keys and string views it refers to) has been modified or destroyed, without accessing the source.",
  ["histories", "inputs"], "all values of all supported types and every order of modifying, destroying, moving the source and reading or moving the document",
  "The tests always serialise the document while the source is alive, so a document referring to source memory goes unnoticed.",
  [JR], [("SetString(..., allocator) / member names", JR)])
p("C04", "Deserialising any well-formed JSON is total and best-effort",
  "fromJson()/pull() with any well-formed JSON returns normally (unless errors are configured to be thrown) without undefined behaviour: every value of matching type is stored at its place, and every mismatching value leaves its target unchanged or, for a freshly created list/set/map/pointer/variant element, value-initialised. "
  "The resulting object is the same whether or not an errors object is passed.",
  ["inputs"], "all well-formed JSON documents (any JSON type at any position, any number, duplicates, wrong array sizes, bad variants) for all supported target types and initial contents",
  "The tests feed a few mismatching documents; most (type, JSON value) combinations and numbers outside of the target range are never deserialised.",
  [JR, JE, JH], [("pull() overload set", JR), ("number range check", JR), ("variant index dispatch", JR)])
p("C05", "Reported deserialisation errors are complete and accurate",
  "For every mismatch between JSON and target type exactly the corresponding error is added to the errors object, in document order, and nothing is added for matching values. "
  "Each error has the right kind, expected and actual JSON type and names the record, the member and the index of the innermost enclosing list that were being processed; that context is restored when processing of nested records, members and lists has finished.",
  ["inputs", "programs"], "all well-formed JSON documents and all (nested) generated classes",
  "The tests check six kinds of errors at one place each; context handling across nesting, siblings after errors and all expected types is not covered.",
  [JE, JR, GJ], [("JsonDeserializationErrors", JE), ("error context save/restore", JR), ("currentRecord in generated code", GJ)])
p("C06", "throwOn makes exactly the selected error kinds fatal",
  "With any throwOn mask, deserialisation throws a JsonDeserializationError if and only if an error of a selected kind occurs, namely the first such error. "
  "At that point the errors object contains exactly the errors reported so far including the thrown one; errors of unselected kinds are merely collected.",
  ["inputs", "configurations"], "all 64 combinations of error kinds times all documents containing up to a few errors of any kinds",
  "The tests use only the All mask and one error.",
  [JE, JR], [("throwMaybe()", JE), ("ThrowOn flags", JE)])
p("C07", "Malformed JSON always leads to a ParseResult, within the given bounds",
  "fromJson() throws rapidjson::ParseResult (and nothing else) for every text which is not exactly one well-formed JSON value and never for well-formed JSON (whose numbers are within the range of double and whose escaped surrogates are paired). "
  "It only reads the specified number of bytes, regardless of termination, and copes with any nesting depth of the text (where the target type is not itself recursive).",
  ["inputs"], "all byte strings (any length, content, nesting depth) and all top-level target types",
  "The tests parse one malformed text.",
  [JR, JS], [("parseJsonDocFromString()", JR)])
p("C08", "Member order, missing and additional members do not matter",
  "When deserialising an object, each field is taken from the member with exactly the field's name wherever it is located. "
  "Fields without such a member keep the value they had (the default value when deserialising a new object) and members not corresponding to any field are ignored, in all cases without reporting an error.",
  ["inputs", "programs"], "every subset and permutation of a class's members and every placement of additional members, at every nesting level and across base classes",
  "The tests contain documents with few members missing and in declaration order.",
  [JR, JH, GJ], [("pull() of a member", JR)])
p("C09", "Binary round trip restores an equal object and consumes exactly its bytes",
  "Writing any sequence of objects of supported types in binary format and reading the same types back yields equal objects, each read consuming exactly the bytes the corresponding write produced, even when the objects read into have previous contents. "
  "This holds for generated and Boost.Hana reflection, via BinarySerializable and via BinarySerializer/BinaryDeserializer.",
  ["inputs", "histories", "programs"], "all values of all supported types and all sequences of such values in a stream",
  "The tests round-trip few objects and read them into fresh targets; length-encoding boundaries and objects following each other are not covered.",
  [BR, BS, BH, GB], [("BinarySerializer::write / BinaryDeserializer::read", BR), ("generated readCustomType/writeCustomType", GB)])
p("C10", "The binary format is the fixed, platform independent encoding",
  "The bytes written for an object are exactly the concatenation of its fields in declaration order (base classes first): fixed-size big-endian numbers, one byte booleans, length-prefixed strings and containers, presence byte before optionals and unique pointers, index byte before variants, enums as underlying type. "
  "Data in that encoding is read back to the values it denotes; the encoding does not depend on history or configuration (other than shared pointer IDs).",
  ["inputs", "programs"], "all values of all supported types",
  "The tests compare one fixed byte sequence.",
  [BR, BH, GB], [("write()/read() overloads", BR)])
p("C11", "Binary (de)serialisation preserves the shared pointer graph",
  "After a binary round trip of one object, two shared pointers of the same type point to the same object if and only if they did before, null pointers stay null and each pointed-to object is equal to the original and stored only once; this includes cyclic graphs. "
  "Deserialising several objects one after the other does not create pointers between them or dangling references.",
  ["inputs", "histories"], "all graphs of shared pointers over a few nodes, in members, containers, optionals and variants, and any pointer value",
  "One test with a single shared object; no cycles, no mix of types, no repeated deserialisation.",
  [BR], [("shared_ptr read/write with object IDs", BR)])
p("C12", "Corrupt binary input leads to an exception, never to undefined behaviour",
  "Reading any byte sequence either succeeds or throws an exception. "
  "Every truncation of valid data throws, an out-of-range variant index, an invalid length prefix and a reference to a pointer of another type or to an unknown pointer throw ConversionException, and no input leads to out-of-bounds access, use of uninitialised memory or a leak.",
  ["inputs", "crash_points"], "every truncation point, every single-byte (and bounded multi-byte) mutation of valid data and every short byte string, for all supported types",
  "The tests contain one truncated and one mistyped input.",
  [BR], [("readVariantValueByRuntimeIndex()", BR), ("any_cast of referenced pointer", BR)])
p("C13", "Binary versioning reads and writes exactly the members of a version",
  "A versioned type is written with the requested version (or its own when none is requested) prepended, and exactly the members whose as_of_version/until_version markers include that version are written and read (a later marker amends the range of the previous ones, dropping what contradicts it); the version is propagated to nested unversioned types and members outside of the version keep their values. "
  "Reading data with a version higher than supported throws VersionNotSupported with the present version, the supported version and the record; restoreFromBinary returns the version found.",
  ["programs", "inputs", "configurations"], "all placements of version markers among members, all versions requested when writing, nested and derived (un)versioned types",
  "One generated struct with one marker layout is tested.",
  [GB, VE, BS, BR], [("MemberTracking", GB), ("Versioning traits", VE)])
p("C14", "Generated code covers exactly the right members of a class",
  "For every class the generated code (de)serialises each non-static data member exactly once: public members always, private/protected ones only with the corresponding friend declaration, members of (directly or indirectly) serialisable base classes via the base; constant members are not read (and not written to binary) and static members and functions are ignored.",
  ["programs"], "all class shapes: access sections, const/static members, private-member macros, single/multiple/multi-level/virtual inheritance of serialisable and other bases",
  "The generator tests compare the output for a dozen fixed classes.",
  [GJ, GB, GS], [("field loop and friend detection", GJ), ("decl loop", GB), ("findRelevantBaseClasses()", GS)])
p("C15", "The generator emits code for exactly the relevant classes",
  "Code is generated once for every complete class at namespace or class scope which is adapted in the main input file via the MAKE_..._SERIALIZABLE macro or which is defined in the main input file and directly inherits from the serialisable base of that format or is listed via --json-classes/--binary-classes, and for no other class; namely not for forward declarations, other classes from included headers, class templates or unrelated classes. "
  "The generated code names each class by its fully qualified name, compiles and is marked with the requested visibility, and only the generators selected are run; classes which are not default constructible get serialisation only.",
  ["programs", "configurations"], "all combinations of where and how a class is declared (namespaces, nesting, includes, forward declarations, adaption) and generator options",
  "A fixed input file and fixed options are tested.",
  [GS, GJ, GB, GM, "generator/codegenerator.cpp"], [("computeRelevantClass()", GS), ("options", GJ), ("generator selection", GM)])
p("C16", "The generator is deterministic and reports every failure via its exit status",
  "Running the generator twice on the same input yields identical output and status 0 only if the input could be parsed and all output has been written. "
  "Unknown generators, unreadable or erroneous input (unless turned into warnings via --error-resilient) and any failure opening, writing, flushing or closing the output lead to a non-zero exit status.",
  ["fault_sequences", "configurations"], "every I/O operation on the output failing, every invalid input/option combination",
  "The tests neither run the executable nor inject faults.",
  [GM, GF, GC], [("main()", GM), ("DiagConsumer", GC)])
p("C17", "Generated code and Boost.Hana reflection are equivalent",
  "For classes supported by both, the generated code and the Boost.Hana based reflection produce the same JSON text and the same binary data for every object, and deserialise every input to the same object with the same errors, except for the record name not provided by Boost.Hana. "
  "Consequently data written by one can be read by the other.",
  ["inputs", "programs"], "all values and all input documents for classes supported by both",
  "Both are tested separately on different structs.",
  [JH, BH, GJ, GB], [("hana push()/pull()", JH), ("hana readCustomType/writeCustomType", BH), ("generated specialisations", GJ)])
p("C18", "Date, time and duration values are preserved and validated",
  "DateTime and TimeSpan members are serialised to JSON as ISO-8601 and time span strings and restored to the same instant or (for non-negative durations below 100000 hours) to the same duration within one tick; the binary form keeps every tick. "
  "A JSON string which cannot be parsed as such yields one conversion error and a value of another JSON type one type mismatch, both leaving the member unchanged.",
  ["inputs"], "all instants/durations incl. leap years, midnight, sub-second fractions, time zone suffixes, and all malformed strings",
  "The tests check one value and one malformed string.",
  [JC, BC], [("push/pull<DateTime/TimeSpan>", JC), ("read/writeCustomType<DateTime/TimeSpan>", BC)])
p("C19", "Concurrent (de)serialisations do not influence each other",
  "Threads (de)serialising distinct objects at the same time (or serialising the same unmodified object or deserialising from the same document) get the same results as when running one after the other, for every interleaving, without data races. "
  "The same holds for (de)serialisations nested into each other within one thread.",
  ["schedules"], "all interleavings of two or three (de)serialisations of any kind",
  "The tests are single-threaded.",
  [JR, BR, JE], [("stateless push()/pull()", JR), ("per-object pointer table", BR)])
p("C20", "Binary I/O faults and partial transfers are handled at every point",
  "Reading yields the same object no matter in which portions the stream provides the data, and writing produces the same bytes no matter in which portions the stream takes them. "
  "If the stream fails at any byte, the failure is reported to the caller as exception, no bytes beyond those the object occupies are consumed, nothing is leaked and the stream holds a prefix of the correct data; afterwards a new attempt on an intact stream succeeds.",
  ["fault_sequences", "crash_points"], "every portioning and every failing position for every supported type",
  "The tests use in-memory string streams which never fail.",
  [BR, BS], [("BinaryDeserializer/BinarySerializer", BR)])
p("C21", "Formatted deserialisation errors identify the error unambiguously",
  "Formatting any deserialisation error names its kind, for type mismatches the expected and actual JSON type, and its location: record and member if known, otherwise record and index, otherwise the record, otherwise the document. "
  "Errors with different kind, location (as far as shown) or types have different texts.",
  ["inputs"], "all combinations of kind, expected type, actual type, record, member and index",
  "The tests format one error of each kind.",
  ["lib/json/errorformatting.h"], [("formatJsonDeserializationError()", "lib/json/errorformatting.h")])
p("C22", "Custom containers and third-party classes behave like built-in ones",
  "A type declared via a TREAT_AS_MAP_OR_HASH/MULTI_MAP_OR_HASH/SET/MULTI_SET macro is (de)serialised in JSON and binary exactly like the standard container it is treated as, including errors reported for mismatches. "
  "A class adapted via MAKE_JSON_SERIALIZABLE/MAKE_BINARY_SERIALIZABLE is (de)serialised exactly like one inheriting from the serialisable base, on top level and nested in any container.",
  ["inputs", "programs"], "all contents of custom containers and adapted classes, at all positions",
  "The tests use one custom container in one test.",
  [TR, JR, JS, BS, JE], [("TreatAs... traits", TR), ("IsJsonSerializable", JR), ("AdaptedBinarySerializable", BR)])
p("C23", "The CMake macro invokes the generator once per input with all arguments",
  "add_reflection_generator_invocation() runs the generator exactly once for each input file, writing <output directory>/<name>.h, and passes on the generators, Clang options (own and of all specified targets and dependencies), classes, visibility and error resilience given to it; the paths are appended to every output list. "
  "The generator is run again when an input file changes.",
  ["configurations"], "all combinations of the macro's arguments",
  "The tests use the macro for two fixed invocations.",
  ["lib/cmake/modules/ReflectionGenerator.cmake"], [("add_reflection_generator_invocation()", "lib/cmake/modules/ReflectionGenerator.cmake")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
