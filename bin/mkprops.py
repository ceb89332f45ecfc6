#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

p("C01", "Bit sets behave as finite sets of non-negative integers",
  "After any sequence of bit-set operations (set, clear, flip, valued set, union, intersection, symmetric difference, difference-style masking, union-of-intersection, swap, copy, assignment, construction from an integer list) the bit set contains exactly the integers the corresponding set-theoretic operations give. Membership, cardinality, emptiness, logical size, forward scans for the next set or next clear bit, intersection tests, equality, inequality and printing all agree with that set, however the set was reached and whatever the operands' sizes. In particular two bit sets with the same members are always equal and indistinguishable through every observer.",
  ["histories", "inputs"], "all finite operation sequences on several bit sets and all indices, including ones straddling 64-bit word boundaries",
  "testBitSet samples a handful of fixed sets; canonical-form bugs need particular histories (e.g. clearing the top word, or combining sets of different word counts).",
  ["src/misc/bitSet.cpp", "src/misc/pv/bitSet.h"],
  [("word vector with no trailing zero words", "BitSet::recalculateWordsInUse"), ("word-wise operators", "BitSet::operator&=,|=,^=,-=,or_and")],
  ["public methods of BitSet"])

p("C02", "Bit sets survive the wire and have one canonical encoding",
  "Serializing a bit set and deserializing the bytes yields an equal bit set, for either byte order and however the transport cuts the stream into buffers. The encoding is the canonical one: a size prefix holding the number of significant bytes (eight times the number of full 64-bit words below the last, plus the bytes of the last word up to its highest non-zero byte), then each complete 64-bit word in the stream's byte order and the bytes of an incomplete last word least-significant first, so equal sets always encode to identical bytes. Deserializing replaces whatever the target held, accepts non-canonical byte strings by value, and consumes exactly the encoded bytes.",
  ["inputs", "histories"], "all bit sets, byte orders, buffer segmentations and prior target contents",
  "tests encode a few sets in one big buffer; tail handling depends on bit position mod 64 and on where the buffer ends.",
  ["src/misc/bitSet.cpp", "src/misc/pv/serialize.h"],
  [("tail-word encoding", "BitSet::serialize"), ("tail-word decoding", "BitSet::deserialize")], ["bytes produced", "bytes consumed", "decoded set"])

p("C03", "Byte buffers obey their cursor, window and byte-order laws",
  "A byte buffer always keeps 0 <= position <= limit <= capacity, and its remaining count, clear, flip, rewind, limit and position operations move only those cursors as documented. A scalar or array put at some place is read back unchanged by the matching get at that place, occupies exactly the type's size, is laid out in the buffer's configured byte order, and no operation disturbs bytes outside the range it writes.",
  ["histories", "inputs"], "all operation sequences on buffers of any capacity, offset, byte order and element type (within the documented preconditions)",
  "tests exercise a straight-line script in one or two configurations.",
  ["src/misc/pv/byteBuffer.h", "src/misc/byteBuffer.cpp"],
  [("cursor pointer arithmetic", "ByteBuffer"), ("swap on foreign endianness", "ByteBuffer::put/get/putArray/getArray")], ["public methods of ByteBuffer", "raw bytes"])

p("C04", "Sizes, strings and array headers use the canonical wire form",
  "Every size written is encoded in its unique shortest form (one byte below 254, otherwise 254 and four bytes; 255 for the null size) and read back as the same number, and every string is written as its byte length and its bytes and read back identical, including the empty string, embedded NULs and strings longer than the transport buffer. A string slice writes exactly the requested portion of the string. All of this holds for both byte orders and for every way the transport splits the byte stream.",
  ["inputs"], "all sizes, strings, slices, byte orders and buffer segmentations",
  "tests round-trip a few strings through a single large buffer, and never write slices.",
  ["src/misc/serializeHelper.cpp", "src/misc/pv/serializeHelper.h"],
  [("size prefix", "SerializeHelper::writeSize/readSize"), ("chunked string copy", "SerializeHelper::serializeString/deserializeString/serializeSubstring")],
  ["bytes produced/consumed", "decoded values"])

p("C05", "Whole values survive serialization unchanged in the documented format",
  "Serializing any value (scalar, array, structure, union, and nested arrays of structures or unions, with null elements and unselected unions) and deserializing it into another value of the same type yields an equal value, whatever the target held before. The bytes are exactly those the wire format prescribes for the chosen byte order, and neither they nor the result depend on how the transport segments the stream or on whether it offers direct array transfer. Deserializing consumes exactly the bytes serialization produced.",
  ["inputs", "histories"], "all types and values, prior target contents, byte orders, buffer sizes and direct-transfer choices",
  "testSerialization round-trips a sampled list with one flush policy; segmentation and stale-target bugs need particular buffer positions and prior contents.",
  ["src/factory/PVField.cpp", "src/factory/PVStructure.cpp", "src/factory/PVUnion.cpp", "src/factory/PVUnionArray.cpp", "src/factory/PVStructureArray.cpp", "src/factory/PVDataCreateFactory.cpp"],
  [("per-kind serialize/deserialize", "PVScalarValue/PVValueArray/PVStructure/PVUnion")], ["bytes produced/consumed", "decoded value"])

p("C06", "Partial updates transfer exactly the selected fields",
  "Serializing a structure under a changed-field set writes exactly the selected fields (selecting a structure selects everything beneath it) in field order, and deserializing under the same set changes exactly those fields of the target to the source's values and leaves every other field untouched. Serializing a slice of an array writes exactly the elements of that slice that exist. The result is independent of buffer segmentation.",
  ["inputs"], "all structures, values, changed sets (including redundant and nested bits), slices and segmentations",
  "tests use one or two hand-written masks on one structure.",
  ["src/factory/PVStructure.cpp", "src/factory/PVDataCreateFactory.cpp", "src/factory/PVUnionArray.cpp", "src/factory/PVStructureArray.cpp"],
  [("mask-driven walk", "PVStructure::serialize/deserialize(BitSet*)"), ("slice clipping", "SerializableArray::serialize(offset,count)")], ["bytes produced", "target value"])

p("C07", "Type descriptions survive the wire and decode to the canonical type",
  "Serializing any type description and deserializing the bytes gives a description equal to the original, with the same kind, element type, bound, identifier, field names, field order and nesting, and it is the very same shared object while the original is alive. The bytes are exactly those of the documented type-description format for the byte order in use, and decoding consumes exactly those bytes regardless of buffer segmentation.",
  ["inputs"], "all constructible types, nested to any depth, byte orders and segmentations",
  "tests cover a fixed catalogue of types.",
  ["src/factory/FieldCreateFactory.cpp"],
  [("per-kind type codes", "Scalar/ScalarArray/Structure/Union::serialize"), ("decoder", "FieldCreate::deserialize")], ["bytes", "decoded Field"])

p("C08", "Malformed wire input is rejected, never obeyed",
  "Decoding an arbitrary byte string as a type description, a value, a partial update, a bit set, a string, a status or a nested any-typed value either succeeds with a well-formed result or throws a standard exception; it never crashes, reads outside the input, or leaves an object violating its own type (selected member outside the union, array exceeding its bound or fixed size, string exceeding its bound, null where a type is required). In particular every truncation and every single-byte corruption of a valid encoding is handled this way.",
  ["inputs", "fault_sequences"], "all byte strings, in particular all truncations and corruptions of valid encodings",
  "tests decode only well-formed streams plus one over-long bit set.",
  ["src/factory/FieldCreateFactory.cpp", "src/factory/PVUnion.cpp", "src/factory/PVUnionArray.cpp", "src/factory/PVStructureArray.cpp", "src/factory/PVDataCreateFactory.cpp", "src/misc/serializeHelper.cpp", "src/misc/status.cpp", "src/misc/bitSet.cpp"],
  [("type-code dispatch and checks", "FieldCreate::deserialize"), ("selector check", "PVUnion::deserialize"), ("length checks", "checkLength")], ["exception or decoded object"])

p("C09", "Status objects keep, encode and combine outcomes faithfully",
  "A status reports exactly the kind, message and stack dump it was given; it counts as success exactly for OK and warning, and as plain OK only for OK. Serializing and deserializing preserves all three parts (the default OK status taking a single byte), and resetting or reusing an object leaves nothing of its earlier content. Maximizing keeps the most severe of the two statuses, with the first of equally severe ones winning.",
  ["inputs", "histories"], "all statuses, texts, encode/decode orders and combinations",
  "there is almost no existing coverage of status combination or of decoding into a used object.",
  ["src/misc/status.cpp", "src/misc/pv/status.h"], [("type byte or OK marker", "Status::serialize/deserialize"), ("severity order", "Status::maximize")], ["public methods", "bytes"])

p("C10", "Shared arrays never leak mutations across owners",
  "A shared array value behaves as an independent window (offset, length, capacity) on reference-counted storage: slicing, copying, freezing, thawing and casting change no element, and the element sequence each handle shows changes only through that handle or through a mutable handle deliberately sharing the same storage. Once frozen, data seen through a read-only handle never changes; thawing or requesting uniqueness yields a private copy exactly when the storage is shared; freezing data that is still shared with another mutable handle is refused. Resizing, reserving, appending and removing preserve all surviving elements and never reach outside the owned range, and out-of-range indexed access throws.",
  ["histories", "inputs"], "all operation sequences over several handles that share or do not share storage, for plain and non-trivial element types and untyped handles",
  "testSharedVector walks fixed scripts; aliasing bugs need a specific history of shares, slices and appends.",
  ["src/misc/pv/sharedVector.h"], [("reference count and offsets", "shared_vector_base"), ("copy on write", "shared_vector::make_unique, thaw, freeze")], ["contents, size, capacity, uniqueness of every handle"])

p("C11", "Equal types are one shared object, unequal types never compare equal",
  "At any moment, two live type descriptions with the same kind, element type, bound, identifier, field names, field order and field types are the same shared object, no matter which creator, builder, decoder or thread produced them; and any two that differ in one of these compare unequal. Type comparison is therefore an equivalence consistent with structure, and creation stays correct while other threads create and release the same types.",
  ["histories", "schedules", "inputs"], "all pairs of constructible types, all creation/release histories and all interleavings of concurrent creators",
  "tests compare a few types single-threadedly; bounded and fixed-size types are barely compared, and cache races need schedules.",
  ["src/factory/FieldCreateFactory.cpp", "src/factory/Compare.cpp"], [("weak cache keyed by content hash", "FieldCreate::Helper::cache"), ("structural comparison", "compareField")], ["object identity", "operator=="])

p("C12", "Type construction yields exactly what was asked for or refuses",
  "Every type-construction route (direct creators, appending fields, the fluent builder with nesting, starting from an existing type, repeated calls) yields a type with exactly the requested identifier, and the requested fields in order with their exact types, and lookup by name, index and position agree with that order. Illegal requests - empty or malformed names, duplicate names, mismatched counts, missing types, unbalanced nesting, arrays of bounded strings, zero string bounds - are refused with an exception and leave previously built types unchanged.",
  ["inputs", "histories"], "all builder call sequences and creator arguments",
  "tests exercise a few valid builders and a few errors.",
  ["src/factory/FieldCreateFactory.cpp", "src/pv/pvIntrospect.h"], [("name checks", "Structure/Union constructors"), ("builder state", "FieldBuilder")], ["resulting type or exception"])

p("C13", "Every structure instance has a consistent field numbering and tree",
  "In every structure instance the root has offset 0 and the fields are numbered depth-first without gaps, so that each field's offset, next offset and field count delimit exactly its own subtree. Looking a field up from an enclosing structure by its offset or by its dotted name relative to that structure returns that same field, its parent, name and full name are those of its position, typed lookup fails exactly when the type differs, and lookups of anything else fail without side effect. New instances start with the default value of every field.",
  ["inputs"], "all structure types and all offsets, dotted names and typed lookups",
  "tests check offsets on a few fixed structures.",
  ["src/factory/PVStructure.cpp", "src/factory/PVField.cpp", "src/factory/PVDataCreateFactory.cpp"], [("lazy offset computation", "PVField::computeOffset"), ("name and offset lookup", "PVStructure::getSubFieldImpl/getSubFieldT")], ["getFieldOffset, getNextFieldOffset, getNumberFields, getSubField, getFullName, getParent"])

p("C14", "Copies are faithful, selective and independent",
  "Copying a value onto another of the same type, copying only the fields selected by a changed set, and creating a clone each make exactly the intended fields of the target equal to the source and change nothing else - the source, and every field not selected, keep their value, identity, parent and position. Afterwards modifying either side through the ordinary put, select, replace and append operations never changes the other (elements of arrays of structures and of unions are the exception: such arrays share their elements by reference until they are replaced). Copying between different types is refused before anything has changed.",
  ["inputs", "histories"], "all types, values, masks, and all sequences of later modifications of either side",
  "tests copy flat samples and do not mutate both sides afterwards.",
  ["src/factory/PVStructure.cpp", "src/factory/PVUnion.cpp", "src/factory/PVUnionArray.cpp", "src/factory/PVStructureArray.cpp", "src/factory/PVDataCreateFactory.cpp", "src/factory/PVField.cpp"],
  [("copy/copyUnchecked", "PVField::copy"), ("clone", "PVDataCreate::createPVField/createPVStructure/createPVUnion")], ["values of source and target", "object identity"])

p("C15", "A union always holds a value of the member it says is selected",
  "A union is either unselected with no value, or it names one of its members and holds a value of exactly that member's type; a variant union holds no value or any value. Selecting a different member by index or name gives that member a fresh default value and selecting the current member keeps its value; setting a value selects the named member only if the value has exactly its type. Selecting or setting an undefined member or a mistyped value throws and leaves the union as it was.",
  ["histories", "inputs"], "all sequences of select, set, get, copy and decode on regular and variant unions",
  "testPVUnion follows scripts; state-after-refusal is not checked.",
  ["src/factory/PVUnion.cpp", "src/factory/PVDataCreateFactory.cpp"], [("selector and value pair", "PVUnion::select/set")], ["getSelectedIndex, getSelectedFieldName, get, numberFields"])

p("C16", "Scalar arrays keep their declared length discipline",
  "A scalar array's contents, length and capacity change only as requested: setting the length truncates, or extends keeping every existing element (the interface leaves the value of added elements open), capacity never falls below what is stored and never changes contents, and replacing, swapping or putting yields exactly the given elements while handles taken earlier keep showing the old ones. A bounded array never exceeds its bound, a fixed array always has its size, a capacity-frozen array refuses requests to change its capacity; any such request, and resizing, swapping or copying into an immutable array, throws and changes nothing (the primitive exchange swap() itself leaves the length and capacity of what is put in to its caller, and replace() and putFrom() are not required to check for immutability).",
  ["histories", "inputs"], "all operation sequences on variable, bounded and fixed arrays of every element type",
  "testPVScalarArray covers a fixed script without checking state after refusal.",
  ["src/factory/PVDataCreateFactory.cpp", "src/factory/PVArray.cpp", "src/factory/PVScalarArray.cpp"], [("length check", "PVValueArray::checkLength"), ("capacity and immutability flags", "PVArray")], ["view, getLength, getCapacity, exceptions"])

p("C17", "Arrays of structures and unions keep their elements",
  "In an array of structures or unions, appending adds exactly the requested number of fresh default elements at the end, removing deletes exactly the given range, compressing deletes exactly the null elements, and setting the length truncates or extends (with elements the interface leaves open); all surviving elements keep their identity, order and contents. Setting the current length or any capacity changes no element. Replacing or swapping yields exactly the given elements, while earlier views keep showing the old ones, and requests outside the array are refused without change.",
  ["histories", "inputs"], "all operation sequences on structure arrays and union arrays",
  "tests perform one short script per kind.",
  ["src/factory/PVStructureArray.cpp", "src/factory/PVUnionArray.cpp"], [("element vector edits", "PVStructureArray::append/remove/compress/setLength")], ["view() and element identity"])

p("C18", "Value equality is an equivalence determined by type and contents",
  "Two values compare equal exactly when they have the same type and the same contents, recursively through structures, arrays, unions (same selection) and null elements; comparison never throws or crashes for any pair. Hence equality is reflexive (NaN aside), symmetric and transitive, and unequal is its exact negation.",
  ["inputs"], "all pairs and triples of values of all types",
  "testOperators compares a few equal/unequal samples; mixed null/unselected combinations are untested.",
  ["src/factory/Compare.cpp"], [("recursive comparison", "compareField")], ["operator==, operator!="])

p("C19", "Scalar conversion preserves the value or reports failure",
  "Converting a scalar between any two scalar types gives the mathematically same value whenever it is representable in the target (the nearest or a neighbouring floating point number where it is not), integer narrowing keeps the low-order bits, fractions are dropped toward zero, numbers and booleans are not converted into each other, and double to float clips finite numbers to the float range. Printing an integer, boolean or string as text and parsing it back yields the same value; a floating-point number is printed with its six leading digits correctly rounded. Parsing text accepts the textual forms of in-range values (decimal, hex, octal with optional sign and surrounding white space; true/false for booleans) with exactly their value and throws for anything else, except that unsigned targets may also take texts which name a value modulo 2^64, leaving a target field unchanged on failure. The same rules apply to single values, to field get/put-as, to whole arrays and to the untyped array interface, where a failure names the failing element. (Floating-point values outside an integer target's range, and texts with NUL, are not covered.)",
  ["inputs"], "all values and all pairs of source and target types; all strings",
  "testTypeCast samples a few dozen values.",
  ["src/misc/typeCast.cpp", "src/misc/parseToPOD.cpp", "src/misc/pv/typeCast.h", "src/factory/PVScalar.cpp", "src/factory/PVScalarArray.cpp"], [("cast table", "castUnsafeV"), ("parsers", "parseToPOD")], ["castUnsafe, getAs, putFrom, castUnsafeV"])

p("C20", "The text conversion facade places and formats elements exactly",
  "Converting between scalar arrays and arrays of strings transfers exactly the requested number of elements, bounded by what the source holds, from the requested source position to the requested target position, changes no other element and returns the number transferred; a transfer which the target cannot hold or an element which cannot be converted is refused and changes nothing. Reading an array from comma-separated text, with or without enclosing brackets ('[]' lists nothing), yields exactly the listed elements; reading a structure from texts gives each scalar or array field in order one text, and too few texts are refused. A field whose text cannot be converted keeps its value. Writing values out and reading them back restores them, and numeric getters return the stored value in the requested type.",
  ["inputs"], "all arrays, offsets, lengths and texts",
  "testConvert uses offset zero and simple lists.",
  ["src/factory/Convert.cpp", "src/pv/convert.h"], [("array slicing", "Convert::fromStringArray/toStringArray"), ("text split", "Convert::fromString")], ["array contents, return values"])

p("C21", "Sub-array copy moves exactly the requested elements",
  "Copying a strided sub-array from one array into another makes element (toOffset + i*toStride) of the target equal to element (fromOffset + i*fromStride) of the source for exactly the requested count, and leaves every other existing element of the target unchanged; the target grows no further than needed and other new elements have the default value. Requests with zero strides, different element types, an immutable target, more elements than the source holds from there, a target position that cannot be represented, or a result that a fixed or bounded target cannot hold, are refused with no change. Source and all other holders of either array's data are never modified.",
  ["inputs"], "all lengths, offsets, counts and strides, for every array kind",
  "tests cover few offsets and never ones past the source end.",
  ["src/factory/pvSubArrayCopy.cpp", "src/pv/pvSubArrayCopy.h"], [("index arithmetic", "copy(...)")], ["target and source contents"])

p("C22", "Compressing a changed set keeps its meaning",
  "Compressing a changed-field set against a structure turns it into the minimal equivalent set: the same leaf fields remain selected when selecting a structure means selecting everything in it, a structure whose every field is selected is represented by its own bit alone, and no bit lies beneath a selected structure. The result says whether anything at all is selected, and compressing again changes nothing.",
  ["inputs"], "all structures and all changed sets",
  "testBitSetUtil tries one structure and a few masks.",
  ["src/pvMisc/bitSetUtil.cpp", "src/pvMisc/pv/bitSetUtil.h"], [("recursive check", "BitSetUtil::compress")], ["resulting bit set and return value"])

p("C23", "Request strings are parsed into exactly the structure they describe",
  "Parsing a well-formed request string yields a structure with exactly the requested sections (record, field, getField, putField in this order), fields, nested fields and option values, in order, insensitive to blanks and to whether nesting is written with dots or braces. An ill-formed string (unbalanced brackets, empty names or options, missing values, duplicated fields) is reported as an error - by exception or by null result with a message - and never yields a partial structure or disturbs later parses. What a string means that has text outside its sections, repeats a section or an option, has empty option values or brackets in them, or names a field _options is left open.",
  ["inputs", "histories"], "all request strings of the documented grammar, and all corruptions of them; sequences of parses with one parser",
  "testCreateRequest checks a fixed list of strings.",
  ["src/copy/createRequest.cpp", "src/copy/pv/createRequest.h"], [("recursive descent over the text", "CreateRequestImpl")], ["returned structure or error"])

p("C24", "Request mapping relates exactly the selected fields both ways",
  "For a given structure and request, the requested structure contains exactly the selected fields that exist, in request order: whole sub-trees where the request names nothing further (or is deeper than five levels), otherwise sub-structures with exactly the named fields; the full structure in mask mode. Partial structures keep their identifiers only if the request says so (keepIDs). The reported mask marks exactly those fields and their enclosing structures. Copying to the requested structure and back transfers exactly the values selected by both the request and the given mask (marking a structure selects everything beneath it) and marks exactly the corresponding bits, leaving everything else untouched; in mask mode marks of fields not requested are ignored. Translating a mask agrees with what copying would mark. Requests selecting nothing, requests malformed at any level and structures which are not top-level are refused, leaving the mapper as it was.",
  ["inputs", "histories"], "all base structures, requests, modes and change masks",
  "tests use one base structure and few requests.",
  ["src/copy/requestmapper.cpp"], [("offset maps both ways", "PVRequestMapper::compute/_map/_mapMask")], ["requested(), requestedMask(), copied values and masks"])

p("C25", "JSON output is faithful and can be read back",
  "Printing any value as JSON (its strings UTF-8) yields a syntactically valid document whose names, nesting, numbers, booleans and strings are exactly those of the value (null for an empty union or element; floating point numbers to the nearest double); not-a-number and infinities are refused unless JSON5 is asked for. Reading it into a fresh value of the same type restores all scalar, array and structure contents, if the value is without unions, null elements, subnormal floats and integers within 8 of the ends of the 64 bit range (which the JSON parser of EPICS Base refuses). With a changed mask exactly the selected fields with everything beneath them and their enclosing structures appear, and nothing at all for an empty mask. Compact and multi-line options change only white space.",
  ["inputs"], "all values of JSON-representable types and all masks",
  "testjson compares a few fixed documents.",
  ["src/json/jprint.cpp", "src/json/parseany.cpp", "src/json/parseinto.cpp"], [("recursive printer", "show_field/show_struct"), ("mask expansion", "expandBS")], ["JSON text", "re-read value"])

p("C26", "JSON input assigns exactly what it says or fails cleanly",
  "Reading a JSON document into an existing structure (or field of one) assigns exactly the named fields (a name may lead through structures, a.b), the last value given for a field winning, arrays being replaced, with scalar conversion as for a put; it marks exactly the assigned leaf fields and leaves all other fields unchanged. A union takes a scalar into its first scalar member which accepts it, and a variant a new long, double, string or boolean. Reading into a new value builds the structure described: nested objects structures, numbers longs or doubles, arrays of one kind of scalar, the last value for a name winning. Unknown names, values of the wrong shape or exceeding a bound, nulls, malformed or truncated documents, trailing junk, nesting beyond 128 (into a new value) and failing streams are rejected with an exception and never corrupt memory, hang or abort; what a rejected document does not name stays unchanged. Line breaks and comments between tokens do not change the outcome. Whether the extensions of JSON5, numbers beyond 64 bits, and empty arrays (into a new value) are accepted is not specified.",
  ["inputs"], "all JSON documents, well-shaped or not, against all target types",
  "tests cover a few well-shaped documents and errors.",
  ["src/json/parseinto.cpp", "src/json/parseany.cpp", "src/json/parsehelper.cpp"], [("field stack driven by parser events", "jtree_* callbacks")], ["target values, assigned mask, exceptions"])

p("C27", "Time stamps are always normalized and ordered by the time they denote",
  "A time stamp constructed, put or advanced by whole or fractional seconds always has 0 <= nanoseconds < 10^9 and denotes exactly the arithmetic result (to within rounding of the fractional seconds). The six comparison operators agree with the order of the times denoted for every pair, however far apart, and difference, seconds, milliseconds and C-time conversions agree with it too.",
  ["inputs", "histories"], "all seconds/nanoseconds pairs and all operation sequences, including negative and carry cases",
  "testTimeStamp samples current times and small deltas.",
  ["src/property/timeStamp.cpp", "src/property/pv/timeStamp.h"], [("normalize", "TimeStamp::normalize"), ("comparison", "TimeStamp::diffInt")], ["public methods"])

p("C28", "Property helpers mirror the fields they are attached to",
  "A property helper (alarm, time stamp, control, display, enumerated) attaches exactly to structures having the required fields with the required types, reports whether it is attached, and after a failed attach or a detach is not attached and refuses to get or set. While attached, get returns the current field contents, set makes the fields equal to the given value, reports whether anything changed, and touches no other field; immutable fields make set report failure without change.",
  ["histories", "inputs"], "all attach/detach/get/set sequences over suitable and unsuitable structures and all values",
  "testProperty follows one happy path per helper.",
  ["src/property/pvAlarm.cpp", "src/property/pvTimeStamp.cpp", "src/property/pvControl.cpp", "src/property/pvDisplay.cpp", "src/property/pvEnumerated.cpp", "src/property/alarm.cpp"], [("cached field pointers", "PVAlarm etc.")], ["public methods", "field values"])

p("C29", "The value builder builds exactly the value described",
  "A structure built with the value builder has exactly the identifiers, fields, nesting and initial values given, the last value given for a name winning, its fields in the order of their names; cloning an existing structure of scalars and structures into a builder and building reproduces its identifiers, types and values (a bounded string becomes an unbounded one), and other structures are refused. Opening a nested structure again continues it and sets its identifier. Illegal sequences (replacing a structure by a scalar or the reverse, a nested member which is not a structure, ending at the wrong level, bad names at the latest when building) are refused and change nothing, except that a refused addition of a structure may have been made in part. A builder can be reused: building twice gives equal, independent values, and nothing is leaked.",
  ["histories", "inputs"], "all builder call sequences", "tests run one or two builder scripts.",
  ["src/pv/valueBuilder.cpp", "src/pv/valueBuilder.h"], [("child map", "ValueBuilder::_add/addNested/buildPVStructure")], ["built structure or exception"])

p("C30", "The any-scalar holds one typed value without loss or leak",
  "An any-scalar is either empty or holds exactly one value with its scalar type; assignment, copying, construction from raw data, swapping and clearing transfer the exact value and type and leave the source as value semantics require. Reading by reference works exactly for the stored type and throws otherwise, converting reads follow the scalar conversion rules, and copies are independent.",
  ["histories", "inputs"], "all operation sequences over several any-scalars of all types, short and long strings",
  "testanyscalar performs one script.",
  ["src/misc/anyscalar.cpp", "src/misc/pv/anyscalar.h"], [("tagged buffer", "AnyScalar")], ["type, value, exceptions"])

p("C31", "Timers run each scheduled callback once, in time order, never early",
  "Every callback scheduled on an open timer and not cancelled runs, once per scheduling (or once per period for a periodic one), not before its due time, and promptly when it is due; callbacks due at different times run in due-time order and callbacks due at the same time in scheduling order. Callbacks run one at a time on the timer's thread without the timer being locked, so they may schedule, cancel or query callbacks, including rescheduling themselves.",
  ["schedules", "histories"], "all interleavings of schedule/cancel/query calls from several threads and from callbacks with the timer thread, and all due times",
  "testTimer runs two callbacks in real time.",
  ["src/misc/timer.cpp", "src/misc/pv/timer.h"], [("sorted queue under one mutex", "Timer::addElement"), ("run loop", "Timer::run"), ("wake-up rule", "Timer::schedulePeriodic")], ["callback invocations with (virtual) time"])

p("C32", "Timer cancellation, query and close leave no callback unaccounted for",
  "Cancel returns true exactly when the callback was queued, and then that scheduling never runs; isScheduled tells whether it is queued, and scheduling an already queued callback is refused without effect. Closing stops the timer for good: callbacks still queued, and any scheduled afterwards, are told exactly once that the timer stopped and never run, a callback in progress finishes before the close that stops the timer returns, and no callback runs after that. Closing twice, or destroying the timer, is harmless, and none of this deadlocks.",
  ["schedules", "histories"], "all interleavings of cancel, query, schedule and close with each other and the timer thread",
  "testTimer cancels once; close races are untested.",
  ["src/misc/timer.cpp"], [("alive flag and drain", "Timer::close"), ("queue membership flag", "Timer::cancel")], ["return values, callback and timerStopped invocations"])

p("C33", "Events and threads synchronize without lost or invented wake-ups",
  "An event is a binary flag: signalling sets it, each successful wait or try-wait consumes it, a wait on a set event returns immediately, a timed wait on an unset event returns false only after its timeout, and a signal is never lost or delivered twice. A started thread runs its body exactly once (never, if it is told to exit before the body began) under its requested name, and waiting for its exit returns only after the body has finished; an unstarted one does not run until started. A lock guard holds its mutex exactly while it says it does, so no two threads are ever inside the same one.",
  ["schedules", "histories"], "all interleavings of signals, waits and thread starts among several threads",
  "testEvent/testThread run one schedule.",
  ["src/misc/event.cpp", "src/misc/thread.cpp", "src/misc/pv/thread.h", "src/misc/pv/lock.h"], [("OS event wrapper", "Event"), ("config and runner ownership", "Thread")], ["return values, body executions"])

p("C34", "Reference counters and snapshots report true instance counts",
  "At any quiescent moment the registered counter of each tracked class equals the number of its live instances, whatever was created, copied or destroyed and whether construction failed part-way. A snapshot holds the current count of every registered counter, the difference of two snapshots reports for every name present in either the exact change, unregistering removes a counter only if it is the registered one, and the monitor reports at every period exactly the changes since its previous report.",
  ["histories", "schedules"], "all creation/destruction histories, including failing constructors and concurrent ones, and all snapshot pairs",
  "test_reftrack checks a few counters once.",
  ["src/misc/reftrack.cpp", "src/misc/pv/reftrack.h", "src/factory/FieldCreateFactory.cpp", "src/factory/PVField.cpp", "src/misc/byteBuffer.cpp", "src/misc/thread.cpp"], [("atomic counters", "REFTRACE_INCREMENT/DECREMENT"), ("snapshot map", "RefSnapshot")], ["readRefCounter, RefSnapshot"])

p("C35", "Debug pointers know exactly the strong references alive",
  "The tracking smart pointer behaves as the standard shared pointer (same object, use counts, expiry, casts, weak locking), and the set of references it reports for an object is at every moment exactly the set of live non-null strong pointers to that object, after any sequence of construction, copy, assignment, swap, reset, cast, weak locking and destruction.",
  ["histories"], "all operation sequences over several strong and weak pointers and objects",
  "testDebugPtr follows one script.",
  ["src/misc/debugPtr.cpp", "src/misc/pv/debugPtr.h"], [("tracker shared by references", "shared_ptr_base::track_*")], ["get, use_count, expired, spy_refs"])

p("C36", "Every change notification is delivered exactly once and immutability sticks",
  "Putting a scalar (directly or with conversion), replacing an array, setting a union, copying a value, receiving an array from the wire and an explicit post each call the handler of every field they set exactly once, after the new value is visible, and call no other field's handler; the primitives select, swap, append, remove and change of length or capacity call none. A field accepts one handler only: registering the same one again is harmless, another one is refused. Marking a field immutable marks all structure fields beneath it and is never undone, and every guarded mutator of an immutable field (copy and assignment, swap, change of length or capacity, append, remove, compress) throws without change and without notification.",
  ["histories", "inputs"], "all mutation sequences over fields with and without handlers, at every depth of a structure",
  "handlers and immutability are nearly untested.",
  ["src/factory/PVField.cpp", "src/factory/PVStructure.cpp", "src/factory/PVUnion.cpp", "src/factory/PVDataCreateFactory.cpp", "src/factory/PVArray.cpp"], [("post handler", "PVField::postPut"), ("immutability flags", "PVField::setImmutable")], ["handler calls, exceptions, values"])

p("C37", "Standard types contain exactly the requested properties",
  "A standard structure requested for any value type and any combination of property names contains the value field of exactly that type followed by exactly the requested property structures in the documented order, each with its documented identifier and fields, under the documented identifier; value-alarm limits have the value's own type. Unsupported combinations are refused. A standard value built the same way has that type, default contents and the given enumeration choices.",
  ["inputs", "configurations"], "all value types, property strings and choices",
  "testStandardField checks a sample of combinations.",
  ["src/factory/StandardField.cpp", "src/factory/StandardPVField.cpp"], [("property assembly", "StandardField::createProperties")], ["resulting types and values"])

p("C38", "Text output shows exactly what is there",
  "Printing a value shows every field on its own line, in field order, indented by four blanks per nesting level, with the type's identifier, the field's name and its value: integers in decimal, booleans as true or false, arrays element by element in brackets, strings quoted and escaped whenever they hold blanks, quotes or unprintable bytes, unselected unions and null elements as (none). An escaped text denotes exactly the original bytes. The formatter shows exactly the selected fields, those within them and the structures around them; highlighting only adds marks around the highlighted fields. Alarms, times (UTC 1990 to 2126) and choices of standard structures are shown as their words, date and choice; a table has one row per index up to its shortest column, columns aligned. Printing a type shows its whole layout. Printing changes neither the value nor the stream's indentation.",
  ["inputs", "configurations"], "all types, values, selections, highlights and formats",
  "tests compare a few outputs.",
  ["src/factory/printer.cpp", "src/factory/PVStructure.cpp", "src/factory/PVUnion.cpp", "src/factory/PVStructureArray.cpp", "src/factory/PVUnionArray.cpp", "src/factory/FieldCreateFactory.cpp"], [("formatter", "printRaw"), ("escaping", "escape")], ["text written to a stream"])

p("C39", "Names, codes and created data match their types",
  "Every scalar type and every kind of field has its documented name; looking a name up gives that type back and any other text is refused; the classes (integer, unsigned, numeric, primitive), element sizes and raw arrays allocated for a type agree with the type, and codes outside the enumeration are refused. Alarm severity and status codes and words correspond, illegal codes are refused, and an alarm returns what was set. A union's guess for a kind and element type is its first member of exactly that, otherwise its first of that kind, otherwise none. Data created for a type, by whichever factory call, has exactly that type with its default contents, numbered from 0, unnamed, mutable and with no parent; a clone has the type and contents of its source, is a different object, and is mutable even if the source is not; a structure made from given fields consists of exactly those objects under those names.",
  ["inputs"], "all codes, names, types and values",
  "tests create a few types.",
  ["src/factory/TypeFunc.cpp", "src/factory/PVDataCreateFactory.cpp", "src/property/alarm.cpp", "src/factory/FieldCreateFactory.cpp"], [("names", "getScalarType"), ("creation", "createPVField"), ("guess", "guess")], ["results of the calls"])

p("C40", "Failure reports say what and where, test helpers count right",
  "An exception thrown through the library's macros has the reason given to it (the library's own exception adds the place and the calls to it), shows and prints the line and file it was thrown from followed by the calls, unchanged by asking repeatedly or copying; one thrown without them shows nothing. Each test made with the unit test helpers gives exactly one result, numbered in order, passed exactly when the comparison holds, with both expressions, their values and the text streamed to it; further lines of a text become notes, whatever characters it has, also when the helper is handed on. The helpers for a field compare the named field of the asked type, or the selected value of a union; a missing structure, a missing field or another type fails the test.",
  ["inputs"], "all texts, values, structures and names",
  "the unit tests use the helpers, they do not test them.",
  ["src/misc/epicsException.cpp", "src/misc/pv/epicsException.h", "src/misc/pvUnitTest.cpp", "src/misc/pv/pvUnitTest.h"], [("shown place", "ExceptionMixin::show"), ("results", "testPassx::~testPassx")], ["exception texts", "test output"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
