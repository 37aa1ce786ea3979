import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs=None,state=None):
    assert len(title)<=80,(id,len(title))
    assert st.count('. ')<=2,(id,st.count('. '))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if obs: a["observe_at"]=obs
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

p("C01","Typed data survives a round trip through YAML text",
"For any Rust data serializable by serde (integers of every width up to 128 bits, floats, bools, chars, strings, options, units, tuples, sequences, maps with any keys, newtypes, structs, enums of all four variant kinds, and combinations of serde attributes such as flatten, untagged, internally and adjacently tagged), if serialization to YAML text succeeds then deserializing that text as the same type succeeds and gives back equal data. Serialization of such data succeeds, whatever the nesting, the strings and the numbers in it (an enum directly inside a newtype variant of another enum, and an option over a type that is itself written as null, are the two shapes the format cannot hold). Serializing to a String and to a writer gives the same text.",
["inputs","programs"],"all types built from the serde data model and all values of them",
"tests/test_serde.rs round-trips a few dozen fixed literals; whether a string, key, number or enum nesting is ambiguous when read back depends on unbounded combinations of content and position.",
["src/ser.rs","src/de.rs","src/libyaml/emitter.rs","src/libyaml/parser.rs"],
[("Serializer state machine (tag detection, one-entry mappings, document end)","src/ser.rs"),("quoting decision by trial resolution","src/ser.rs serialize_str"),("DeserializerFromEvents","src/de.rs"),("enum tags","src/ser.rs serialize_*_variant, src/de.rs EnumAccess")],
["serde_yaml::to_string","serde_yaml::to_writer","serde_yaml::from_str"])
p("C02","Any Value survives a round trip through text and its text is canonical",
"For any Value (nulls, bools, every representable number including infinities and NaN, any string, sequences, mappings with any Value as key and in any order, tags on any node), emitting it and reading the text back gives the same Value, entry order, number kinds and the sign of zero included. Emitting the value read back reproduces the text byte for byte. A third party reading the text by YAML rules sees the same data.",
["inputs"],"all Value trees",
"tests use a handful of small Values; ambiguity depends on interactions of nesting (compact sequences in mappings, tagged keys, empty collections, literal blocks) with content.",
["src/ser.rs","src/value/ser.rs","src/value/de.rs","src/de.rs","src/libyaml/emitter.rs"],
[("Serialize for Value / TaggedValue via MaybeTag","src/value/ser.rs, src/value/tagged.rs"),("Deserialize for Value","src/value/de.rs"),("Emitter","src/libyaml/emitter.rs")],
["serde_yaml::to_string","serde_yaml::from_str::<Value>"])
p("C03","Every string is preserved exactly, in every position",
"Any string of Unicode scalar values (including ones that look like numbers, booleans, nulls, tags, anchors, document markers or comments, ones with control characters, any line break, leading, trailing or only white space, byte order marks, and very long ones) serialized as a document, sequence item, mapping value, mapping key, struct field, char, tagged value or at any nesting is read back as exactly the same string and never as another type. The emitted text is valid UTF-8 that a YAML reader resolves to that string.",
["inputs"],"all strings x all positions",
"tests pin about thirty strings; scalar style choice depends on every character, position and length.",
["src/ser.rs","src/libyaml/emitter.rs","src/de.rs"],
[("serialize_str: InferScalarStyle","src/ser.rs"),("digits_but_not_number / parse_* resolvers","src/de.rs"),("scalar styles","src/libyaml/emitter.rs")],
["serde_yaml::to_string","serde_yaml::from_str"])
p("C04","Numbers keep their exact value across text, and never change silently",
"Every integer of every Rust width (8 to 128 bits) and every f32 and f64 (subnormals, negative zero, infinities, NaN, extreme exponents) written as YAML is read back as the identical number, integers as integers and floats as floats. Any spelling of an integer (decimal, hexadecimal, octal, binary, signed) read as a type that can hold it gives exactly that integer, and read as a type that cannot hold it is an error, never a wrapped, truncated or rounded value. A float spelling read as f64 is the correctly rounded value.",
["inputs"],"all numbers x all numeric target types x all spellings",
"tests check a few boundary literals; off-by-one, sign, radix and exponent errors live at isolated points of a 128-bit space.",
["src/de.rs","src/ser.rs","src/number.rs"],
[("parse_unsigned_int, parse_signed_int, parse_negative_int, parse_f64","src/de.rs"),("serialize_i*/u*/f*","src/ser.rs"),("visit_untagged_scalar / deserialize_i64..u128","src/de.rs")],
["serde_yaml::from_str::<iN/uN/fN/Value/Number>","serde_yaml::to_string"])
p("C05","Plain scalars resolve to types by fixed rules; quoted ones are strings",
"An untagged plain scalar read as a Value is null, a bool, an integer, a float or a string according to one fixed grammar (empty, ~ and the spellings of null; the spellings of true and false; signed decimal, 0x, 0o and 0b integers without leading zeros or a second sign; decimal floats and .inf/.nan forms; everything else a string), the same at top level, inside block and flow collections and in keys. Quoted, literal and folded scalars without a tag are always strings. Core tags (!!str, !!int, !!float, !!bool, !!null) force the type or fail.",
["inputs"],"all scalar texts x styles x positions x core tags",
"tests list some dozens of literals; the resolution grammar is a regular language with many near misses.",
["src/de.rs"],
[("visit_scalar, visit_untagged_scalar, parse_null, parse_bool, parse_*_int, parse_f64, digits_but_not_number","src/de.rs")],
["serde_yaml::from_str::<Value>"])
p("C06","Reading any bytes ends in a value or an error, never a panic or a bad error",
"Deserializing any byte string, valid UTF-8 or not, from a string, slice or reader, as any type, as one document or document by document, ends with a value or an error, never a panic, an abort or an overflow of the stack. Every error can be displayed and debug-printed, and its location, if any, lies within the input (index no greater than its length, line and column at least 1 and consistent with it).",
["inputs"],"all byte strings x target types",
"the fuzz target in the repository is not run by the tests and reads only Value from slices; tests feed a few hand-written invalid inputs.",
["src/de.rs","src/loader.rs","src/error.rs","src/libyaml/parser.rs","src/libyaml/error.rs"],
[("Loader::next_document","src/loader.rs"),("error conversion","src/error.rs, src/libyaml/error.rs"),("parser wrapper","src/libyaml/parser.rs")],
["serde_yaml::from_slice","serde_yaml::from_str","serde_yaml::from_reader","serde_yaml::Deserializer as Iterator","Error::location"])
p("C07","Nesting and alias expansion are bounded, legitimate use is accepted",
"Documents nested at most 128 collections deep are read, deeper ones (through collections, or through aliases, those to enclosing structure included) are refused with an error and never overflow the stack, for Values and for recursive typed data alike, content that a type ignores aside. Documents whose aliases would be followed more than a hundred times as often as the document has events (billion laughs) are refused with an error after work bounded by that. Documents that use aliases less are accepted and expanded in full, each document of a stream having its own budget.",
["inputs"],"all nesting shapes and alias graphs",
"tests hold three or four fixed bombs; the bound concerns every path through typed and untyped visitors and every alias graph.",
["src/de.rs","src/loader.rs"],
[("remaining_depth / recursion_check","src/de.rs"),("jump / alias repetition counter","src/de.rs DeserializerFromEvents::jump")],
["serde_yaml::from_str","serde_yaml::Deserializer"],
[("jumpcount","aliases followed so far in this document","src/de.rs DeserializerFromEvents")])
p("C08","The same bytes read the same from a str, a slice or any reader",
"Reading a given text from a string, a byte slice, or a reader that hands it out in any chunk sizes, with interruptions, gives the same value, or fails with the same message and location, for one document and for streams of documents. A reader that fails makes the read of a single value fail with that input/output error, and never yields a value built from partial data.",
["inputs","schedules","fault_sequences"],"all texts x chunkings x read faults",
"tests read only from str or from one in-memory slice in a single read.",
["src/de.rs","src/loader.rs"],
[("Progress and Loader::new","src/loader.rs, src/de.rs"),("reading the input","src/loader.rs")],
["serde_yaml::from_str","serde_yaml::from_slice","serde_yaml::from_reader","Deserializer::from_reader"])
p("C09","A stream of documents is read in order, each on its own",
"Iterating a stream yields exactly its documents, in order, each equal to what the document alone gives, and then ends. A document that does not fit the type asked of it yields an error without disturbing the documents after it, a syntax error yields an error and no data follows it, and anchors of one document are unknown in the next. Asking for a single value from a stream of several documents, or from an empty one when the type has no empty form, is an error.",
["inputs","histories"],"all streams of documents x target types",
"tests read two or three fixed streams.",
["src/de.rs","src/loader.rs"],
[("Iterator for Deserializer","src/de.rs"),("Loader::next_document","src/loader.rs"),("MoreThanOneDocument / EndOfStream","src/de.rs, src/error.rs")],
["serde_yaml::Deserializer as Iterator","serde_yaml::from_str"])
p("C10","A Serializer writes a stream that reads back as the values given to it",
"Serializing any sequence of values through one Serializer writes one stream whose documents, read back, are exactly those values in that order, whatever their kinds (scalars, empty collections, block scalars, tagged values). Each single document is the same text as the value serialized alone, with document separators only between documents. Flushing at any point, or taking the writer back, leaves all bytes of every finished document in the writer and adds no data; flushing reaches the writer itself.",
["inputs","histories"],"all sequences of values and flushes",
"one test writes two fixed documents.",
["src/ser.rs","src/libyaml/emitter.rs"],
[("Serializer depth and emit_document start/end","src/ser.rs value_start/value_end"),("Emitter flush / into_inner","src/libyaml/emitter.rs")],
["serde_yaml::Serializer","Serializer::flush","Serializer::into_inner"])
p("C11","A failing writer surfaces as an error; output is never silently cut",
"When the underlying writer fails, writes short, is interrupted, or accepts nothing after any number of bytes, serialization either returns an error or has delivered the complete text; it never reports success with missing, repeated or reordered bytes. What reached the writer before the failure is a prefix of the correct text. The error reported is the writer's own error.",
["inputs","fault_sequences"],"all values x all failure points of the writer",
"no test uses a failing writer.",
["src/libyaml/emitter.rs","src/ser.rs","src/error.rs"],
[("write_handler and write_error","src/libyaml/emitter.rs"),("emit_err","src/ser.rs, src/error.rs")],
["serde_yaml::to_writer","serde_yaml::Serializer"])
p("C12","Conversion to and from Value is lossless and agrees with the text format",
"For any typed data, converting it to a Value and back gives equal data, reading from the Value by reference included. The Value is the same as the one obtained by reading the YAML text of the data. Integers beyond 64 bits are held as the string of their digits; other data that a Value cannot represent is refused with an error, never altered.",
["inputs","programs"],"all types and values of the serde data model",
"tests convert a few fixed structs.",
["src/value/ser.rs","src/value/de.rs","src/value/mod.rs"],
[("value::Serializer","src/value/ser.rs"),("Deserializer for Value and &Value","src/value/de.rs"),("untag / enum access","src/value/de.rs, src/value/tagged.rs")],
["serde_yaml::to_value","serde_yaml::from_value"])
p("C13","Reading from an owned Value and from a borrowed one agree",
"For any Value and any target type, deserializing from the owned Value and from a reference to it both succeed with equal data or both fail with the same message. The borrowed Value is left unchanged.",
["inputs"],"all Values x all target types, fitting or not",
"the two implementations are separate code; tests exercise the owned one on fixed inputs.",
["src/value/de.rs","src/value/tagged.rs"],
[("impl Deserializer for Value / for &Value","src/value/de.rs")],
["serde_yaml::from_value","T::deserialize(&value)"])
p("C14","Mapping behaves as an insertion-ordered map over any history",
"Under any sequence of operations (insert, remove, entry, lookup and mutation by Value or by string, retain, extend, iteration in every form, clear, clone, index), a Mapping gives the results of a map from Values to Values, and its keys stay in insertion order: replacing the value of a key keeps its place, and removing an entry moves only the last one into the gap. Its length, iterators (exact sizes, both orders where offered), equality and hash agree with its contents at every step.",
["histories"],"all operation sequences over all keys",
"tests make a few inserts; no test runs histories of operations.",
["src/mapping.rs"],
[("wrappers over the ordered map, Entry, Index","src/mapping.rs")],
["serde_yaml::Mapping"])
p("C15","Equality, hashing and ordering of Values obey their laws",
"Equality of Values is an equivalence that ignores the order of mapping entries at any depth and nothing else; equal Values hash alike and compare as equal. The ordering is antisymmetric, transitive and consistent with equality. Tags are equal exactly when their names are, a leading exclamation mark aside, and numbers compare by value within integers and within floats, NaN equal to itself.",
["inputs"],"all pairs and triples of Values, Numbers, Tags and Mappings",
"tests compare a few pairs.",
["src/value/mod.rs","src/mapping.rs","src/number.rs","src/value/tagged.rs"],
[("Hash for Mapping (order independent)","src/mapping.rs"),("PartialOrd for Mapping / Value / Number","src/mapping.rs, src/value/mod.rs, src/number.rs"),("Tag equality","src/value/tagged.rs")],
["PartialEq, Hash, PartialOrd of Value, Mapping, Number, Tag"])
p("C16","Indexing a Value reads and writes exactly the addressed place",
"Looking up a string, integer or Value key in any Value (by get, get_mut or indexing) finds exactly the addressed element, looking through tags, and gives nothing (or null when indexing) when it is absent. Assigning through an index changes that place only, creates the missing entry at the end of a mapping, turns a null into a mapping, and panics on everything else instead of changing it.",
["inputs","histories"],"all Values x all index paths x lookups and assignments",
"tests index two or three fixed documents.",
["src/value/index.rs","src/mapping.rs","src/value/mod.rs"],
[("trait Index for usize, str, String, Value","src/value/index.rs")],
["Value::get, get_mut, Index, IndexMut"])
p("C17","Merge keys expand with YAML merge semantics, deterministically",
"Applying merge keys to any Value leaves no merge key in any mapping reached, adds exactly the entries of the merged mappings that the mapping does not have itself, earlier merged mappings taking precedence over later ones and merges inside merged mappings included, and changes nothing else. A merge key whose value is a scalar, a tagged value, a sequence of something other than mappings, or anything else that cannot be merged is an error.",
["inputs"],"all Values with merge keys anywhere",
"one test merges one fixed document.",
["src/value/mod.rs"],
[("Value::apply_merge","src/value/mod.rs")],
["Value::apply_merge"])
p("C18","Enums keep their variant: tags, unit names and the singleton_map forms",
"An enum value written in the default form (tag, or bare name for unit variants), or through the singleton_map and singleton_map_recursive helpers, reads back through the same form as the same variant with the same content, from text and from a Value, at any nesting, inside options, collections, structs and other enums. The singleton_map forms write a mapping of one entry from the variant name to the content (the bare name for unit variants) and never a tag. An unknown variant, a mapping of several entries, or content that does not fit is an error, never another variant.",
["inputs","programs"],"all enums x forms x contents",
"tests cover one enum per helper with fixed values.",
["src/with.rs","src/de.rs","src/ser.rs","src/value/tagged.rs","src/value/de.rs"],
[("singleton_map, singleton_map_recursive","src/with.rs"),("enum access from tags","src/de.rs, src/value/de.rs")],
["serde_yaml::with::*","serde_yaml::from_str","serde_yaml::to_string","serde_yaml::from_value","serde_yaml::to_value"])
p("C19","Errors name the place of the problem",
"When one leaf of a document does not fit its type, the error's location is the line, column and index where that node begins in the text (or its anchored node, when reached through an alias), counting lines and columns from 1 in characters and the index from 0 in bytes, and its message starts with the path of field names and indexes leading to it (inside mapping keys none is promised) and ends with that location. A syntax error carries the position that the YAML parser reports. Errors raised without any text carry no location.",
["inputs"],"all documents, all presentations, all leaves",
"tests pin about forty messages for short documents.",
["src/error.rs","src/path.rs","src/de.rs","src/libyaml/error.rs"],
[("fix_mark / ErrorImpl::Message with Pos","src/error.rs, src/de.rs"),("Path","src/path.rs"),("Location","src/error.rs, src/libyaml/error.rs")],
["Error::location","Error Display"])
p("C20","Borrowed strings equal the owned ones and point into the input",
"A string deserialized by borrowing (as &str or a borrowing Cow, at any place) equals the string deserialized as owned and lies entirely inside the input text. A scalar whose text differs from its source (escapes, folding, line-break changes) or that comes from a reader is never borrowed wrongly: it is owned, or refused with an error. Plain and quoted single-line scalars from a string or slice can be borrowed.",
["inputs"],"all scalar texts x styles x sources",
"tests borrow three strings.",
["src/de.rs","src/libyaml/parser.rs"],
[("Scalar repr / borrow_str","src/libyaml/parser.rs Scalar.repr, src/de.rs parse_borrowed_str")],
["serde_yaml::from_str::<&str>","serde_yaml::from_slice"])
p("C21","Nothing in a document is dropped silently when it does not fit",
"Duplicate keys (by value, however they are written) in a Value, mapping or struct, missing fields, unknown fields where they are denied, sequences longer or shorter than a tuple or array, elements or entries that the type reading a collection leaves over, content after a unit or a scalar, and extra documents are errors and never silently lose data. The same data without the defect is accepted.",
["inputs"],"all documents with one structural defect x target types",
"tests cover one duplicate field and one duplicate key.",
["src/de.rs","src/mapping.rs","src/value/de.rs"],
[("end_sequence / end_mapping length checks","src/de.rs"),("DuplicateKeyError","src/mapping.rs"),("MoreThanOneDocument","src/de.rs")],
["serde_yaml::from_str"])
p("C22","Content a type ignores has no influence on the result",
"Adding entries with unknown names and any well-formed content (nested collections, tags, aliases, anchors, enums, block scalars, numbers out of range) to a mapping read as a struct that ignores unknown fields, at any depth and position, does not change the data read, nor what follows. Anchors defined inside the ignored content remain usable later, and a syntax error inside it is still an error.",
["inputs"],"all documents x ignored contents x positions",
"one test ignores one tagged value.",
["src/de.rs","src/value/de.rs"],
[("ignore_any","src/de.rs"),("deserialize_ignored_any","src/de.rs, src/value/de.rs")],
["serde_yaml::from_str","serde_yaml::from_value"])
p("C23","Aliases denote the most recent definition of their anchor",
"Reading a document with anchors and aliases gives the same data, as a Value or as any type, as the document in which each alias is replaced by a copy of the node last anchored under that name before it, whether that node is a scalar, a collection, a key or tagged, and however often names are redefined. An alias to a name not defined before it in the same document is an error located at the alias.",
["inputs"],"all documents with anchors, redefinitions and aliases",
"tests use one or two anchors in fixed documents.",
["src/loader.rs","src/de.rs"],
[("anchors map, alias ids","src/loader.rs"),("jump","src/de.rs")],
["serde_yaml::from_str"],
[("aliases","alias id -> event index of the anchored node","src/loader.rs Document")])
p("C24","Data is independent of its presentation",
"All YAML texts of the same data (block or flow, any indentation, plain, quoted, literal or folded scalars, escapes, comments, blank lines, explicit keys, document markers, directives, verbatim or shorthand tags, CR, LF or CRLF, with or without byte order mark) read as the same Value and the same typed data. For arbitrary text, the reading as a Value agrees with the structure that the YAML parser defines: the same data, or an error where there is none.",
["inputs"],"all data x all presentations; all texts",
"tests contain some twenty texts, mostly of one presentation each.",
["src/de.rs","src/loader.rs","src/libyaml/parser.rs"],
[("event translation","src/libyaml/parser.rs"),("Loader","src/loader.rs"),("DeserializerFromEvents","src/de.rs")],
["serde_yaml::from_str","serde_yaml::from_slice"])
p("C25","Memory is returned and never misused, on every path",
"Reading and writing, successful, failing part-way, abandoned mid-iteration, or panicking inside caller code, gives back all memory it took and never reads or writes outside it. The memory used is proportional to the size of the text and of the data.",
["inputs","histories","fault_sequences"],"all inputs and operation histories incl. early drops and faults",
"tests neither count allocations nor run under a sanitizer; leaks and misuse in the unsafe parser and emitter bindings are invisible to them.",
["src/libyaml/parser.rs","src/libyaml/emitter.rs","src/libyaml/util.rs","src/libyaml/cstr.rs"],
[("Owned pinning","src/libyaml/util.rs"),("Drop of ParserPinned / EmitterPinned and events","src/libyaml/parser.rs, src/libyaml/emitter.rs"),("CStr","src/libyaml/cstr.rs")],
["allocator accounting","AddressSanitizer build"])
p("C26","A scalar is accepted as a typed value only when it denotes one",
"For any scalar (text, style and tag) and any primitive target (bool, each integer and float type, char, string, unit, option of those), deserialization accepts it exactly when the scalar denotes a value of that type under fixed rules (numbers and bools only from plain scalars or core-tagged literal ones, in range, chars only from one character, units and absent options only from null forms, strings from any scalar) and gives that value. Collections are never accepted as scalars nor scalars as collections, except the empty document or an empty plain scalar as an empty collection.",
["inputs"],"all scalar texts x styles x tags x primitive types",
"tests pin a few rejections.",
["src/de.rs"],
[("deserialize_* for DeserializerFromEvents","src/de.rs"),("is_plain_or_tagged_literal_scalar","src/de.rs")],
["serde_yaml::from_str::<T>"])
p("C27","The Number API is exact and consistent",
"A Number built from any integer or float reports its kind (i64, u64, f64, integer, NaN, finite, infinite) truthfully, converts back to exactly the value it was built from and to nothing that would be inexact, and compares and hashes consistently with that value. Displaying it and parsing the text gives the same number; parsing accepts exactly the spellings of numbers and rejects everything else.",
["inputs"],"all numbers and all texts",
"tests parse three numbers.",
["src/number.rs","src/de.rs"],
[("Number, N","src/number.rs"),("FromStr","src/number.rs")],
["serde_yaml::Number"])
p("C28","What YAML cannot hold is refused, and accepted output is well formed",
"Whatever calls a Serialize implementation makes (any nesting, wrong length hints, keys of any kind, failing part-way), the result is an error or text that is exactly one well-formed YAML document holding the data given. Byte strings and an enum directly inside a newtype variant of another enum are refused in text with an error, an error raised by the data itself is passed on, and a Serializer never panics on them.",
["inputs","fault_sequences"],"all sequences of serializer calls, failing at any point",
"tests reject bytes and one nested enum.",
["src/ser.rs","src/value/ser.rs","src/value/tagged.rs","src/libyaml/emitter.rs"],
[("State machine of Serializer","src/ser.rs"),("CheckForTag","src/value/tagged.rs"),("unsupported types","src/ser.rs, src/error.rs")],
["serde_yaml::to_string","serde_yaml::to_writer","serde_yaml::to_value"])
p("C29","Value conversions, accessors and comparisons tell the truth",
"For any Value, each accessor (is_*, as_*, mutable ones included, and get of tag contents) answers according to the kind and content of the value, looking through tags, numbers being given only in types that hold them exactly or as the nearest float. A Value built from any primitive, string, sequence, mapping or iterator holds exactly that, and equals exactly the primitives that it denotes. Printing a Value for debugging never fails.",
["inputs"],"all Values x accessors x conversions",
"tests convert a few constants.",
["src/value/mod.rs","src/value/from.rs","src/value/partial_eq.rs","src/value/tagged.rs","src/value/debug.rs"],
[("is_*/as_* accessors","src/value/mod.rs"),("From and FromIterator","src/value/from.rs"),("PartialEq with primitives","src/value/partial_eq.rs"),("untag_ref","src/value/tagged.rs")],
["serde_yaml::Value"])
p("C30","Values and the singleton_map forms are faithful in every other serde format",
"A Value, Mapping, Sequence, Number or TaggedValue deserialized from any serde format holds exactly the data that the format presents (options, characters, numbers of every width up to 64 bits, entries in order, newtype variants as tagged values), refuses repeated keys and what a Value cannot hold, passes on the format's own error without asking for more, and trusts no announced length. Serialized to any format, a Value makes exactly the calls of its data, with true lengths, integers as integers, a tagged value as a map of one entry named `!tag`, and stops at the format's first error. Enums through singleton_map and singleton_map_recursive have the same map form in other formats as in YAML and are read back from it.",
["inputs","fault_sequences"],"all data of any serde format, failing at any point; all Values",
"tests use the crate's own text format and its own Value only.",
["src/value/de.rs","src/value/ser.rs","src/value/tagged.rs","src/mapping.rs","src/number.rs","src/with.rs"],
[("Deserialize for Value (ValueVisitor)","src/value/de.rs"),("Serialize for Value","src/value/ser.rs"),("Serialize and Deserialize for TaggedValue, TagStringVisitor","src/value/tagged.rs"),("Serialize and Deserialize for Mapping","src/mapping.rs"),("NumberVisitor, Serialize for Number","src/number.rs"),("SingletonMap, SingletonMapRecursive","src/with.rs")],
["serde_yaml::Value","serde_yaml::Mapping","serde_yaml::with"])
p("C31","Readings and writings do not influence one another",
"The outcome of any operation (data, text, error message and location) depends on its own input alone: it is the same whatever was read or written before, in whatever order, from within the visitors, Serialize implementations, readers and writers of another operation, step by step in turns with other streams and Serializers, and at the same time on other threads. A panic in the caller's code or an abandoned stream leaves nothing behind that changes a later operation, and repeating an operation gives the identical outcome.",
["inputs","schedules","histories"],"all sequences, nestings and interleavings of operations",
"tests run one operation each and compare it with a constant.",
["src/de.rs","src/loader.rs","src/ser.rs","src/value/tagged.rs","src/with.rs","src/libyaml/parser.rs","src/libyaml/emitter.rs"],
[("Deserializer and its Progress","src/de.rs"),("Loader","src/loader.rs"),("Serializer state","src/ser.rs"),("Parser and Emitter owning their C state","src/libyaml/parser.rs, src/libyaml/emitter.rs")],
["serde_yaml::from_str","serde_yaml::Deserializer","serde_yaml::Serializer","serde_yaml::Value"])
p("C32","The cost of reading, writing and handling data grows in proportion to it",
"Eight times the data takes about eight times the processor time and memory, and not the square of that: for reading documents of every shape from any source (deep and wide collections, long scalars, comments, anchors and aliases, merges, many documents, errors at the end), for reading and writing typed data, and for converting, comparing, hashing, merging and walking Values. Filling, looking up and changing a Mapping takes time in proportion to the number of operations, whatever kind its keys are (shift_remove, documented otherwise, apart).",
["inputs"],"all shapes of documents and Values, kinds of keys, sources and operations, at growing sizes",
"tests use documents of a few lines, at which any growth is fast.",
["src/loader.rs","src/de.rs","src/ser.rs","src/mapping.rs","src/number.rs","src/value/mod.rs","src/libyaml/parser.rs","src/libyaml/emitter.rs"],
[("Loader: events and aliases","src/loader.rs"),("jumps to aliased events, end_sequence and end_mapping","src/de.rs"),("Hash for Number, Hash for Mapping","src/number.rs, src/mapping.rs"),("read handler","src/libyaml/parser.rs"),("apply_merge","src/value/mod.rs")],
["serde_yaml::from_str","serde_yaml::to_string","serde_yaml::Deserializer","serde_yaml::Mapping","serde_yaml::Value"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
