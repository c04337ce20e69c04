import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=("Marshal","MarshalOpts","Append","AppendOpts")):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
p("P01","Strings are escaped exactly, for every byte sequence and escape option",
 "Every string is encoded between double quotes as its own bytes, where a quote, a backslash and each control character is replaced by its JSON escape (\\\" \\\\ \\n \\r \\t, otherwise \\u00XX), each of < > & by \\u00XX unless NoHTMLEscaping is set, U+2028 and U+2029 by \\u2028 and \\u2029, and each invalid UTF-8 byte by \\ufffd unless NoUTF8Coercion is set; with NoStringEscaping the bytes are copied verbatim. The same rule applies to the text returned by MarshalText, to map keys and to raw byte strings, and is applied twice to string fields tagged with the string option. With escaping enabled, the result decodes to the original string (up to the replacement of invalid bytes).",
 ["inputs","configurations"],"every byte sequence of every length, including invalid and truncated UTF-8, under each of the 8 combinations of the three escape options",
 "the tests escape three fixed byte sequences; the encoder is a loop with an accumulation window and variable-width decoding, whose errors depend on what precedes and follows a character",
 ["encode.go"],[("escape loop","encode.go:appendEscapedBytes"),("string instructions","encode.go:encodeString, encodeQuotedString, encodeTextMarshaler")])
p("P02","Integers encode to their exact decimal value, whatever their width",
 "A value of any signed or unsigned integer type, including uintptr and named integer types, is encoded as the canonical decimal representation of its mathematical value: a minus sign only for negative values, no leading zero, no truncation nor sign or width confusion. Integer map keys and integers tagged with the string option are the same digits between double quotes.",
 ["inputs","programs"],"every value of all 11 integer types, in every position (top level, field, element, pointer, map key, quoted field)",
 "tests use one small value per type; a wrong width or signedness reads the right bytes for small values",
 ["integer.go","instruction.go","encode.go"],[("one instruction per width","integer.go"),("dispatch by kind","instruction.go:newBasicTypeInstr")])
p("P03","Floats use the shortest ES6 form and reject NaN and infinities",
 "A finite float32 or float64 is encoded as the shortest decimal number that converts back to the same value of its own width, in plain notation when it is zero or its magnitude is in [1e-6, 1e21) and in exponent notation otherwise, with single-digit negative exponents written without a leading zero. NaN and infinite values are reported as an UnsupportedValueError and nothing is encoded.",
 ["inputs"],"every float32 and float64 bit pattern, whatever bytes precede the number in the output buffer",
 "tests sample some magnitudes; the thresholds are compared in the width of the value, and the clean-up of the exponent looks at the bytes of the shared output buffer",
 ["encode.go"],[("format selection and exponent clean-up","encode.go:appendFloat")])
p("P04","json.Number is accepted exactly when it is a JSON number literal",
 "A json.Number is encoded verbatim if and only if it matches the JSON number grammar (optional minus, integer part without superfluous leading zero, optional fraction, optional exponent), an empty one is encoded as 0, and any other is an error. With NoNumberValidation a non-empty json.Number is always encoded verbatim.",
 ["inputs","configurations"],"every string, with and without NoNumberValidation",
 "the tests list a few dozen literals; acceptance is a hand-written scanner over strings of unbounded length",
 ["number.go","encode.go"],[("grammar scanner","number.go:isValidNumber"),("number instruction","encode.go:encodeNumber")])
p("P05","time.Time encodes to the RFC 3339 text of the same instant and offset",
 "By default a time.Time is encoded as its RFC 3339 text with the shortest fraction that preserves its nanoseconds (no fraction with layout RFC3339), for every instant of the years 0 to 9999 and every zone offset of less than 24 hours, and is an error outside of these. With UnixTime it is the number of seconds since the Unix epoch whatever the layout, with any other TimeLayout it is the text produced by that layout between double quotes; the same holds for pointers to time.Time.",
 ["inputs","configurations"],"every instant with a local year in [0,9999], every nanosecond, every zone offset, each layout option",
 "tests use random instants of recent centuries and three layouts; the conversion of the day number to a date is branch-free fixed-point arithmetic that can be wrong on isolated days",
 ["time.go","encode.go","instruction.go"],[("calendar arithmetic and digit placement","time.go:rdnToYmd, appendRFC3339Time"),("time instruction","encode.go:encodeTime")])
p("P06","time.Duration encodes exactly in the configured format",
 "With DurationString a time.Duration is encoded as exactly the text of its String method between double quotes; with DurationNanoseconds (the default), DurationMicroseconds and DurationMilliseconds as the integer number of units, rounded toward zero; with DurationSeconds and DurationMinutes as the floating-point number of units. This holds for every duration including the minimum and maximum.",
 ["inputs","configurations"],"all 2^64 durations, all 6 formats",
 "tests use a handful of durations; the text has a variable unit, precision and width",
 ["time.go","encode.go"],[("text form","time.go:appendDuration, fmtFrac, fmtInt"),("duration instruction","encode.go:encodeDuration")])
p("P07","Embedded JSON is validated and compacted without changing its meaning",
 "The JSON of a json.RawMessage or returned by MarshalJSON is encoded without the whitespace outside of its strings, with < > & replaced by their \\u00XX escapes unless NoHTMLEscaping is set and U+2028 and U+2029 by theirs, and with every other byte unchanged and in order; if it is not valid JSON an error is reported. With NoCompact it is copied verbatim, and a nil json.RawMessage is null.",
 ["inputs","configurations"],"every byte sequence, with each combination of NoCompact and NoHTMLEscaping",
 "tests compact a few documents; whether a byte is kept depends on the string and escape state accumulated from the start of the document",
 ["encode.go"],[("compaction automaton","encode.go:appendCompactJSON"),("instructions","encode.go:encodeRawMessage, encodeJSONMarshaler")])
p("P08","Arrays, slices, pointers and interfaces encode all they hold, in order",
 "An array or slice is encoded as a JSON array with the encoding of each of its elements, exactly once and in order; a nil slice is null, or [] with NilSliceEmpty, and an empty one is []. A pointer is encoded as the value it points to, an interface as the value it holds whatever the interface type, and null when nil.",
 ["inputs","programs"],"all lengths, element types and sizes (including zero-sized elements), nesting, and values stored directly or indirectly in an interface",
 "tests use a few lengths and element types; elements are located by unsafe pointer arithmetic from the element size",
 ["encode.go","instruction.go","types.go","unsafe.go"],[("element loop","encode.go:encodeArray, encodeSlice"),("indirections","encode.go:encodePointer, encodeInterface"),("direct interface values","types.go:isInlined")])
p("P09","Byte slices and byte arrays use the configured string form",
 "A non-nil byte slice is encoded as its padded standard base64 text between double quotes, or with RawByteSlice as a string with its bytes escaped like any string; a nil one is null. A byte array is encoded as an array of numbers, or with ByteArrayAsString as a string with its bytes escaped like any string; slices and arrays whose byte elements implement json.Marshaler or encoding.TextMarshaler are encoded element by element.",
 ["inputs","configurations"],"every content, length and capacity of the destination, each option combination",
 "tests use a few sizes into one destination; the base64 path grows the buffer by hand",
 ["encode.go","instruction.go"],[("base64 in place","encode.go:encodeByteSlice"),("byte arrays","encode.go:encodeArray, encodeByteArrayAsString"),("selection","instruction.go:newSliceInstr, newArrayInstr")])
p("P10","Maps encode every entry exactly once, sorted by key by default",
 "A Go map is encoded as a JSON object holding each of its entries exactly once, separated by commas, with the key and the value of the same entry paired; entries are in increasing byte order of their unescaped keys unless UnsortedMap is set. A nil map is null, or {} with NilMapEmpty, and an empty map is {}; keys must be strings, integers or implement encoding.TextMarshaler, in this order of precedence, with nil pointer and nil interface keys encoded as an empty string.",
 ["inputs","configurations","histories"],"all maps of any size and nesting, with any key type and content, both orders, after any previous calls",
 "tests use small maps; the sorted path keeps slices into a pooled buffer that is reallocated and reused by nested maps",
 ["encode.go","map.go","instruction.go"],[("sorted and unsorted loops","encode.go:encodeMap, encodeSortedMap, encodeUnsortedMap"),("order","map.go:mapElems"),("key selection","instruction.go:newMapInstr")],
 [("pooled map elements","empty whenever it is in the pool","map.go:releaseMapElems")])
p("P11","sync.Map is encoded like the Go map with the same entries",
 "A sync.Map is encoded as the JSON object that a Go map with the same entries would produce, sorted by unescaped key unless UnsortedMap is set, and as {} when empty. A nil key or a key that is not a string, an integer or an encoding.TextMarshaler is an error, and so is any error of a key or a value; no partial object is reported as a success.",
 ["inputs","configurations"],"all contents and sizes, both orders, errors at any entry",
 "tests use a few entries; iteration is through a callback that communicates by captured variables",
 ["encode.go"],[("callback loops","encode.go:encodeSyncMap, encodeSortedSyncMap, encodeUnsortedSyncMap"),("keys","encode.go:appendSyncMapKey")])
p("P12","Struct objects hold exactly the fields that are not omitted",
 "A struct is encoded as a JSON object with, in field order, the key and the encoded value of each selected field, except the fields behind a nil embedded pointer, the fields tagged omitempty whose value is empty (false, 0, nil pointer or interface, or zero length), and the fields tagged omitnil whose value is a nil pointer, interface, slice or map or whose MarshalJSON returns null (the text encoded for it ends in null). Members are separated by exactly one comma whichever of them are omitted, each value is read from its own field, and a struct without any member is {}.",
 ["inputs","programs"],"all struct shapes and values, every subset of omitted fields, every nesting of embedded structs and pointers",
 "tests cover some combinations of omitted fields; separators depend on which fields before were written or removed, locations on offset chains",
 ["encode.go","struct.go","types.go"],[("object assembly","encode.go:encodeStruct"),("emptiness","types.go:emptyFuncOf"),("flags of the fields","instruction.go:newStructFieldsInstr")],
 [("field list","offset sequence, keys, flags and instruction of each selected field","struct.go:field")])
p("P13","The fields of a struct are selected and named like encoding/json does",
 "The members of an encoded struct, their names and their order are those that encoding/json selects for its type: exported fields and those promoted from embedded structs, named by their json tag when it is a valid name and by their Go name otherwise, without the fields tagged \"-\", and with conflicts resolved by depth then by presence of a tag, all the conflicting fields being dropped when that leaves several. The HTML characters of names are escaped unless NoHTMLEscaping is set.",
 ["programs"],"every struct type, with any tags and any embedding depth, through pointers or not, recursive or not",
 "tests list a few dozen struct types; the selection is a breadth-first search with counters, sorting and annihilation over an unbounded type graph",
 ["struct.go","tags.go"],[("breadth-first search","struct.go:structFields, scanFields"),("visibility","struct.go:sortFields, filterByVisibility, dominantField"),("names","struct.go:isValidFieldName, shouldEncodeField, tags.go:parseTag")])
p("P14","Custom marshalers are called in precedence order with the right value",
 "A type, interface types included, is encoded by the first of AppendJSONContext, AppendJSON, MarshalJSON and MarshalText it implements, on its value receiver or, when the value is addressable, on its pointer receiver; the method is called on the value being encoded itself, once, and AppendJSONContext gets the context of WithContext. A nil pointer or interface is null without any call, and an error returned by the method is reported as a MarshalerError for the type that unwraps to it.",
 ["programs","inputs","configurations"],"every type implementing any subset of the four interfaces with value or pointer receivers, of any kind (pointer-shaped or not), in every position",
 "tests use a few receiver kinds; the interface value passed to the method is assembled by hand from a pointer, in a way that depends on the shape of the type",
 ["encode.go","instruction.go","json.go","unsafe.go","types.go"],[("precedence","instruction.go:newMarshalerTypeInstr"),("call","encode.go:encodeMarshaler and the four marshaler functions"),("interface assembly","unsafe.go:packEface")])
p("P15","Each type is encoded according to its kind, or reported as unsupported",
 "Booleans encode as true and false, and each value of a basic, native (time.Time, time.Duration, json.Number, json.RawMessage, sync.Map) or composite type is encoded by the rule of its own type. A field tagged with the string option has its boolean, integer, float, string or json.Number value enclosed in double quotes, pointers to these included and no other type. Channels, functions, complex numbers, unsafe pointers and maps with other kinds of keys are an UnsupportedTypeError.",
 ["programs","inputs"],"every type that reflection can build, including named, nested and recursive types",
 "tests list some types; the instruction is assembled recursively from the type and its flags",
 ["instruction.go","types.go"],[("dispatch","instruction.go:newInstruction, newGoTypeInstr, newBasicTypeInstr"),("classification","types.go")])
p("P16","Each option changes only what it documents, and invalid options are errors",
 "Each option only has its documented effect, independently of the other options and of their order, except that the last use of an option with a value wins; nil options are ignored, and without options the results are those of the functions without options. A nil context, an empty time layout or an unknown duration format is reported as an InvalidOptionError, and nothing is encoded; a nil interface value is null whatever the options.",
 ["configurations"],"all subsets, orders and repetitions of the 16 options",
 "each test uses one option; interference needs particular combinations",
 ["options.go","json.go"],[("flags","options.go:bitmask and the option functions"),("application and validation","options.go:apply, validate, json.go:MarshalOpts, AppendOpts")])
p("P17","AllowList and DenyList filter exactly the named members of structs",
 "With DenyList, the struct members with the listed names, at every level, are left out; with AllowList, those with other names are left out; with both, a member is encoded only if it is allowed and not denied. Names are the exact ones used in the JSON object, an empty AllowList leaves out all members, and maps are not filtered.",
 ["inputs","configurations"],"all field names and lists, in both orders of the options",
 "tests use one list of each; precedence and empty lists are corner cases",
 ["options.go","encode.go"],[("filter","options.go:isDeniedField, fieldListToSet, AllowList, DenyList")])
p("P18","Append functions only extend the buffer they are given",
 "On success Append and AppendOpts return the bytes of the given buffer followed by exactly what Marshal and MarshalOpts return for the same value and options, whatever the content, length and capacity of the buffer. On failure of the encoding the buffer returned still starts with the given bytes, and the bytes of the given buffer are never modified.",
 ["inputs"],"every prefix content, length and spare capacity, every value",
 "tests append to one or two buffers; several encoders look back at or truncate the end of the output",
 ["json.go","encode.go"],[("append functions","json.go:Append, AppendOpts, appendJSON"),("look-back and truncation","encode.go:encodeStruct, appendFloat, encodeByteSlice")])
p("P19","Results are never shared with internal buffers nor altered by other calls",
 "The bytes returned by Marshal and MarshalOpts belong to the caller: they never change because of later or nested calls, and calling a function again with the same value and options gives the same bytes whatever calls, successful or failed, were made before. Content of a previous or an enclosing encoding never appears in a result.",
 ["histories"],"every sequence and nesting of calls, including failing ones, that share the internal pools",
 "tests look at results right after one call; reuse of a pooled buffer shows only in a later call",
 ["json.go","buffer.go","map.go","encode.go"],[("copy out","json.go:marshalJSON"),("reset and release","buffer.go:cachedBuffer, map.go:releaseMapElems")],
 [("bufferPool","buffers that nobody references","buffer.go"),("mapElemsPool","empty element lists that nobody references","map.go")])
p("P20","Caches are transparent: results do not depend on the types seen before",
 "The encoding of a value depends on its type, its content and the options only: not on which types were encoded before, in which order, or through which parent type they were reached (by value, pointer, interface or as an addressable field).",
 ["histories","programs"],"every sequence of types, including mutually recursive ones and types first seen as addressable or not",
 "tests run each type a few times in a fixed order; a wrong cache key shows only when a type is met in two different roles",
 ["instruction.go","struct.go","types.go"],[("instruction cache","instruction.go:cachedInstr, loadInstr, storeInstr"),("shared instructions","instruction.go:newSharedInstr"),("field and empty-func caches","struct.go:cachedFields, types.go:cachedEmptyFuncOf")],
 [("instrCachePtr","copy-on-write map from type to its top-level instruction","instruction.go")])
p("P21","Errors are reported, from any depth, and no bytes are returned with them",
 "If any value nested anywhere in the encoded value cannot be encoded, the call fails: Marshal and MarshalOpts return nil bytes and the error of the first such value in encoding order (unmodified through arrays, slices, pointers, interfaces, maps and structs). A call that returns no error encoded the whole value.",
 ["inputs","programs"],"every position and kind of failing value (unsupported type or value, invalid number, failing marshaler, time out of range) at any depth",
 "tests check the error of top-level or shallow values; each composite must propagate it on its own",
 ["encode.go","json.go","instruction.go"],[("propagation in each composite","encode.go"),("result selection","json.go:marshalJSON")])
p("P22","Encoding never panics nor indexes out of bounds",
 "Encoding any acyclic value with any valid options terminates without panicking by itself: no index or slice bound is exceeded, no nil pointer is dereferenced and no failed assertion occurs in the encoder, for any content of the values.",
 ["inputs","configurations","programs"],"every value and option combination; panics raised by the marshalers of the user are excluded",
 "tests exercise a few sizes of the fixed-size buffers and look-back windows used by the encoder",
 ["encode.go","time.go","number.go","json.go","map.go","struct.go"],[("fixed-size buffers","time.go"),("look-back indexes","encode.go:appendFloat, encodeStruct, encodeSortedMap")])
p("P23","Successful output is well-formed JSON",
 "Whenever a call succeeds with string escaping, number validation and compaction enabled, the bytes encoded form exactly one syntactically valid JSON value without insignificant whitespace, provided that the AppendJSON methods of the user append one and that the custom time layout produces no character to escape.",
 ["inputs","configurations","programs"],"every value of every type, all other options",
 "tests compare a finite set of outputs; well-formedness must hold for all compositions of encoders, separators and omissions",
 ["encode.go","time.go","number.go"],[("separators and delimiters","encode.go:encodeStruct, encodeArray, encodeMap, encodeSyncMap"),("leaf forms","encode.go, time.go, number.go")])
p("P24","Concurrent encoding is free of data races",
 "Any number of goroutines may encode values of any types, the same or different ones, at the same time without data races or deadlocks, each getting the result it would get alone, provided that nothing modifies the values meanwhile and that their marshalers may run concurrently.",
 ["schedules"],"all interleavings of concurrent calls, including first uses of the same recursive types",
 "tests run single-threaded; races on the caches need precise interleavings",
 ["instruction.go","buffer.go","map.go"],[("copy-on-write publication","instruction.go:storeInstr"),("placeholder of types under construction","instruction.go:newSharedInstr")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
