#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, tech, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note, observe=observe))

prop("P01", "Parsing valid JSON is faithful",
 "Every text which RFC 8259 accepts (integers within int64 to uint64 and floats within float64) parses without an error through every Unmarshal entry point, and the result has exactly the types, strings (all escapes and Unicode decoded), number texts, array elements in order, and object members of the text, a repeated key keeping its last value. The members iterate by set sequence in the order of the text. The entry points agree with each other, and none but the NoCopy ones keeps or changes the given bytes.",
 ["inputs"], "all valid documents: nesting, sizes, key collisions, every spelling of blanks, escapes and numbers; every entry point",
 "The tests parse some dozens of fixed texts; boundaries of buffers, escapes, digit counts and sizes of containers are not sampled.",
 ["unmarshal.go", "jsonvalue.go", "jsonvalue_internal.go", "internal/unsafe/unsafe.go"],
 [("recursive descent over the byte slice", "unmarshal.go"), ("string unescaping in place", "unmarshal.go: parseStrFromBytesForwardWithQuote"), ("pool of preallocated values", "jsonvalue_internal.go: poolImpl")],
 "property-based testing (rapid): generated documents rendered with random blanks and escapes, compared through the read API with a reference tree",
 "quick 8 x n cases of up to three documents; some of up to 100000 elements or members, strings of up to 100000 characters, nesting up to 5000; some after 2 GB of other input")
prop("P02", "Malformed input is rejected",
 "Text which is not valid JSON, apart from a few tolerated relaxations (missing, repeated or trailing commas, the escape \\', raw control characters in strings, a backspace as a blank, lone surrogate escapes), makes every Unmarshal entry point return an error and a non-nil value of type NotExist. No input whatsoever causes a panic or an endless loop, and UnmarshalJSON or UnmarshalBinary that fails leaves its value as it was.",
 ["inputs"], "all byte strings of bounded nesting: mutations, truncations and splices of valid JSON, token soup, raw bytes",
 "The tests hold some dozens of malformed texts; acceptance of a single malformed class, or a panic at the end of the buffer, needs an input nobody wrote down.",
 ["unmarshal.go", "jsonvalue.go"],
 [("checks of literals, numbers, escapes, UTF-8 and trailing text", "unmarshal.go")],
 "property-based testing / mutation fuzzing (rapid) against a reference recogniser, with a watchdog for hangs",
 "the relaxations may be accepted or rejected; nesting of millions of levels is a known finding")
prop("P03", "Marshaled text is valid JSON and round trips",
 "Whatever value the API builds (parsed or constructed, with any strings, even invalid UTF-8) and whatever options are given, Marshal either returns an error and no text, or text which is valid JSON by RFC 8259 and UTF-8. That text means the same as the value, as read by an independent parser, and parsing it again gives an equal value whose marshaling under the same options means the same. Marshal, MarshalString, MustMarshal and MustMarshalString agree, and marshaling does not change the value.",
 ["inputs", "configurations"], "all values and combinations of marshal options",
 "The tests compare fixed values under one or two options each; combinations of options and of nesting are not sampled.",
 ["marshal.go", "option.go", "sort.go", "conv.go", "internal/buffer/buffer_impl.go"],
 [("recursive writer", "marshal.go"), ("escaping tables", "option.go: parseEscapingFuncs, conv.go")],
 "property-based testing (rapid): round trip and differential against an independent strict parser",
 "floats which marshal as integers beyond uint64 are a known finding and not generated")
prop("P04", "Numbers are parsed and converted exactly",
 "A number text is accepted exactly if it matches the RFC 8259 grammar and is an integer between the minimum of int64 and the maximum of uint64, or has a fraction or exponent and is within the range of float64. Int64, Uint64, Int, Uint, Int32, Uint32, Float64 and Float32 give exactly the number wherever the type holds it (truncating fractions, rounding floats to the nearest), IsInteger, IsFloat, IsNegative, IsPositive and GreaterThanInt64Max agree with the text, and String and Marshal give the text itself.",
 ["inputs"], "all texts over the characters of numbers, wherever a number can stand",
 "The tests use few numbers; the limits of int64, uint64 and float64, exponent forms and digit counts are where hand-written number parsers fail.",
 ["unmarshal.go", "conv.go", "jsonvalue.go", "new.go"],
 [("digit loop with separate positive, negative and float results", "unmarshal.go: parseNumber")],
 "property-based testing (rapid): boundary-biased number texts against a grammar recogniser and strconv",
 "conversions outside of the range of the target type are unspecified")
prop("P05", "Get and typed getters find exactly the addressed value",
 "For every value and path of keys and indexes (negative ones count from the end; any integer type; keys and indexes may also be given as slices or arrays), Get returns the live child at that path, or a NotExist value and an error of the right class: ErrNotFound for a missing key, ErrOutOfRange for an index, ErrTypeNotMatch where a step goes into a scalar. Every typed getter returns the converted child and no error if its type fits (numbers also from strings, with an error of class ErrTypeNotMatch or ErrParseNumberFromString), and otherwise the zero value and an error. MustGet is Get without the error.",
 ["inputs"], "all documents, paths and forms of giving a path; every getter of *V",
 "Each getter is tested on one or two paths; the product of getters, value types, path forms and failures is not.",
 ["get.go", "conv.go", "errors.go"],
 [("path recursion", "get.go: get, getInCurrentLevel"), ("typed getters", "get.go"), ("integer parameters by reflection", "conv.go: anyToInt")],
 "property-based testing (rapid) against a reference lookup and conversion",
 "which error an unsupported kind of parameter gives is unspecified")
prop("P06", "Set changes exactly the addressed place",
 "Set(x).At(path), the typed SetXxx, the MustSet forms and At(path).Set(x) put the value at exactly that path: an existing member or element is replaced, missing objects and arrays on the way are created, an index equal to the length appends, and nothing else changes. The given *V itself (or an import of another value) becomes the child and is returned, so that Get at the path returns it. If the path cannot be followed (a scalar on the way, a key in an array or an index in an object, an index out of range) or the value is illegal, an error and a NotExist value are returned, and nothing changes at all, not even on the way.",
 ["histories", "inputs"], "all histories of operations, values in every form and paths in every form, also through handles of descendants",
 "The tests make short fixed histories; that a failing operation leaves no trace, and that paths of any shape are created right, needs many histories compared with a model.",
 ["set.go", "set_must.go", "jsonvalue_internal.go"],
 [("recursion which creates missing containers", "set.go: At, atObject, atArray")],
 "stateful property-based testing (rapid): histories against a model tree, compared after every step", "no value is put into itself")
prop("P07", "Append and Insert place elements exactly",
 "Append(x).InTheEnd, Append(x).InTheBeginning and Insert(x).Before and After, with all typed and Must forms, put one element at exactly the stated place of the addressed array (negative indexes count from the end) and keep the order and identity of all others; Append creates a missing array at its path. The result is the element itself. If the target is not an array, the index is out of range, or the value is illegal, an error and a NotExist value are returned and nothing changes.",
 ["histories", "inputs"], "all histories of operations on nested arrays",
 "Off-by-one errors at the ends, growth of arrays and failing operations need histories of many lengths and indexes.",
 ["insert_append_delete.go", "insert_append_delete_must.go", "jsonvalue_internal.go"],
 [("insertion into the slice of elements", "jsonvalue_internal.go"), ("path handling", "insert_append_delete.go")],
 "stateful property-based testing (rapid): histories against a model tree, compared after every step", "")
prop("P08", "Delete removes exactly the addressed member",
 "Delete(path) and MustDelete remove exactly the addressed member or element, the others keep their order and identity, and afterwards the key is not found by any way of reading. Otherwise the error is ErrNotFound for a missing key, ErrOutOfRange for an index, or one about the type, and nothing changes.",
 ["histories", "inputs"], "all histories which delete, set again and delete at all depths",
 "Removal at the ends, of the last element, or of a key which is set again later depends on the history.",
 ["insert_append_delete.go", "jsonvalue_internal.go"],
 [("removal from map, caseless cache and slice", "jsonvalue_internal.go: delFromObjectChildren, deleteInArr")],
 "stateful property-based testing (rapid): histories against a model tree, compared after every step", "")
prop("P09", "Set sequence is the order in which keys were last set",
 "RangeObjectsBySetSequence and marshaling with OptSetSequence give the members of every object in the order in which their keys were last set, or stood in the parsed text: setting an existing key moves it to the end, deleting a key does not move the others, and changing something inside of a member does not move it. Copies made by Import keep the order.",
 ["histories"], "all histories of sets, replacements, deletions and copies",
 "The order is a property of the whole history; the tests check one.",
 ["set.go", "jsonvalue_internal.go", "iteration.go", "marshal.go", "jsonvalue.go"],
 [("increasing identifier per set", "set.go: setToObjectChildren"), ("copying of identifiers", "jsonvalue.go: deepCopy")],
 "stateful property-based testing (rapid): histories against an ordered model", "")
prop("P10", "Caseless access agrees with the live keys",
 "Caseless().Get and its typed getters prefer the key as given, and otherwise find some live key which has the same lower-case form; they fail with ErrNotFound exactly if there is none. Caseless().Delete deletes exactly the member which that lookup can find. This holds after any history of sets and deletions, caseless or not, at every level of a path.",
 ["histories", "inputs"], "all histories which mix caseless and exact reads, sets and deletions over colliding keys",
 "The caseless index is built lazily and kept up to date by other operations; the tests do not mix them.",
 ["get.go", "jsonvalue_internal.go", "insert_append_delete.go"],
 [("lazily built index of lower-case keys", "jsonvalue_internal.go: lowerCaseKeys")],
 "stateful property-based testing (rapid): histories against a model which allows every admissible result", "")
prop("P11", "Equal is structural equality",
 "v.Equal(w) is true exactly if both have the same type and content: strings byte by byte, numbers by exact value however they are spelled, arrays element by element, objects by members regardless of order and history. It is symmetric and reflexive for existing values, false for nil or NotExist, and changes neither value.",
 ["inputs", "histories"], "all pairs of values, however they were made",
 "The tests compare few pairs; near misses (one digit, one key, a prefix) and differently made equal values are not covered.",
 ["compare.go"], [("recursive comparison with decimals", "compare.go: Equal")],
 "property-based testing (rapid): equal variants and single mutations against structural equality over rationals", "decimal exponents within 2000")
prop("P12", "Comparisons order numbers by exact value",
 "GreaterThan, GreaterThanOrEqual, LessThan and LessThanOrEqual compare two numbers by their exact values, without a loss of precision and for any spelling, infinities being beyond all numbers. They are false whenever one side is NaN, nil, or not a number.",
 ["inputs"], "all pairs of values, integers beyond 2^53, long fractions, exponents, respelled numbers",
 "A comparison through float64 or of texts passes the existing tests.",
 ["compare.go"], [("comparison of decimals", "compare.go: greaterThan, greaterOrEqualThan")],
 "property-based testing (rapid) against math/big rationals", "decimal exponents within 2000")
prop("P13", "Predicates, conversions and String fit the value",
 "For every value exactly one of IsString, IsNumber, IsObject, IsArray, IsBoolean and IsNull holds and agrees with ValueType, which prints as string, number, object, array, boolean or null. Conversions give the number for numbers and strings which spell one (blanks around allowed), the truth of booleans, nonzero numbers and the string true, the decoded base64 of a string, and zero values otherwise; String gives a string's content, a number's text, or a readable form which names every member of a container.",
 ["inputs"], "all values, strings near numbers, booleans and base64",
 "The conversions form a table of types and contents which the tests touch at few places.",
 ["jsonvalue.go", "conv.go", "get.go"], [("conversion from strings", "get.go: getNumberFromNotNumberValue and similar"), ("String", "jsonvalue.go")],
 "property-based testing (rapid) against a reference table", "integer conversions of numbers outside of the target's range are unspecified")
prop("P14", "Import gives what encoding/json would marshal",
 "For every Go value which encoding/json can marshal, Import, New, Set, Append and Insert of it give the JSON which encoding/json writes: the names, the spelling of numbers, order and omission of struct fields by their tags, embedded structs, pointers, maps with all kinds of keys, byte slices, json.Number, and marshalers, also where they are nil; only nil slices give [] or, of bytes, an empty string. With OptIgnoreOmitempty, omitempty is ignored. For values which encoding/json rejects, Import returns an error with a NotExist value, or at least nothing which marshals.",
 ["inputs", "programs"], "all Go types made of basic kinds, structs with tags, embedding, pointers, slices, arrays, maps, interfaces and marshalers, and all their values",
 "The tests import about twenty struct types; the rules of encoding/json for tags, embedding and addressability combine in far more ways.",
 ["import_export.go", "new.go"], [("parsers chosen by reflection", "import_export.go: validateValAndReturnParser"), ("struct fields and tags", "import_export.go: parseStructValue")],
 "property-based testing (rapid): types made with reflect.StructOf and values, differential against encoding/json",
 "nil slices import as empty arrays (pinned by the tests); omitempty on marshalers looks at their output (pinned); the encoding/json of Go 1.13 counts: later options of tags (omitzero) and kinds of map keys are left out")
prop("P15", "Export and the standard interfaces interoperate",
 "Export(&dst) fills a Go value exactly as encoding/json does from the marshaled text, with an error in the same cases. Through MarshalJSON and UnmarshalJSON, MarshalBinary and UnmarshalBinary, a value survives encoding/json (also inside of structs, slices and maps) and gob; unmarshaling into a used value replaces all of its content.",
 ["inputs", "programs"], "all documents, and Go types which fit or do not fit them",
 "The tests export a few structs and send one value through encoding/json.",
 ["import_export.go", "marshaler_unmarshaler.go"], [("the four interface methods", "marshaler_unmarshaler.go"), ("Export", "import_export.go")],
 "property-based testing (rapid): differential against encoding/json, and round trips through encoding/json and gob", "")
prop("P16", "Key order options give exactly the promised order",
 "With OptDefaultStringSequence keys are in ascending order; with OptKeySequenceWithLessFunc in the order of the function, which is called with the two keys, their values and the true path of the object (which stays the same if kept); with OptKeySequence the listed keys come first, in that order, and the others after them; with OptSetSequence in the order of setting. The order holds in every object at every depth, no member is lost or doubled, and if several of these options are given the documented one takes effect.",
 ["inputs", "configurations"], "all documents and orders, also ones that depend on the path",
 "The tests use small flat objects; nested objects, arrays of objects and unlisted keys need generation.",
 ["sort.go", "option.go", "marshal.go"], [("sorting of members before writing", "sort.go"), ("path of parents", "sort.go: newParentInfo")],
 "property-based testing (rapid): text compared byte by byte with a reference marshaler", "key sequences have no duplicates; less functions are strict orders")
prop("P17", "NaN and infinities follow their options",
 "Without an option, NaN and infinities make marshaling fail with ErrUnsupportedFloat, at any depth. With OptFloatNaNToNull, ToString, ToFloat or their Inf forms they become null, the (escaped) string or the number given, infinities by their sign; a replacement which is NaN or infinite itself fails with ErrUnsupportedFloatInOpt. The rest of the text is unaffected.",
 ["inputs", "configurations"], "all documents with special floats and all combinations of these options, also the deprecated Opt struct",
 "The tests have one value per option.",
 ["marshal.go", "option.go"], [("conversion when a number is written", "marshal.go"), ("options", "option.go: mergeTo")],
 "property-based testing (rapid) against a reference marshaler", "")
prop("P18", "Escaping is exactly what the options say",
 "By default every character which is not ASCII is written as \\u escapes (surrogate pairs above U+FFFF) and <, >, & and / are escaped; OptUTF8 writes characters as they are (but still escapes what JSON or JavaScript requires), OptEscapeHTML(false) and OptEscapeSlash(false) leave those characters alone. Keys are escaped as values are, quotes, backslashes and control characters always are, and encoding/json reads the original string back under every combination.",
 ["inputs", "configurations"], "all strings as keys and values, and all combinations of the escaping options",
 "Escaping has boundaries at 0x7F, 0xFF, U+2028, U+FFFF and the surrogates, which fixed tests sample sparsely.",
 ["option.go", "conv.go", "marshal.go"], [("tables of escaping functions", "option.go: parseEscapingFuncs"), ("writers of escaped strings", "conv.go")],
 "property-based testing (rapid): byte by byte against a reference, and encoding/json as reader", "invalid UTF-8 is written as the replacement character or escapes of it, as the reference does")
prop("P19", "OptOmitNull and OptIndent change only what they say",
 "OptOmitNull leaves out exactly the object members which are null, at every depth, while array elements stay. OptIndent gives the layout of encoding/json's indentation with the given prefix and indent, so that removing blanks outside of strings gives the compact text. Both hold together and with every key order.",
 ["inputs", "configurations"], "all documents with nulls and empty containers, and all prefixes, indents and orders",
 "Commas and line breaks around omitted or empty members depend on neighbours; the tests have few.",
 ["marshal.go", "option.go"], [("writing of members and separators", "marshal.go, sort.go")],
 "property-based testing (rapid): byte by byte against a reference marshaler", "blanks inside an indented object whose members are all omitted are unspecified")
prop("P20", "Default options apply everywhere, under call options",
 "After SetDefaultMarshalOptions, every marshaling call behaves as if those options were given before its own ones, also MarshalJSON, MarshalBinary and encoding/json on a *V; ResetDefaultMarshalOptions restores the original behaviour. A later SetDefaultMarshalOptions replaces the earlier one, and options of a call do not leak into later calls.",
 ["histories", "configurations"], "all histories of setting, resetting and marshaling",
 "Leaks between calls need histories; the tests set the defaults once.",
 ["option.go", "marshal.go"], [("merging of options", "option.go: combineOptions")],
 "stateful property-based testing (rapid) against a reference marshaler", "")
prop("P21", "Values are independent of inputs, copies and results",
 "A parsed value does not change when the caller overwrites the given bytes (except for the NoCopy functions), an imported value does not change with the Go value or *V it was made from, and texts, slices and maps returned by the library neither change later nor affect any value when overwritten. Exactly the values got by Get or put in by Set are shared, so changes through them are seen by every holder. A missing value, whatever is done to it, affects no other value.",
 ["histories"], "all histories over several values: parsing, copying, handles, grafting, mutation, marshaling, overwriting",
 "Aliasing shows only in histories which change one thing and look at another; the tests look at what they changed.",
 ["jsonvalue.go", "unmarshal.go", "import_export.go", "marshal.go", "jsonvalue_internal.go", "internal/unsafe/unsafe.go"],
 [("copy of the input", "jsonvalue.go: Unmarshal"), ("deepCopy", "jsonvalue.go"), ("unsafe string conversion", "internal/unsafe/unsafe.go")],
 "stateful property-based testing (rapid): histories over a forest of values against a model with explicit sharing", "no value contains itself")
prop("P22", "Concurrent reads and separate values are safe",
 "Any number of goroutines may read the same value (exact getters, iteration, marshaling with any options, comparison, export, import of it), while others parse, change and marshal values of their own, without a data race, a panic or a wrong result. SetDefaultMarshalOptions may be called meanwhile: each marshaling uses either the old or the new defaults as a whole.",
 ["schedules", "histories"], "all interleavings of two to five goroutines with reads of a shared value, private histories and changes of the defaults",
 "The tests are single-threaded and run without the race detector.",
 ["option.go", "marshal.go", "get.go", "iteration.go", "compare.go", "import_export.go", "jsonvalue_internal.go"],
 [("reads without writes", "get.go, marshal.go, iteration.go"), ("atomic default options", "option.go, jsonvalue_internal.go")],
 "property-based testing (rapid) of concurrent histories under the race detector, compared with sequential results",
 "schedules are those of the Go scheduler under the race detector")
prop("P23", "Iteration visits every member exactly once",
 "RangeObjects, RangeObjectsBySetSequence, IterObjects and ForRangeObj on an object, and RangeArray, IterArray and ForRangeArr on an array, give every member exactly once, with its own key or index and the live child which Get returns, arrays in order; on other values they give nothing. A callback which returns false, or a loop which is left, ends the iteration at once, without leaving a goroutine behind. In loops over ForRangeObj and ForRangeArr the container itself may be changed.",
 ["histories", "inputs"], "all values and histories which made them, all seven ways to iterate, with early ends and changes in the loop",
 "The tests iterate over two or three fixed containers.",
 ["iteration.go"], [("loops over children", "iteration.go"), ("sorting by identifier", "iteration.go: RangeObjectsBySetSequence")],
 "property-based testing (rapid) against a model of members", "containers are not changed during RangeObjects and RangeArray")
prop("P24", "SortArray permutes, as the less function says",
 "SortArray with a consistent less function leaves the array with exactly the elements it had (the same *V, none lost or doubled or changed), in an order in which no element is less than one before it. Whatever the function answers, even inconsistently or by a panic, the array stays a permutation, and the function is only called with elements. A nil function or a value which is not an array changes nothing.",
 ["inputs"], "all arrays and less functions, up to 100000 elements",
 "The tests sort one array of numbers.",
 ["sort.go"], [("sort.Sort over the elements", "sort.go: SortArray")],
 "property-based testing (rapid): permutation and order invariants", "")
prop("P25", "beta.Contains decides containment",
 "beta.Contains(v, sub, path...) is true exactly if the path exists in v and the value there contains sub: an object contains an object if it has each of its keys with a value which contains sub's, an array contains an array if sub is a contiguous run of its elements (compared by Equal), and other values contain what equals them. It is false for different types, nil, missing or unsupported values, and changes nothing.",
 ["inputs"], "all values, subsets (given as *V or Go values) and paths",
 "The tests check about ten pairs; runs at the end, repeated prefixes and nested objects need generation.",
 ["beta/contain.go"], [("recursive containment", "beta/contain.go")],
 "property-based testing (rapid) against a reference definition", "")
prop("P26", "Constructors give exactly their argument",
 "NewInt, NewUint and their sized forms, NewString, NewBool, NewNull, NewObject, NewArray, NewBytes, and New of any basic Go value give a fresh value of the right type whose text, predicates and conversions are those of the argument; NewObject(M) of basic values has exactly the members of the map. NewFloat64 and NewFloat32 write the shortest decimal which reads back as the same float, spelled as by encoding/json (without an exponent for zero and magnitudes from 1e-6 up to 1e21); NewFloat64f and NewFloat32f write what strconv.FormatFloat does for the format (any other than f, e, E, g, G counts as g) and precision.",
 ["inputs"], "all arguments: integers of all widths, floats by bits, formats, precisions, strings, maps",
 "The tests construct a handful of numbers.",
 ["new.go"], [("constructors", "new.go")],
 "property-based testing (rapid) against strconv and encoding/base64", "the spelling of zero and of exponents is free")
prop("P27", "No call panics, and missing values are safe",
 "No method of a value, of a value which does not exist, or of what methods return panics, whatever arguments it gets (unsupported types, nil, huge or negative indexes, nil callbacks, invalid options' contents). Results of type *V are never nil, and are NotExist exactly together with an error; a NotExist value converts to zero values, iterates over nothing, fails to marshal, be set, appended to or deleted from with an error, and stays NotExist. Calls which only read, and calls which return an error, leave the value unchanged.",
 ["histories", "inputs"], "all sequences of calls of all public methods, with arguments of all kinds, on existing and missing values",
 "There are over 150 methods and countless argument types; the tests call each in its expected way.",
 ["get.go", "set.go", "insert_append_delete.go", "insert_append_delete_must.go", "set_must.go", "jsonvalue.go", "iteration.go", "marshal.go", "compare.go", "import_export.go", "beta/contain.go"],
 [("checks of types before use", "all methods"), ("NotExist as the zero value", "jsonvalue.go")],
 "property-based testing (rapid): API fuzzing by reflection with invariants over every call",
 "nil receivers, nil options and marshalers which panic are misuse")

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "./check.sh setup",
     "checks": [{"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
                 "technique": p["tech"], "level": "exploration", "level_note": p["note"] or "generated cases only; see DESIGN.md for the bounds"} for p in P],
     "not_applicable": []}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
