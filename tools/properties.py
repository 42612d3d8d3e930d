#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in step with the checks by hand)."""
import json, os, sys
L = "src/lib.rs"
D = "json_derive/src/lib.rs"
P = "json_derive/parse/src/"
Q = "json_derive/quote/src/lib.rs"
TESTS = "The 18 unit tests sample a handful of hand-written %s; "

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files,
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mech],
                             observe_at=list(observe), hook_needed=None))

OBJ = ("object map", "key -> (newest value, older values newest first)", L + " enum Json")

ps = [
prop("C01", "Every well-formed JSON document is read, and read exactly",
 "Parsing any well-formed JSON text (RFC 8259 grammar, nested at most 512 levels, every number within the range of a double) succeeds, whatever whitespace, escape spellings and number spellings it uses. The value obtained is exactly the one the text denotes: same kinds, same strings, same numbers (nearest double), same array elements in order, and for every object key all its values in document order.",
 ["inputs"], "All well-formed JSON texts: every arrangement of kinds, nesting, whitespace placement, escapes, number spellings, duplicate and empty keys.",
 TESTS % "documents" + "the parser scans characters with nested-string state, so a defect shows only for particular combinations (a bracket inside an escaped string inside an object in an array, whitespace next to a separator).",
 [L], [("Json::parse and the parse_* functions", L + " Json::_parse, parse_array, parse_object, parse_string, parse_number"), ("whitespace and number grammar", L + " is_whitespace, valid_number"), ("nesting limit", L + " MAX_DEPTH")],
 [OBJ], ["str::parse::<Json>", "Json::parse", "decode"]),
prop("C02", "Text that is not JSON is rejected",
 "Parsing any text that is not a well-formed JSON document, or that holds a number no double can represent finitely or an escape that denotes no character, returns an error. The error is a parse error kind (of null, boolean, number, string, array, object, hex digit or a nesting/UTF-8 error), never a value.",
 ["inputs"], "All texts outside the JSON grammar: every single edit of a valid document, all short strings over the JSON alphabet, arbitrary Unicode text.",
 TESTS % "malformed texts" + "acceptance of one malformed shape (a stray separator, a missing quote, trailing text) is invisible unless that shape is tried.",
 [L], [("parse_* functions' error returns", L + " parse_null .. parse_object"), ("number grammar", L + " valid_number")], [], ["str::parse::<Json>", "Json::parse", "decode"]),
prop("C03", "No text makes an entry point panic, overflow or abort",
 "Whatever text is given as document or as path, parsing, decoding, get, set and del return a value or an error: they never panic, overflow the stack, loop or abort. (A set whose array index asks for more padding than memory can hold is outside this guarantee.)",
 ["inputs"], "All pairs of document and path strings, including arbitrarily deep nesting, unbalanced quotes, truncated escapes, multi-byte text at every boundary, and huge indices.",
 TESTS % "texts, none hostile" + "slicing at byte offsets, index arithmetic and recursion fail only at particular boundaries and depths.",
 [L], [("depth limit", L + " MAX_DEPTH, Json::parse_nested"), ("escape and surrogate handling", L + " parse_string, encode_utf8"), ("path scanning", L + " parse_path"), ("index checks", L + " Path::check_index")], [], ["Json::parse", "decode", "get", "set", "del"]),
prop("C04", "Rendering then parsing gives the same value back",
 "For every value whose numbers are finite (nested at most 512 levels), parsing its rendered text succeeds and gives an equal value: numbers bit for bit, strings character for character, array order, and each key's values oldest to newest. Rendering that value again gives the same text.",
 ["inputs"], "All JSON values: all doubles (subnormal, huge, negative zero), all strings, empty and deep containers, keys with any number of duplicate values.",
 TESTS % "values" + "renderer and parser share escapes, number text and duplicate order only by convention, so they can disagree on values no test holds.",
 [L], [("rendering", L + " ToString for Json, escape, hex"), ("parsing", L + " FromStr for Json"), ("duplicate order", L + " object_insert, add_option")], [OBJ], ["Json::to_string", "str::parse::<Json>"]),
prop("C05", "Rendered text is canonical",
 "The rendered text of a value is well-formed JSON and depends on the value alone, not on how or in which order it was built: keys sorted, each key's values oldest first, ', ' and ': ' as the only separators. It is pure ASCII: every other character, and every control character, is written as its upper-case \\u escape (surrogate pair beyond U+FFFF) or short escape, and numbers are written in the shortest plain decimal form that reads back to the same double.",
 ["inputs", "histories"], "All values and all construction orders of the same value (insertion orders, hash-map iteration orders, edit histories).",
 TESTS % "rendered texts" + "hash-map order differs per run and per size, and the escape table has 1.1 million entries.",
 [L], [("rendering", L + " ToString for Json"), ("escape table", L + " escape, hex, HEX_TABLE")], [OBJ], ["Json::to_string", "encode"]),
prop("C06", "Every string survives any spelling, as value and as key",
 "Every sequence of Unicode characters can be written as a JSON string, with any mixture of literal characters, short escapes and \\u escapes (either hex case, surrogate pairs beyond U+FFFF), as value or object key, and is read back as exactly that sequence. Rendering it and reading it again preserves it.",
 ["inputs"], "All strings and, per string, all JSON spellings of it; every Unicode scalar value individually.",
 TESTS % "strings" + "1.1 million characters times the spellings of each, at every position next to quotes and backslashes.",
 [L], [("string parser", L + " parse_string, parse_hex_digit, encode_utf8"), ("escaping", L + " escape, hex")], [], ["str::parse::<Json>", "Json::to_string"]),
prop("C07", "Numbers are read and written exactly",
 "Every JSON number text whose value rounds to a finite double is read as the nearest double (ties to even), and one that would overflow is rejected as a number error. Every finite double rendered and read back is the same double, and NaN and the infinities render as null.",
 ["inputs"], "All number spellings (sign, fraction, exponent, many digits) and all 2^64 double bit patterns.",
 TESTS % "number literals" + "rounding ties, subnormals, overflow thresholds and long digit strings are a vanishing part of ordinary inputs.",
 [L], [("number parsing", L + " parse_number, valid_number"), ("number rendering", L + " ToString for Json")], [], ["str::parse::<Json>", "Json::to_string", "decode::<f64>"]),
prop("C08", "Typed values survive encoding and decoding",
 "For every supported Rust type (integers, floats, booleans, strings, options, vectors, maps, vectors of pairs, JSON values, and their nestings), encoding a value gives the JSON the type's documented mapping prescribes and decoding that text gives the same value, up to the precision of a double for wide integers. A vector of pairs keeps every pair of a repeated key in order; None is null.",
 ["inputs"], "All values of the supported types and of nested combinations of them.",
 TESTS % "typed values" + "the mapping must hold for every value of every nesting of types.",
 [L], [("ToJson / FromJson implementations", L + " impl ToJson for .., impl FromJson for .."), ("number_imp!", L + " number_imp")], [OBJ], ["encode", "decode", "Json::convert"]),
prop("C09", "Decoding a value of the wrong shape is a conversion error",
 "Decoding any JSON value into a supported type either gives the value the mapping prescribes or, when the value (or any part of it at any depth) has another shape, returns a conversion error. It never panics, never returns a value made from a mismatched part, and never another error kind.",
 ["inputs"], "All pairs of a JSON value and a supported target type, including single mismatches planted at every depth.",
 TESTS % "conversions" + "a single wrong element deep inside a collection must be noticed for every type.",
 [L], [("FromJson implementations", L + " impl FromJson for ..")], [], ["decode", "Json::convert"]),
prop("C10", "Path text names exactly one sequence of keys and indices",
 "A path text denotes a sequence of steps separated by dots: '#n' is element n of an array (counted from 0), anything else is an object key, in which '\\.' is a dot and from whose beginning a backslash before '#' or '\\' is taken off. Every operation given the text acts exactly as when given that sequence step by step. Text that is not a path (empty, or a '#' without a number) is refused with a path syntax error, before anything is changed.",
 ["inputs"], "All strings as paths: all short strings over the path alphabet, all sequences of up to 512 keys and indices in every spelling.",
 TESTS % "paths" + "the hand-written scanner has many states and separators, each only reachable by specific texts.",
 [L], [("path scanner", L + " parse_path"), ("Finder, Path", L + " Finder, Path")], [], ["Json::get", "Json::set", "Json::del", "get", "set", "del"]),
prop("C11", "Lookups find the element named and nothing else",
 "Looking up a path in a value gives exactly the element the path names (the newest value of a key, the n-th element of an array) in every form of lookup: by path text, by path value, mutable, by indexing or one-shot. A path naming nothing gives the error of its first failing step (key missing, index out of range, or not an object/array there), indexing panics exactly in those cases, and no lookup changes the value.",
 ["inputs"], "All pairs of a value and a path, existing or failing at any step.",
 TESTS % "lookups" + "every combination of structure, step kind and failure position matters.",
 [L], [("Finder::find, find_mut", L + " Finder"), ("Path::find", L + " Path"), ("Index, IndexMut", L + " impl Index for Json")], [OBJ], ["Json::find", "Json::find_mut", "Json::get", "Json[..]", "get"]),
prop("C12", "Setting a path puts the value there and changes nothing else",
 "After setting a path succeeds, looking the path up gives the value set, and every element not on the path is as before, duplicates included. Missing keys and containers are created, an array is padded with null up to the index, an element of another kind on the way is replaced by the container the step needs, and setting an index no array can hold is an index error.",
 ["inputs", "histories"], "All triples of value, path and new value, and all sequences of sets.",
 TESTS % "updates" + "the frame condition is a statement about everything else in an arbitrary value.",
 [L], [("Finder::update, Path::update", L + " Finder, Path"), ("index check", L + " Path::check_index")], [OBJ], ["Json::update", "Json::set", "set", "Json[..] = .."]),
prop("C13", "Deleting a path removes that element and nothing else",
 "Deleting a path that names an element returns that element and removes it: from an object the key with all its values, from an array that position, later elements moving up by one. Everything else stays as it was, and a path naming nothing changes nothing and gives the error of its first failing step.",
 ["inputs", "histories"], "All pairs of value and path, and all sequences of deletions.",
 TESTS % "deletions" + "the frame condition ranges over arbitrary values.",
 [L], [("Finder::discard, Path::discard", L + " Finder, Path")], [OBJ], ["Json::discard", "Json::del", "del"]),
prop("C14", "Object edits behave as an ordered multimap",
 "After any sequence of inserts (replacing every value of a key), appends (adding a newest value) and deletes (removing a key), an object holds for each key exactly the values that sequence leaves, oldest to newest. Object edits on a value that is not an object, and deletes of absent keys, return the documented error.",
 ["histories"], "All histories of object edits over a set of keys, through every edit method.",
 TESTS % "edit sequences" + "order among duplicates depends on the whole history.",
 [L], [("insert, append, add_option, delete, index_and_merge", L + " impl Json")], [OBJ], ["Json::insert", "Json::append", "Json::delete", "Json::index_and_merge", "Json::to_string"]),
prop("C15", "Array edits behave as a sequence",
 "After any sequence of pushes, replacements and removals by index, an array holds exactly the elements a plain sequence would hold. Positions past the end give an index error, and array edits on a value that is not an array give the documented error.",
 ["histories"], "All histories of array edits with indices inside, at and past the end.",
 TESTS % "edit sequences" + "off-by-one conditions depend on the length the history has produced.",
 [L], [("push, replace, remove", L + " impl Json")], [], ["Json::push", "Json::replace", "Json::remove"]),
prop("C16", "Values of a repeated key are all kept, in order, everywhere",
 "An object with repeated keys, however obtained (parsed, built, encoded from pairs, edited), keeps all values of each key in the order they were given. Merged access, decoding to pairs, rendering and equality all see that same order, lookups and map decoding see the newest, and edits elsewhere never reorder or drop any.",
 ["inputs", "histories"], "All objects with any multiplicity per key, and all ways in and out of them.",
 TESTS % "objects with two or three duplicates" + "each way in stores, and each way out reverses, the duplicates separately.",
 [L], [("object_insert", L + " object_insert"), ("add_option", L + " Json::add_option"), ("index_and_merge", L + " Json::index_and_merge"), ("Vec<(K, V)> conversions", L + " impl FromJson for Vec<(K, V)>")], [OBJ], ["Json::parse", "Json::index_and_merge", "Json::to_string", "decode::<Vec<(K, V)>>"]),
prop("C17", "A failed operation leaves the value untouched",
 "Whenever an edit, set, update, delete or lookup returns an error, the value is exactly as before the call, at every depth.",
 ["inputs", "histories"], "All values and all failing operations, with the failure at any step of the path or in any argument.",
 TESTS % "error cases, without looking at the value afterwards;" + " partial work before the error is detected only shows for particular paths.",
 [L], [("validation before change", L + " Path::check_index, Path::discard, Finder::discard, Json::add_option")], [OBJ], ["Json::set", "Json::del", "Json::update", "Json::discard", "Json::insert", "Json::remove"]),
prop("C18", "The building and path macros equal the calls they stand for",
 "object!, array! and path! build exactly the value or path their entries denote, in order, wherever they are used and for any number and form of entries, key and value types, and trailing comma; every entry is evaluated once, in order. find!, update! and discard! behave, in result and effect, exactly as the method called with that path.",
 ["inputs"], "All entry lists and all values and paths the macros are applied to.",
 TESTS % "macro calls" + "each macro arm has its own expansion.",
 [L], [("macros", L + " macro_rules! object, array, path, find, update, discard")], [OBJ], ["object!", "array!", "path!", "find!", "update!", "discard!"]),
prop("C19", "One-shot functions equal parse, operate, render",
 "encode, decode, get, set and del on text give exactly what parsing the text, performing the operation on the value and converting or rendering the result gives. Errors are those of the first failing stage.",
 ["inputs"], "All texts, paths and values, including failing ones at each stage.",
 TESTS % "one-shot calls" + "agreement is a relation over all inputs.",
 [L], [("one-shot functions", L + " encode, decode, get, set, del")], [], ["encode", "decode", "get", "set", "del"]),
prop("C20", "Derived encoding gives one member per field",
 "For every structure with named fields, the derived encoding of a value is an object with exactly one member per field that is not ignored, under the field's name or its key attribute, holding the encoding of that field's value. Fields given the same key become repeated values of it in declaration order.",
 ["programs", "inputs"], "All structures with named fields (field counts, types, generics, attributes) and all values of them.",
 TESTS % "structures (two)" + "the derive generates code, so the property quantifies over programs.",
 [D, P + "lib.rs", P + "field.rs", P + "meta.rs", P + "name.rs", P + "generic.rs", Q], [("derive", D + " json_encode"), ("item parser", P + "lib.rs Item, field.rs Fields"), ("quasi-quoting", Q)], [], ["#[derive(JsonEncode)]", "encode"]),
prop("C21", "Derived decoding reads each field from its own member",
 "For every structure with named fields, derived decoding of an object gives each field the newest value of its key, ignored fields their default, and pays no attention to other members; so, where keys differ, decoding the encoding gives the value back. An absent key is a missing-key error, a value of the wrong shape that field's error, and a non-object a conversion error.",
 ["programs", "inputs"], "All structures with named fields and all JSON values given to them: complete, with members missing, surplus, repeated or of the wrong shape.",
 TESTS % "structures (two)" + "the derive generates code, so the property quantifies over programs.",
 [D, P + "lib.rs", P + "field.rs", P + "meta.rs", P + "name.rs", Q], [("derive", D + " json_decode"), ("field types as paths", P + "name.rs Type::used_ty")], [], ["#[derive(JsonDecode)]", "decode", "Json::convert"]),
prop("C22", "The derives accept every structure they document",
 "Every structure with named fields, whatever its visibility, attributes (names, literal values and groups of them), doc comments, number of fields, field types, generic parameters, bounds and where clauses, compiles with the derives. Anything else (tuple and unit structures, enumerations, unions) is refused at compile time.",
 ["programs"], "All structure definitions of crates of edition 2018 or later in the supported Rust subset.",
 TESTS % "structures (two)" + "whether generated code compiles is a property of every program.",
 [D, P + "lib.rs", P + "field.rs", P + "generic.rs", P + "name.rs", P + "meta.rs", Q], [("item parser", P), ("derive", D)], [], ["#[derive(JsonEncode, JsonDecode)]"]),
prop("C23", "Parsed items print back as the same item",
 "Parsing the tokens of any structure, enumeration or function item of the supported subset succeeds and gives its visibility, name, generics, where clause, attributes, fields, variants, parameters and result as written. Printing the parsed item and parsing that again gives the same item.",
 ["programs"], "All structure, enumeration and function items of the supported Rust subset.",
 "The parser's own tests do not run it on items at all (it works only inside a procedural macro); the property ranges over all item token streams.",
 [P + "lib.rs", P + "field.rs", P + "enum_value.rs", P + "param.rs", P + "generic.rs", P + "name.rs", P + "utils.rs"], [("Parse and ToString implementations", P)], [], ["json_parse::parse", "ToString for Item"]),
prop("C24", "Attribute contents are read exactly",
 "Attributes of items, fields and variants are read as written: identifiers, literals (string, byte string, integer, float, boolean) with their exact values, name-value pairs and nested groups, in order. Every documented accessor (by position, name, nested name) gives the element so named and nothing for any other.",
 ["programs", "inputs"], "All attribute contents: nestings of identifiers, pairs, groups and literals.",
 "No test exercises attribute parsing beyond one key attribute; literal spellings and nestings are unbounded.",
 [P + "meta.rs"], [("Meta, Lit, MetaItem, MetaIndex", P + "meta.rs")], [], ["Meta::get", "Meta::idents", "Meta::literals", "Meta::pairs", "Meta::groups"]),
prop("C25", "Quasi-quoting expands to exactly the tokens described",
 "quote! gives exactly its literal tokens with every interpolation replaced by the tokens of the value, every repetition by its body once per element with its separator only between elements, and every optional part by its body exactly when the value is present. Nesting of these composes the same way. Inside a scope or parameter group, defined names and macros are replaced by what they were defined as, of an #if chain the first branch that holds is emitted, loops repeat their block per element, and nothing defined there is visible outside. Tokens the template itself makes carry the span @span names.",
 ["programs", "inputs"], "All templates of the documented forms, nested, and all values interpolated.",
 "The crate's documentation examples do not even compile as tests; each form has its own hand-written expansion.",
 [Q], [("quote macro", Q)], [], ["quote!"]),
prop("C26", "Values compare and copy by what they hold",
 "Two values are equal exactly when they hold the same structure: same kinds, strings, numbers, array elements in order and, per key, the same values in the same order, regardless of how or in which order they were built. A copy, or the value's own conversion to JSON and back, is equal to the original and independent of it: editing one never changes the other.",
 ["inputs", "histories"], "All pairs of values, construction orders, and edits after copying.",
 TESTS % "equalities" + "equality over hash maps of lists is a relation over all pairs.",
 [L], [("derived PartialEq, Clone", L + " enum Json"), ("ToJson, FromJson for Json", L + " impl ToJson for Json")], [OBJ], ["Json == Json", "Json::clone", "ToJson for Json"]),
prop("C27", "The item parser answers every token stream",
 "Whatever tokens they are given (no tokens at all, tokens missing, repeated, out of place, in other or invisible delimiters), the parsers of json_parse return an item or an error: they never panic, overflow the stack or loop. Printing what they return does not panic either.",
 ["inputs"], "All token streams, given to each of the parsers: items, attributes, literals, generics, where clauses, fields, variants, parameters, names and types.",
 "The parsers run only inside a procedural macro, where no test goes; a panic needs tokens that are no item, of which there are endless kinds.",
 [P + "lib.rs", P + "meta.rs", P + "field.rs", P + "enum_value.rs", P + "param.rs", P + "generic.rs", P + "name.rs", P + "utils.rs"], [("Parse implementations", P), ("splitting of tokens", P + "utils.rs split_tokens_by"), ("skipping of parsed tokens", P + "lib.rs __token_num")], [], ["json_parse::parse"]),
prop("C28", "Every failure names its kind and its cause",
 "An operation that fails gives the error kind of its cause: MissingKey where an object lacks the key, IndexOutOfRange where an array is too short, InvalidValueKind where the value is of another kind than the operation needs, PathSyntaxError for a path text that is none, ConvertError for a value of another shape than the type decoded to, and for text that is no JSON a parse error of a construct the text has (of the scalar, where just a scalar is broken), the same through every entry point. Its message names the key, the index, the malformed index text, or the kinds of value expected and found. It is displayed as 'Kind: message' and keeps both when boxed.",
 ["inputs"], "All failing operations: values, keys, indices, paths, texts and target types.",
 TESTS % "errors, mostly only for being errors" + "which of several causes applies depends on the value reached and the step of the path.",
 [L, D], [("error construction", L + " Error::new and its callers, ErrorKind"), ("displaying", L + " Display for Error, Display for ErrorKind"), ("kinds of value", L + " Json::_kind")], [OBJ], ["Error::kind", "Error::msg", "Display for Error"]),
prop("C29", "Misplaced directives of a scope are refused",
 "A quote! @scope with a directive out of its place does not expand to anything: its compilation or its expansion fails. Out of place are: any directive but a block between #foreach and #endfor, #elif, #else or #endif without an open #if, #endfor without an open #foreach, anything after #end, and a call of a macro with another number of arguments than it has parameters. Without the misplaced directive the same template expands.",
 ["programs", "inputs"], "All scope templates and all places in them for such a directive, whatever its branch is.",
 "No test expands a scope that is wrong; the property ranges over all templates and positions.",
 [Q], [("scope commands", Q + " __scope_command"), ("macro calls", Q + " __translate")], [], ["quote!"]),
prop("C30", "Parts of an item, and the parser's helpers, stand alone",
 "Every part of an item (type, type argument, name, generic parameter or list, where clause, field or fields, variant or variants, parameter or parameters, a struct, enum or function) given alone to its own parser reads as it does within the item, prints back to itself, and is refused as an item it is not or in other brackets. The parser's helpers do as their comments say: splitting by a separator of any length finds it wherever it stands outside of angle brackets and groups, also at the end, and nowhere else; used_ty is the type without its lifetime and binding; integers are read in every base and refused when the type cannot hold them.",
 ["inputs"], "All parts of items in every spelling, all separators of one to three punctuation characters, all integer literals for every integer type.",
 "The parsers run only inside a procedural macro, where no test goes; a part given alone ends where its tokens end, so every look-ahead of the parser meets the end of the tokens.",
 [P + "lib.rs", P + "generic.rs", P + "name.rs", P + "field.rs", P + "enum_value.rs", P + "param.rs", P + "utils.rs"], [("Parse implementations", P), ("splitting", P + "utils.rs split_tokens_by"), ("type without its lifetime", P + "name.rs Type::used_ty"), ("integers", P + "utils.rs parse_int")], [], ["json_parse::parse", "json_parse::utils", "Type::used_ty"]),
prop("C31", "Cost grows in proportion to size",
 "Reading, rendering, copying, comparing, converting and editing take memory and time in proportion to the size of what they are given (the text's length, at a fixed depth; the number of elements, members, or values of one key): for each element no more in a large input than in a small one, whatever it is made of. This holds for refused texts too.",
 ["inputs", "histories"], "All kinds of elements, keys (all different, few, one), strings, blanks, digits and edit histories, in sizes up to tens of thousands.",
 TESTS % "documents, all of them small" + "cost that grows with the square of the size shows on large inputs only.",
 [L], [("scanning of arrays and objects", L + " parse_array, parse_object"), ("repeated keys", L + " object_insert, index_and_merge"), ("escaping", L + " escape, hex")], [OBJ], ["Json::parse", "Json::to_string", "Json::append", "encode", "decode", "get", "set", "del"]),
prop("C32", "Calls do not influence one another",
 "What a call gives depends on its arguments alone. The same call on the same text, path and value gives the same result, or the same error, whatever was called before it (calls that failed included), however often, in whatever order, and whatever other threads call at the same time; that holds too for a call made by a user's own conversion (ToJson, FromJson, or a key's ToString or FromStr) in the middle of another call, for the call around it, and for calls after one that such a conversion gave up by a panic. (Objects have no order among different keys: the order in which pairs of different keys are decoded, and which of several members of the wrong shape an error names, are free.) Values held side by side are independent: editing, copying, reading or dropping one, or putting a copy of it into another, changes no other.",
 ["histories", "schedules"], "All sequences of calls on the text entry points and of edits of values held at once, in one thread, on several at once, and one within another.",
 "Each unit test makes a few calls on fresh arguments; state kept between calls shows only in histories that return to the same or a similar argument, or fail in between.",
 [L], [("text entry points", L + " encode, decode, get, set, del, Json::parse"), ("editing", L + " Json::update, discard, append"), ("copying", L + " Clone for Json")], [OBJ], ["Json::parse", "encode", "decode", "get", "set", "del", "Json::update", "Json::discard"]),
]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in ps:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
