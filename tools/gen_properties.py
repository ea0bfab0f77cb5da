#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

PP = "src/parse/parser.rs"; CS = "src/parse/char_stream.rs"; FM = "src/parse/format.rs"; PU = "src/parse/util.rs"; PE = "src/parse/error.rs"
OB = "src/obj.rs"; AR = "src/arr.rs"; TU = "src/tup.rs"; TY = "src/types.rs"; VA = "src/value.rs"; ER = "src/error.rs"; LI = "src/lib.rs"; MA = "src/macros.rs"; UT = "src/util.rs"

prop("C01", "Parsing is total: every text yields an Obj or an error",
 "For every text, `Obj::from_str` (and `Obj::from_file` on a file holding it) returns: it yields an Obj or an error value, and never panics, aborts, accesses memory out of bounds, recurses beyond a fixed stack budget or loops forever. The same holds for writing out and dropping the Obj it returned.",
 ["inputs"], "all texts: every character sequence, of any length and nesting, malformed or not",
 "Tests sample about 60 fixed documents (some of them old fuzzer finds); a panic needs one particular character in one particular parser state, or a long repetition.",
 [PP, CS, PU, FM], [("parse_value / parse_variable / parse_unary_op dispatch, peek before unwrap", PP), ("MAX_DEPTH checks", PP), ("CharStream over a transmuted Chars iterator", CS)],
 observe=["Obj::from_str", "Obj::from_file", "Obj::write_to_string"])

prop("C02", "Parse -> write -> parse gives back an equal Obj",
 "For every document that parses to an Obj, `write_to_string` of that Obj is a document that parses again to an equal Obj (values, field order and parents alike), and writing that second Obj gives the identical text. This is claimed for Objs whose written form nests at most 64 levels, the parser's documented limit.",
 ["inputs"], "all parseable documents, over all value types, escapes, numbers, parents and nestings",
 "The suite round-trips a handful of fixed files; escaping, negative and whole fractions, empty and one-element containers and parents interact in ways only particular values show.",
 [FM, PP, OB], [("Format impls: escaping, indentation, 0/1/many element layouts, `.0` suffix", FM), ("parser accepts exactly what Format emits", PP)],
 observe=["Obj::from_str", "Obj::write_to_string", "Obj::eq"])

prop("C03", "Values built through the API are written and displayed faithfully",
 "For every Obj built through the public constructors or macros with distinct valid field names that are not reserved words (nesting at most 64 levels), `write_to_string` parses back to an equal Obj. For every Value, Arr, Tup or Obj, the text its `Display` gives, used as the value of a field, parses back to an equal value.",
 ["inputs", "programs"], "all values of every type: any Int, Frac (negative, whole, zero), any Str content, empty/one/many element Arr, Tup and Obj, nested, with or without a parent",
 "Tests write only Objs that came from parsing a few files; values that no source text produces directly (negative fractions, control characters, empty nested containers) are never written.",
 [FM, OB, AR, TU, VA], [("Format / Display impls for every type", FM), ("Display for Obj/Arr/Tup/Value uses format(true, INDENT_STEP)", OB)],
 observe=["Obj::write_to_string", "Display", "Obj::from_str"])

prop("C04", "Arrays hold one type, and inner_type is that type",
 "An Arr is accepted - from text, from an included Arr file, from `Arr::from_values`, or as the result of `+` on two Arrs - exactly when one type fits all its elements, where an empty array fits any array type. Its `inner_type` is the most specific such type (Any when empty), it does not depend on the order of the elements, and it is a type that every element has.",
 ["inputs"], "all element sequences, including nested empty arrays and tuples in any order",
 "Tests cover a few fixed sequences; whether a mismatch slips through depends on where empty arrays stand relative to typed ones.",
 [AR, PP, TY], [("incremental most_specific with has_any flag", AR), ("same loop in parse_arr and parse_arr_file", PP), ("Arr + Arr", PP)],
 observe=["Arr::from_values", "Arr::inner_type", "Obj::from_str"])

prop("C05", "Type equality and most_specific obey their laws",
 "For all types: `is` is structural identity; `==` is reflexive, symmetric and true exactly when the two types can be made identical by replacing Any; `has_any` tells whether Any occurs. `most_specific(a, b)` is Some exactly when one type fits both, the result is the same for (b, a), it equals both inputs, keeps every part that either input determines, and its flag says whether Any is left in it.",
 ["inputs"], "all pairs of types, of any shape and nesting",
 "Tests evaluate a few pairs; the laws quantify over all pairs of recursive types.",
 [TY], [("Type::is, Type::has_any, Type::most_specific, PartialEq for Type", TY)],
 observe=["Type::is", "Type::has_any", "Type::most_specific", "Type::eq"])

prop("C06", "Arithmetic in documents is exact, with the documented precedence",
 "An expression of +, -, *, /, % over Int and Frac operands evaluates to the exact mathematical result (no overflow or rounding; Int/Int gives a Frac, Int with Frac gives a Frac, % is Int only and truncates), with unary sign binding tightest, then * / % from left to right, then + - from left to right. `+` also concatenates two Strs or two Arrs of compatible type; division or modulo by zero and every other combination of operand types is an error.",
 ["inputs"], "all operand values (any magnitude and sign), all operator sequences, all operand types, operands written as literals or variables",
 "operations.over checks about 30 fixed expressions with small operands; precedence and sign errors need specific operator sequences, and overflow needs large operands.",
 [PP, PU], [("parse_value operator deques", PP), ("binary_op_on_values / unary_op_on_value", PP)],
 observe=["Obj::from_str", "Obj::get"])

prop("C07", "Number literals denote exactly the number written",
 "A literal of digits, with single underscores between them, denotes exactly that Int whatever its length; with one decimal point `.` or `,` it denotes exactly that decimal Frac, where either side of the point may be empty but not both. Leading and trailing zeros do not change the value, and text with two decimal points, doubled underscores or other characters in the number is rejected.",
 ["inputs"], "all number literals of any length",
 "numbers.over checks a few dozen literals; exactness over all digit strings and all positions of the point, zeros and underscores cannot be sampled.",
 [PP, PU], [("parse_numeric", PP), ("frac_from_whole_and_dec", PU)], observe=["Obj::from_str", "Obj::get_int", "Obj::get_frac"])

prop("C08", "String literals denote exactly the characters written",
 "A quoted Str denotes exactly the character sequence between its quotes with the seven escapes (\\\\, \\\", \\', \\$, \\n, \\r, \\t) replaced by their characters; raw newlines, '#', brackets and any other Unicode text are kept as they are. Any other escape is an error, and a literal that is not closed is an error.",
 ["inputs"], "all character sequences, of any length and any mix of escapes",
 "Tests use a few fixed strings and one bad escape; character-specific mistakes (a missing escape, a multi-byte character) are not sampled.",
 [PP, PU, FM, CS], [("parse_str escape state", PP), ("get_escape_char", PU), ("get_char_map / replace_all", FM)], observe=["Obj::from_str", "Obj::get_str"])

prop("C09", "Variables and globals resolve by scope; definitions are unique",
 "A plain name used as a value denotes the value of the field of that name defined earlier in the same Obj, or is an error; a global `@name` denotes the global of that name defined earlier anywhere in the same file, never shows up as a field, and is an error in any other file. Defining the same field twice in one Obj, the same global twice in one file, or `^` twice in one Obj is an error.",
 ["inputs"], "all documents with any names, nestings, definition orders and files",
 "Tests check a few fixed name patterns; mix-ups depend on which names coincide and on the order and nesting of definitions.",
 [PP], [("parse_field_value_pair duplicate checks", PP), ("parse_variable lookup in obj_pairs / globals", PP), ("fresh globals per file", PP)],
 observe=["Obj::from_str", "Obj::from_file", "Obj::contains"])

prop("C10", "Parents are inherited by lookup and never copied",
 "`get`, `get_with_source` and the typed getters find a field in the Obj itself first, then in its nearest ancestor that has it; `get_with_source` names that very ancestor. `contains`, `len`, `is_empty`, `iter` and `with_each` see only the Obj's own fields, and `has_parent`/`get_parent` give exactly the parent declared with `^`, which must be an Obj and may stand anywhere in the Obj.",
 ["inputs", "histories"], "all Objs with any chain of parents, any overlap of field names, and any queried name",
 "Tests use one- and two-level chains with fixed names.",
 [OB, PP, MA], [("Obj::get / get_with_source recursion", OB), ("FieldType::Parent in parse_field_value_pair", PP), ("`^` in obj!", MA)],
 observe=["Obj::get", "Obj::get_with_source", "Obj::contains", "Obj::get_parent"])

prop("C11", "Dot access reaches exactly the named field or element",
 "`x.f` denotes the value of field f of Obj x (its own, else inherited) and `x.i` the i-th element of Arr or Tup x, where i is an Int literal or a variable; chains of dots compose. A missing field, an index that is negative, not an Int or not below the length, or a dot on any other type is an error.",
 ["inputs"], "all containers, names and index values, of any size",
 "Tests check a few fixed accesses; the boundary cases depend on the index value and container length.",
 [PP, AR, TU], [("parse_variable dot handling", PP), ("Arr::get / Tup::get bounds", AR)], observe=["Obj::from_str", "Arr::get", "Tup::get"])

prop("C12", "Includes yield the included file's content with the stated type",
 "`<\"p\">`, `<Obj \"p\">`, `<Arr \"p\">`, `<Tup \"p\">` and `<Str \"p\">` denote what file p holds as an Obj, an Arr, a Tup or verbatim text, where p is taken relative to the directory of the including file (the working directory for `from_str`). One file included with two different types gives each type; an Obj include equals `Obj::from_file` of that file; a missing file, a directory, a non-Str path or an unknown type token is an error.",
 ["inputs", "configurations"], "all file contents, include types, orders and directory layouts",
 "Tests use one fixed tree of files; type/cache/path mix-ups need two includes of the same or same-named files.",
 [PP, PU], [("parse_include", PP), ("include cache keyed by canonical path", PP), ("read_file_str", PU)], observe=["Obj::from_file", "Obj::from_str"])

prop("C13", "Cyclic includes are rejected, repeated includes are shared",
 "If parsing a file leads back, through any chain of includes, to a file whose parsing has not finished, the result is an error; every acyclic include graph, with any amount of repetition, is accepted. Two includes of the same file with the same type - also from different files and under different spellings of the path - give the same instance.",
 ["inputs", "configurations"], "all include graphs over any number of files and any order of includes",
 "Tests check one self-include and one fixed include tree.",
 [PP], [("IncludedMap: cache plus set of files in progress", PP)], state=[("IncludedMap", "parsed includes by canonical path, and the files being parsed", PP)],
 observe=["Obj::from_file", "ReferenceType::ptr_eq"])

prop("C14", "File I/O is faithful, and faults surface as errors",
 "`from_file` of a file gives exactly what `from_str` gives for its content, and `write_to_file` leaves exactly the text of `write_to_string` in the file, replacing what was there, however the system splits the reads and writes. If opening, reading, writing or resolving a file fails, or it is not UTF-8, the operation returns an error: it neither panics nor succeeds with partial content.",
 ["fault_sequences", "inputs"], "all sequences of short reads and writes, interruptions and failures of any I/O call, and all contents",
 "Tests never make an I/O call fail or return short.",
 [CS, PU, UT, OB, PP], [("CharStream::from_file", CS), ("read_file_str", PU), ("write_file_str", UT), ("canonicalize in parse_include", PP)],
 observe=["Obj::from_file", "Obj::write_to_file"])

prop("C15", "Parse errors point at the offending file, line and column",
 "Every error for malformed text names the line - counted by newline characters from 1 - at which the offending token stands, and the column in characters from 1 (end-of-text errors give the line only); for text from a file the message starts with the path of the file that holds the token. Comments, multi-line strings and multi-byte characters before the token are counted correctly. (Where the offending token is itself a newline, in a field name or after a backslash, no position is claimed.)",
 ["inputs"], "all erroneous documents, any text before the error, any error kind",
 "tests/errors.rs checks fixed messages of fixed files; most put the error on one of the first lines, after plain ASCII.",
 [CS, PE, PP], [("CharStream::next line/col bookkeeping", CS), ("ParseError Display", PE), ("line/col captured before each token", PP)],
 observe=["Obj::from_str error message", "Obj::from_file error message"])

prop("C16", "Layout does not matter: whitespace and comments only separate",
 "Replacing whitespace between two fields, two elements, a field and its value, or next to a bracket by any other non-empty run of whitespace and `#` comments, or adding such a run at the start or end of a document, changes neither whether it parses nor the resulting Obj. A `#` comment runs to the end of its line and its text is never interpreted; a `#` inside a Str is text.",
 ["inputs"], "all documents and all runs of whitespace (ASCII and Unicode, CRLF) and comments at every place",
 "Tests contain comments and blank lines at a few places only.",
 [PP, PU], [("find_char", PP), ("is_value_end_char / is_whitespace / check_value_end", PU)], observe=["Obj::from_str"])

prop("C17", "Equality is an equivalence that compares content",
 "`==` on Value, Arr, Tup, Obj and Pair is reflexive, symmetric and transitive, and is true exactly when both sides have the same type, the same content (Ints and Fracs by value, Strs by text, containers element by element, Obj fields by name and value) and equal parents or no parents. A Value equals a Rust bool, integer, BigInt, BigRational, string or container, on either side, exactly when it holds that very value.",
 ["inputs"], "all pairs and triples of values, all integers of every width",
 "Tests compare a few equal pairs and rarely unequal ones; integer comparisons at the limits of each width are not sampled.",
 [VA, OB, AR, TU], [("derived and hand-written PartialEq impls", VA), ("impl_eq_int!", VA), ("PartialEq for Obj", OB), ("PartialEq for Arr and Tup", AR)],
 observe=["Value::eq", "Obj::eq", "Arr::eq", "Tup::eq"])

prop("C18", "Containers have unique identity, and references share it",
 "Every Arr, Tup and Obj created - by the API or by parsing - gets an id no other has. Clones, variables, globals, parents and repeated includes refer to the same instance (same id, `ptr_eq`, and `num_references` counts exactly the live references), while two separately written containers are never `ptr_eq`, even when equal.",
 ["inputs", "histories"], "all sequences of creating, cloning, fetching, parsing and dropping containers",
 "Tests check ids and reference counts for a few fixed sequences.",
 [LI, OB, AR, TU, PP], [("gen_id", LI), ("Arc sharing, ReferenceType impls", OB)], state=[("CUR_ID", "next id", LI)],
 observe=["ReferenceType::id", "ReferenceType::num_references", "ReferenceType::ptr_eq"])

prop("C19", "Field names are validated alike by the parser and the API",
 "A name is well-formed exactly when it is non-empty, starts with an alphabetic character or '_', and continues with alphabetic characters, ASCII digits or '_'. `Obj::is_valid_field` and `Obj::from_pairs` (and the macros built on it) accept exactly the well-formed names, the parser accepts exactly those that are not one of the reserved words null, true, false, Obj, Str, Arr, Tup, and an accepted field is found under exactly its name.",
 ["inputs"], "all names over Unicode, of any length",
 "Tests try a few names; the API and the parser implement the rule separately and can drift apart on any character or word.",
 [OB, PP, PU, MA], [("Obj::is_valid_field / is_valid_field_char", OB), ("parse_field", PP), ("is_reserved", PU)], observe=["Obj::is_valid_field", "Obj::from_pairs", "Obj::from_str"])

prop("C20", "Typed getters return exactly the stored value or the right error",
 "For every Value, each typed getter (`get_bool`, `get_int`, `get_frac`, `get_str`, `get_arr`, `get_tup`, `get_obj`, `is_null`, `get_type`) returns exactly the stored value when its type matches (`get_frac` also converts an Int exactly) and otherwise a type-mismatch error naming the expected and the actual type. The same getters on an Obj do this for the field's value and give a field-not-found error naming the field when there is none.",
 ["inputs"], "all values of all types, all getters, all field names",
 "Tests call few of the type/getter combinations and rarely the failing ones.",
 [VA, OB, ER], [("get_fn! in Value and Obj", VA)], observe=["Value::get_*", "Obj::get_*"])

prop("C21", "The nesting limit is exact and bounds recursion",
 "A document may nest containers and includes up to 64 levels, the top level of each file being the first and each dot of a dot chain counting as one level; every document within the limit that is otherwise well-formed is accepted, and every document beyond it is rejected with an error, for all mixtures of {}, [], () and <>. Nothing else in a text - its length, or long operator, sign or dot chains - makes parsing use more than a bounded amount of stack.",
 ["inputs"], "all mixtures of nesting constructs at every depth around the limit, and all lengths of sign and dot chains",
 "deep.over and deep_include.over check one kind of bracket at one depth each; no test exercises sign or dot chains.",
 [PP, "src/parse/mod.rs"], [("MAX_DEPTH checks in parse_obj, parse_arr, parse_tup, parse_include", PP)], observe=["Obj::from_str", "Obj::from_file"])

prop("C22", "Exactly the well-formed documents are accepted, with their meaning",
 "A document is accepted exactly when it follows the documented grammar - a sequence of `field: value` pairs whose values are literals, names, containers with matching brackets, includes or expressions, each value ending at whitespace, a comment, the closing bracket or the end - and the Obj it yields has exactly those fields and values, nested as written. A missing, extra or mismatched bracket, a missing value or field, or a stray character is always an error.",
 ["inputs"], "all documents: every sequence of tokens and characters",
 "Tests check about 60 fixed documents; acceptance of a malformed document or rejection of a well-formed one needs a particular token sequence.",
 [PP, PU], [("parse_obj_stream / parse_obj / parse_arr / parse_tup loops", PP), ("check_value_end", PP)], observe=["Obj::from_str", "Obj::iter"])

prop("C23", "Containers keep their elements, order and length",
 "For every Obj, Arr and Tup, however made (API, macros, parsing), `len`, `is_empty`, `get`, `iter`, `with_each`, `values_ref`/`pairs_ref` and `inner_type_vec` agree with each other and with the elements given, in the order given; Obj fields written or read come in the order they were defined. `get` beyond the end is an out-of-bounds error carrying the index, and creating or reading one container never changes another.",
 ["inputs", "histories"], "all element sequences, indices and field orders",
 "Tests look at few containers and few indices.",
 [OB, AR, TU, MA], [("pairs stored in a Vec in definition order", OB), ("Arr::get / Tup::get", AR), ("arr!, tup!, obj! macros", MA)],
 observe=["Obj::iter", "Arr::get", "Tup::get", "len"])

prop("C24", "Ids stay unique when threads create containers concurrently",
 "When several threads create Arrs, Tups or Objs at the same time, under every interleaving of their memory accesses, all ids are different.",
 ["schedules"], "all interleavings of container creation on two or more threads",
 "Tests are single-threaded.",
 [LI], [("gen_id: one atomic fetch_add on CUR_ID", LI)], state=[("CUR_ID", "next id", LI)], observe=["ReferenceType::id"])

prop("C25", "Error messages name what is wrong",
 "The message of every error `Obj::from_str` and `Obj::from_file` give for a malformed document says which kind of error it is and names the thing at fault: the offending character, field, variable or global, the bracket found and the one expected, the operator and the types of its operands, the expected and the found type, the index, the include path, or the nesting limit. For an error inside an included file it is the thing in that file.",
 ["inputs"], "all malformed documents and include trees",
 "errors.rs compares the messages of about 20 fixed documents; which name or type reaches a message depends on the path taken to the error.",
 [PP, "src/parse/error.rs", PU], [("parse_err calls and their arguments", PP), ("Display for ParseError", "src/parse/error.rs")], observe=["Obj::from_str", "Obj::from_file", "OverError::to_string"])

prop("C26", "Parses are independent of each other",
 "What a parse yields - value or error, positions included - depends only on the text and on what the files it includes hold at that moment: not on texts parsed, failed or written earlier, not on files read earlier that have changed since, not on failures that are over, and not on other threads parsing at the same time. A later parse never changes what an earlier one returned, and what two parses return shares no container.",
 ["inputs", "histories", "schedules"], "all sequences of parses, of changes of files in between, and all interleavings of parsing threads",
 "Each test parses a text or two; leftovers of a failed parse, a stale cache or shared state show only in particular sequences.",
 [PP, "src/parse/mod.rs", "src/parse/char_stream.rs", LI], [("ParseState made anew by each parse; the globals and included maps", PP), ("static sentinels", PP)],
 state=[("IncludedMap", "files included and being included", PP), ("GlobalMap", "globals of a file", PP)], observe=["Obj::from_str", "Obj::from_file"])

prop("C27", "What is dropped is released",
 "Once everything a parse, a failed parse, a container or a write returned is dropped, all memory and all open files that came with it are given back: repeating any operation, however it ends, does not make the process hold more and more.",
 ["inputs", "histories", "fault_sequences"], "all documents, values, include trees and failures",
 "No test looks at memory or descriptors; a cycle of references or a kept handle is silent.",
 [PP, OB, AR, TU, "src/parse/char_stream.rs"], [("Arc-shared containers without cycles", OB), ("ParseState and its maps dropped at the end of a parse", PP)], observe=["live heap blocks", "open descriptors", "num_references"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
