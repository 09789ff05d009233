#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=list(state),
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

prop("P01", "OSC address pattern matching is exact and its offsets are right",
 """Matching a well-formed pattern against an address reports both complete exactly when the address is in the
 language of the pattern ('?' one character, '*' any run, '[..]' and '[!..]' sets and ranges, '{a,b}' alternatives, none of
 them crossing '/', and a lone '*' segment in the address standing for any segment), reports pattern-complete or
 address-complete exactly when the shorter of the two matches a whole-segment prefix of the other, and otherwise reports no match.
 On a match the returned offsets are the number of characters of pattern and address consumed, and on a mismatch or an error both are zero.
 A pattern or address that does not begin with a slash, or a pattern with unbalanced brackets, is never reported as a match.""",
 ["inputs"], "every pattern and every address",
 "67 table rows; the language is infinite and backtracking (star followed by set, alternatives sharing prefixes, partial matches) needs combinations no table enumerates",
 ["osc_match.c", "osc_match.h"], [("backtracking stack matcher", "osc_match.c:osc_match"), ("character sets", "osc_match.c:osc_match_range")],
 observe=["osc_match() return value and offsets"])

prop("P02", "Serialising a bundle yields the OSC wire format and reading it back is lossless",
 """Serialising any bundle built through the API (all argument types, nested bundles, blobs, empty bundles, empty strings) gives exactly
 the OSC encoding: 16-byte header (with a zero time tag: unserialised bundles carry none), each message with its size, padded address, padded typetag string and big-endian padded payloads.
 Deserialising bytes gives a bundle with the same messages, arguments, types and values, and re-serialising gives the same messages' bytes.
 Bounded serialisation into a caller's buffer reports the size of the full encoding when asked without a buffer, never writes beyond the buffer, and writes the full encoding when it fits.""",
 ["inputs"], "every bundle the API can build, every buffer size",
 "tests round-trip a few literal bundles of int/float/string; they never compare bytes against the wire format nor use short buffers",
 ["osc_bundle_u.c", "osc_message_u.c", "osc_atom_u.c", "osc_bundle_s.c", "osc_message_s.c", "osc_atom_s.c", "osc_typetag.c", "osc_util.c"],
 [("serialisation", "osc_bundle_u.c:osc_bundle_u_nserialize"), ("message serialisation", "osc_message_u.c:osc_message_u_nserialize"),
  ("atom serialisation", "osc_atom_u.c:osc_atom_u_nserialize"), ("deserialisation", "osc_bundle_s.c:osc_bundle_s_deserialize")],
 observe=["osc_bundle_u_serialize", "osc_bundle_u_nserialize", "osc_bundle_s_deserialize", "osc_message_u_serialize", "osc_atom_u_serialize"])

prop("P03", "Packet validation accepts exactly well-formed OSC packets",
 """The bundle sanity check (and the message counter built on it) succeeds on exactly the byte strings framed as an OSC bundle: the "#bundle" identifier, at least the
 16 header bytes, then nothing or a sequence of messages, each with a size field of at least four that fits in what is left and a body beginning with a slash, which together fill the packet exactly.
 Any other byte string gets the error code of its first fault, truncated size fields and oversized or negative sizes included, and the counter gives the number of messages.
 The checks of a single message and of an address follow the same rules (an address has at least two characters, begins with a slash and has no space or '#').
 They never read outside the given bytes nor change them.""",
 ["inputs"], "every byte string, including truncations and single-byte corruptions of valid packets",
 "no test feeds malformed packets",
 ["osc_error.c", "osc_bundle_s.c"], [("bundle check", "osc_error.c:osc_error_bundleSanityCheck"), ("message check", "osc_error.c:osc_error_msgSanityCheck")],
 observe=["osc_error_bundleSanityCheck", "osc_error_msgSanityCheck"])

prop("P04", "Every way of reading a serialised bundle agrees with its contents",
 """For every well-formed serialised bundle, message counts, forward iteration, and per-message address, typetags, argument count, sizes, and argument access
 (in order, out of order, repeatedly, through iterators, positions or lookups) all report exactly the messages and arguments encoded there, and
 reading never alters the bytes.
 Address lookups return exactly the messages whose address matches (or equals, for the equality lookups) the requested one, in bundle order,
 and the first-match and bound/exists queries agree with them.""",
 ["inputs", "histories"], "every bundle and every order of read operations",
 "tests read messages once and in order; offset caches and lookup variants are never exercised",
 ["osc_bundle_s.c", "osc_bundle_iterator_s.c", "osc_message_s.c", "osc_message_iterator_s.c"],
 [("lookup", "osc_bundle_s.c:osc_bundle_s_lookupAddress"), ("iterator", "osc_bundle_iterator_s.c"), ("offset cache", "osc_message_s.c:osc_message_s_getArg")],
 observe=["osc_bundle_s_getMsgCount", "osc_bundle_s_lookupAddress", "osc_bundle_s_addressExists", "osc_bundle_s_addressIsBound", "osc_message_s_getArg", "osc_msg_it_s_next"])

prop("P05", "Edits of a serialised bundle change exactly the addressed messages",
 """Appending, replacing and removing messages of a serialised bundle, renaming a message, wrapping a message, and setting the time tag leave a well-formed bundle whose
 message list is the old list with exactly that edit applied: append adds at the end, replace puts the new message in place of the given one, remove
 drops exactly the messages whose address equals the given one, every other message keeping its bytes and order, and the reported length is the size of the result.""",
 ["histories"], "every sequence of edits on every bundle",
 "tests contain no serialised-edit sequences",
 ["osc_bundle_s.c", "osc_message_s.c"],
 [("append", "osc_bundle_s.c:osc_bundle_s_appendMessage"), ("replace", "osc_bundle_s.c:osc_bundle_s_replaceMessage"), ("remove", "osc_bundle_s.c:osc_bundle_s_removeMessage"), ("rename", "osc_message_s.c:osc_message_s_renameCopy")],
 observe=["serialised bytes after each call"])

prop("P06", "An unserialised bundle behaves as an ordered list of messages",
 """Under any sequence of adding, adding without duplicates, replacing, removing, copying and clearing, an unserialised bundle's contents, message count, iteration order,
 iterator navigation and address lookups are those of the ordered message list the same operations produce, and a deep copy never changes when its original does.""",
 ["histories"], "every sequence of edits interleaved with reads",
 "tests build bundles once by parsing; removal, replacement and mixed sequences are not exercised",
 ["osc_bundle_u.c", "osc_bundle_iterator_u.c"],
 [("linked list of messages", "osc_bundle_u.c"), ("iterator", "osc_bundle_iterator_u.c")],
 state=[dict(name="bundle", meaning="ordered messages and their count", where="osc_bundle_u.c:_osc_bundle_u")],
 observe=["osc_bundle_u_getMsgCount", "osc_bndl_it_u_next", "osc_bundle_u_lookupAddress"])

prop("P07", "Bundle union, intersection, difference and concatenation are set operations",
 """The union of two bundles with plain addresses is the left one followed by the right one's messages whose addresses do not occur before, the intersection keeps the
 left messages whose addresses are also in the right, the difference of serialised bundles keeps the messages whose address occurs in only one of them (no address twice in either), and concatenation keeps all messages of both in order,
 with message contents taken unchanged.  Results are well-formed, keep the left bundle's header when serialised, and leave the inputs unmodified; the serialised and unserialised forms agree when no address repeats within a bundle.""",
 ["inputs"], "every pair of bundles",
 "only expression-level smoke tests touch union/intersection/difference",
 ["osc_bundle_s.c", "osc_bundle_u.c"],
 [("set operations", "osc_bundle_s.c:osc_bundle_s_union"), ("set operations", "osc_bundle_u.c:osc_bundle_u_union")],
 observe=["serialised result"])

prop("P08", "Flatten and explode regroup addresses without losing messages",
 """Exploding a bundle to a level nests messages that share a leading address component under one message per component holding a sub-bundle, each placed where its last member came,
 down to the requested level (a message already holding a bundle under that component keeps its members); flattening a bundle replaces each message whose argument is a bundle by that bundle's messages
 with the address prefixed by the outer address and separator, down to the requested level, keeping the other arguments under the outer address.
 Flattening an exploded bundle gives back every original message with its arguments unchanged, when the addresses are distinct, none is a leading part of another and no argument is itself a bundle.""",
 ["inputs"], "every bundle, level and separator",
 "the explode test checks a few shapes at unlimited depth",
 ["osc_bundle_u.c", "osc_bundle_s.c"], [("explode", "osc_bundle_u.c:osc_bundle_u_explode"), ("flatten", "osc_bundle_u.c:osc_bundle_u_flatten")],
 observe=["resulting bundle"])

prop("P09", "A message is an editable ordered list of typed arguments",
 """Under any sequence of appends, prepends, insertions, removals, clears, re-addressings and deep copies, a message's address, argument count, typetag string, argument order, values,
 iteration (with its navigation calls) and serialised size are those of the ordered argument list the same operations produce; a failed edit leaves the message unchanged.""",
 ["histories"], "every sequence of edits and reads over all argument types and positions",
 "tests append arguments only",
 ["osc_message_u.c", "osc_message_iterator_u.c", "osc_atom_u.c"],
 [("doubly linked argument list", "osc_message_u.c"), ("iterator", "osc_message_iterator_u.c")],
 observe=["osc_message_u_getArgCount", "osc_message_u_getArg", "osc_msg_it_u_next", "osc_message_u_serialize"])

prop("P10", "Printing a bundle as text and parsing it back is lossless",
 """Formatting a bundle whose values the text form can express and parsing the text gives back an equal bundle, for every address, nesting, string content (quotes, backslashes, escapes, spaces, separators) and
 argument count (floats as the number printed, integers as 32-bit ones).  Serialised and unserialised formatting produce the same text for the same bundle or message.
 Bounded formatting returns the full length, writes at most the given size, terminator included, and its output is a prefix of the full text.
 Any text is either read as the messages and values it spells, whatever its spacing, or refused with an error when it is not a list of messages.""",
 ["inputs"], "every printable bundle and every buffer size",
 "tests format a handful of bundles; quoting and buffer limits are not exercised",
 ["osc_parser.y", "osc_scanner.l", "osc_bundle_s.c", "osc_bundle_u.c", "osc_message_s.c", "osc_message_u.c", "osc_atom_s.c", "osc_atom_u.c", "osc_strfmt.c"],
 [("formatting", "osc_bundle_s.c:osc_bundle_s_nformat"), ("quoting", "osc_strfmt.c"), ("text grammar", "osc_parser.y")],
 observe=["osc_bundle_s_format", "osc_bundle_u_format", "osc_parser_parseString"])

prop("P11", "Argument accessors convert by value",
 """Reading an argument of any numeric or boolean type (nil counting as zero, a decimal string as its number except through the 8-bit accessors) through any typed accessor gives its value,
 truncated towards zero for integer accessors and rounded to nearest for floating-point ones, whenever the result is representable there (booleans as 0 and 1), and reading it through the accessor of its own type gives exactly the stored value.
 The serialised and unserialised forms of the same argument give the same numbers and the same text, whose reported length is its own and which is cut and terminated to fit a smaller buffer.
 Setting, copying, negating and blob-copying an argument give exactly that value, whatever it held before; copies are independent of their source.""",
 ["inputs", "histories"], "every argument type, accessor and representable value, every sequence of sets, copies and negations",
 "tests compare a few printed values only",
 ["osc_atom_u.c", "osc_atom_s.c"], [("accessors", "osc_atom_u.c:osc_atom_u_getInt32"), ("accessors", "osc_atom_s.c:osc_atom_s_getInt32"), ("copying", "osc_atom_u.c:osc_atom_u_copyInto")],
 observe=["osc_atom_u_get*", "osc_atom_s_get*", "osc_atom_u_set*", "osc_atom_s_set*"])

prop("P12", "Dispatch delivers every message to exactly the handlers that match",
 """Dispatching a bundle through a table (osc_dispatch, osc_dispatch_selectors) calls the handlers with exactly the messages whose address, read as a pattern, matches their selector: complete matches apart from partial ones
 (the selector matches a leading part of the pattern), each in bundle order and with unchanged arguments; partial matches have the matched part stripped when asked for (where no address would be left over they are no matches then); messages no entry matches go to the delegation method, if there is one.
 osc_query_select sorts a bundle by a list of selectors in the same way into a result set with one result per selector that matched, found by name and in the order of first match.""",
 ["inputs"], "every bundle and every set of registered addresses",
 "no test covers dispatch, queries or result sets",
 ["osc_dispatch.c", "osc_query.c", "osc_rset.c"], [("selector matching", "osc_dispatch.c:osc_dispatch_msg"), ("query", "osc_query.c:osc_query_select")],
 observe=["the bundles handlers and the delegation method are called with", "the result set of a query"])

prop("P13", "The dispatch table is a map from addresses to handlers",
 """After any sequence of adding, rebinding and renaming entries of a dispatch table, each selector looks up its latest handler and context and no other, selectors renamed away or never added look up nothing,
 entries keep the index at which they were added however far the table grows, and calling an entry calls its own handler with its own context.""",
 ["histories"], "every sequence of table operations",
 "no test covers dispatch tables",
 ["osc_vtable.c"], [("entry array and hash index", "osc_vtable.c:osc_vtable_addEntry"), ("renaming", "osc_vtable.c:osc_vtable_renameEntry")],
 observe=["osc_vtable_getEntryBySelector", "osc_vtable_getIndexForSelector", "osc_vtable_call"])

prop("P14", "The hash table is a map",
 """After any sequence of stores, storeSafes, lookups, removals and clears, looking up a key gives the value most recently stored under it and nothing for keys absent or removed
 (storeSafe leaves a key that is already there alone), enumeration visits each live key exactly once, and the destructor runs exactly once for each entry an overwrite, clear or destroy
 or a remove given a destructor takes out of the table, and for no other; whatever number of slots is asked for.""",
 ["histories"], "every sequence of operations over any keys, including colliding ones and crowded tables, and every requested size",
 "no test covers the hash table",
 ["osc_hashtab.c"], [("chaining buckets", "osc_hashtab.c")], observe=["osc_hashtab_lookup", "osc_hashtab_foreach", "destructor calls"])

prop("P15", "The linked list is a sequence",
 """After any sequence of appends, prepends, pops from either end or the middle, clears and clones, the list's count, ends, elements by position and iteration are those of the sequence the same operations produce;
 an iteration whose callback removes the element it is shown still visits every element once; the destructor runs once for each element that clear or destroy takes out.""",
 ["histories"], "every sequence of operations",
 "no test covers the list",
 ["osc_linkedlist.c"], [("doubly linked nodes", "osc_linkedlist.c")], observe=["osc_linkedlist_*"])

prop("P16", "Arrays of elements and atoms are bounded mutable sequences",
 """After any sequence of allocation, element access, resize, clear, copy and copyInto, an array holds exactly the elements the same operations give a sequence (copyInto grows a destination that is too short);
 out-of-range accesses and copies are refused without touching memory outside the array. The typed arrays of an atom array are its elements' accessors and its string array is their text, separated, whatever the size of the buffer.""",
 ["histories"], "every sequence of operations and every index, including out-of-range ones",
 "no test covers arrays directly",
 ["osc_array.c", "osc_atom_array_u.c", "osc_atom_array_s.c"], [("contiguous storage", "osc_array.c")], observe=["osc_array_*", "osc_atom_array_u_*"])

prop("P17", "Time tags are exact 64-bit fixed-point times",
 """Comparison orders time tags as 64-bit fixed-point numbers; addition is exact on them (modulo 2^64) and subtraction gives their exact distance, including carries and borrows between seconds and fraction;
 encoding and decoding preserve them. For every time from 1900 to 2036 the ISO 8601 text names the right date and time of day in UTC to within a microsecond, the size reported for it is its size,
 a buffer that is too small gets its beginning, and parsing text (with any number of fraction digits, in UTC or with an offset) gives the time it names to within a few units of the fraction.
 Conversion to and from seconds in double precision loses no more than double precision must, and now() is the clock's time to within a microsecond.""",
 ["inputs"], "every pair of time tags and every calendar date in range",
 "no test checks time-tag arithmetic or dates",
 ["osc_timetag.c"], [("arithmetic", "osc_timetag.c:osc_timetag_add"), ("calendar", "osc_timetag.c:osc_timetag_toISO8601")], observe=["osc_timetag_*"])

prop("P18", "Expression operators work elementwise with numeric promotion",
 """Arithmetic, comparison, logical and bitwise operators applied to message arguments compute elementwise the mathematically defined result,
 with a single value broadcast over a list, lists of unequal length truncated to the shorter, integer operands giving integers and any floating operand giving a double,
 floored modulo, and the documented treatment of strings, booleans and time tags.""",
 ["inputs"], "every operator, operand types, lengths and values",
 "the expression tests evaluate one or two operand choices per operator",
 ["osc_expr.c", "osc_expr_parser.y"], [("two-argument dispatch", "osc_expr.c:osc_expr_2arg"), ("operators", "osc_expr_func.h")], observe=["bundle after evaluation"])

prop("P19", "Evaluating an expression updates the bundle as its statements say",
 """Statements separated by commas are evaluated in order, each seeing the effects of the previous ones; assignment (plain, compound, increment, default, indexed) changes exactly the message with the assigned address and leaves all
 others as they were; conditional, short-circuit and default operators evaluate only the operand they select; bound, exists, delete and address queries reflect the bundle at that point.
 A statement that fails leaves the bundle as the preceding statements left it, and evaluation reports the error.""",
 ["programs", "inputs"], "every expression program and initial bundle",
 "each test evaluates one short program on one bundle",
 ["osc_expr.c", "osc_expr_parser.y", "osc_bundle_s.c"], [("evaluator", "osc_expr.c:osc_expr_eval"), ("assignment", "osc_expr.c:osc_expr_specFunc_assign")], observe=["bundle after evaluation, return code"])

prop("P20", "Expression list functions compute their mathematical definition",
 """List functions (length, indexing, sum, product, running sum, mean, median, min, max, range, reverse, sort and sort index, first/last/rest/butlast, list building, interleave, repetition, arithmetic sequences, dot product, nonzero, and the like)
 return the defined result for every list, including single-element and unsorted or repeated inputs, and leave the operand messages unchanged.""",
 ["inputs"], "every list of numbers and every function",
 "the tests evaluate each function on at most one list",
 ["osc_expr.c", "osc_expr_func.h"], [("function table", "osc_expr_func.h"), ("implementations", "osc_expr.c")], observe=["bundle after evaluation"])

prop("P21", "Lambdas bind lexically and higher-order functions visit every element",
 """Applying an anonymous or bundle-stored function binds each parameter to its argument only inside the body, inner bindings hide outer ones, and bodies evaluate in order returning the last value;
 map applies the function to corresponding elements of its lists in order and collects the results, and left and right reductions fold in their respective order.""",
 ["programs", "inputs"], "every function and argument lists",
 "one or two fixed programs",
 ["osc_expr.c", "osc_expr_rec.c"], [("lexical environment", "osc_expr.c:osc_expr_makeLexEnv"), ("apply/map/reduce", "osc_expr.c")], observe=["bundle after evaluation"])

prop("P22", "Nested bundles are read and written by member without side effects",
 """Bundle literals, member access and member assignment on nested bundles (including several levels) read exactly the named member and change exactly that member, leaving siblings, the outer bundle and a previously made copy unchanged.""",
 ["programs", "inputs"], "every nesting and member path",
 "few fixed programs",
 ["osc_expr.c", "osc_expr_parser.y"], [("member access", "osc_expr.c:osc_expr_specFunc_getBundleMember"), ("member assignment", "osc_expr.c:osc_expr_specFunc_assignToBundleMember")], observe=["bundle after evaluation"])

prop("P23", "Expressions parse with the documented precedence and associativity",
 """Every infix expression parses to the tree given by operator precedence and associativity, so that it evaluates as its fully parenthesised or prefix function-call form does, and parsing is insensitive to white space; text that is not an expression is refused.""",
 ["programs"], "every expression built from the operators",
 "tests combine at most a few operators",
 ["osc_expr_parser.y", "osc_expr_scanner.l"], [("grammar", "osc_expr_parser.y"), ("tokens", "osc_expr_scanner.l")], observe=["bundle after evaluation, prefix printing"])

prop("P24", "The byte-wise packet checker accepts exactly what its grammar allows",
 """Fed a packet one byte at a time, osc_serial_processByte reports no error for any well-formed bundle or bare message, whatever the number and sizes of its messages, and counts down to the end of each message;
 and it reports, at the first byte that shows it, a bad header, a negative size, an address without leading slash, nested, unmatched or misused brackets, wrong padding, missing or unsupported type tags, and an address or type tags running past the end of their message.""",
 ["inputs", "histories"], "every byte stream",
 "a manual program exists, with no assertions",
 ["osc_serial.c"], [("state machine", "osc_serial.c:osc_serial_processByte")], observe=["osc_serial_errorp after each byte", "the error code", "the counter"])

prop("P25", "Every allocation is released exactly once by the matching free call",
 """For every public operation, memory obtained through the library's allocator is released exactly once when the objects are freed as documented: no leak, no double free, no use after free, on success and on failure paths.""",
 ["histories"], "every sequence of creating, editing, evaluating and freeing",
 "tests never check for leaks or memory errors",
 ["osc_mem.c", "osc_bundle_u.c", "osc_message_u.c", "osc_atom_u.c", "osc_expr.c"], [("allocator hooks", "osc_mem.c:osc_mem_setAllocator")], observe=["allocator balance"])

prop("P26", "String functions and quoting preserve every character",
 """Quoting a string and unquoting it gives it back; splitting a string on a separator and joining the pieces with it gives it back; length, character access, search and comparison functions agree with the string's characters.""",
 ["inputs"], "every string",
 "a single example per function",
 ["osc_strfmt.c", "osc_expr.c", "osc_util.c"], [("quoting", "osc_strfmt.c"), ("string functions", "osc_expr.c")], observe=["bundle after evaluation"])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
