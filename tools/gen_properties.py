#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in a script so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

prop("C01", "Encoding then decoding returns the original values",
 "For every list of ABI types and every list of values that conforms to it (fixed bytes given at their full declared size), encoding the values and decoding the result under the same types succeeds and returns exactly those values. Neither step panics.",
 ["inputs"], "every list of types (static and dynamic, nested arrays, fixed arrays and tuples of at least one component, fixed bytes of any size from 1) and every conforming value, including empty and 32-byte-boundary payloads",
 "The tests encode and decode a few dozen fixed value lists with constant payloads; they cannot cover every payload, length and nesting.",
 ["ethabi/src/encoder.rs", "ethabi/src/decoder.rs", "ethabi/src/token/token.rs", "ethabi/src/param_type/param_type.rs"],
 [("head/tail assembly with offsets", "ethabi/src/encoder.rs: encode, Mediate, encode_head_tail"), ("offset-following decoder", "ethabi/src/decoder.rs: decode, decode_param")],
 ["ethabi::encode", "ethabi::decode"])
prop("C02", "Encoded bytes follow the ABI specification's layout",
 "For every list of values, encoding yields exactly the bytes the Solidity ABI specification prescribes: heads in order, each dynamic value replaced by the offset of its tail counted from the start of the enclosing tuple or array content, lengths before dynamic arrays and byte strings, numbers and addresses left-padded and byte strings right-padded with zeros. The result is always a whole number of 32-byte words, and calling it never panics.",
 ["inputs"], "every value list, of any nesting and payload length (below 4 GiB)",
 "Expected encodings are written out by hand for a few dozen constant inputs only.",
 ["ethabi/src/encoder.rs", "ethabi/src/util.rs", "ethabi/src/token/token.rs"],
 [("head_len / tail_len / head / tail of every intermediate node", "ethabi/src/encoder.rs: Mediate"), ("padding", "ethabi/src/encoder.rs: pad_bytes, pad_fixed_bytes; ethabi/src/util.rs: pad_u32"), ("dynamic/static decision", "Token::is_dynamic, ParamType::is_dynamic")],
 ["ethabi::encode"])
prop("C03", "Decoding arbitrary bytes never panics",
 "For every list of types and every byte string, decoding (directly, or as function input or output) returns either values or an error: it never panics, aborts, overflows or reads outside the given bytes. This includes truncated data, offsets and lengths pointing outside the data, and offsets pointing into the middle of other data.",
 ["inputs"], "every type list whose array elements occupy at least one byte, and every byte string",
 "Tests feed a handful of corrupt encodings; the hostile offsets and lengths that matter are rare in the input space.",
 ["ethabi/src/decoder.rs", "ethabi/src/function.rs"],
 [("bounds checks before every slice", "ethabi/src/decoder.rs: peek, take_bytes, decode_param"), ("offset/length words above 32 bits rejected", "ethabi/src/decoder.rs: as_usize")],
 ["ethabi::decode", "Function::decode_input", "Function::decode_output"])
prop("C04", "Decoded values are what the bytes say, or decoding fails",
 "Whenever decoding succeeds it returns one value per type, each conforming to its type, and equal to the value the ABI layout assigns to the given bytes (a boolean is true exactly when its word is one). Whenever a needed word, payload, offset or length lies outside the data, or an offset, length or boolean word has non-zero bytes above its low 4 (for booleans low 1) bytes, or the data is empty although some type needs bytes, decoding returns an error rather than values.",
 ["inputs"], "every type list and every byte string, well-formed or not, of any length, including lengths that are no multiple of 32",
 "Tests compare the decoder with expected values on valid, canonical encodings and a few corrupt ones only.",
 ["ethabi/src/decoder.rs", "ethabi/src/param_type/param_type.rs"],
 [("offset following relative to the enclosing content", "ethabi/src/decoder.rs: decode_param"), ("word checks", "ethabi/src/decoder.rs: as_usize, as_bool, peek, take_bytes"), ("empty data rule", "ParamType::is_empty_bytes_valid_encoding")],
 ["ethabi::decode"])
prop("C05", "Hostile length fields cannot make the decoder exhaust memory",
 "Decoding never allocates memory in proportion to a length or offset that the input merely claims: for types that nest no dynamic value inside another the memory allocated while decoding is bounded by the input's own length times a constant, plus a constant, both depending only on the types. A claimed element count that the data cannot back ends in an error after at most as many steps as the data can back.",
 ["inputs"], "every byte string, with arbitrary claimed lengths up to 2^256-1, for types without dynamic values inside dynamic values, whose array elements occupy at least one byte",
 "One regression test with one corrupted array exists; it does not cover other types, positions or allocation patterns.",
 ["ethabi/src/decoder.rs"],
 [("vectors grow only as elements are decoded", "ethabi/src/decoder.rs: decode_param, Array and FixedArray arms"), ("payload copied only after the bounds check", "ethabi/src/decoder.rs: take_bytes")],
 ["ethabi::decode", "the global allocator"])
prop("C06", "Type checking accepts exactly the conforming values",
 "Type checking a list of values against a list of types returns true exactly when there are as many values as types and each value conforms: same kind; fixed bytes no longer than the declared size and filling the same number of 32-byte words; fixed arrays of exactly the declared length with conforming elements; arrays with conforming elements; tuples with as many components as declared, each conforming. It never panics.",
 ["inputs"], "every pair of value list and type list, conforming or not, nested arbitrarily",
 "Tests list about a dozen pairs and none with tuples.",
 ["ethabi/src/token/token.rs"],
 [("recursive type check", "ethabi/src/token/token.rs: Token::type_check, Token::types_check")],
 ["Token::type_check", "Token::types_check"])
prop("C07", "Call data is selector plus arguments, or an error",
 "Encoding a function call yields exactly the first four bytes of the Keccak-256 hash of the name followed by the parenthesised, comma-separated canonical input types, followed by the encoding of the arguments; encoding a constructor call yields the given code followed by the encoding of the arguments. When the arguments do not conform to the declared inputs the result is an error and no bytes; the textual signature of a function is its name and inputs, followed by a colon and the outputs when there are any, and the event signature hash follows the same rule as the selector with all 32 bytes.",
 ["inputs"], "every function, event and constructor declaration (any name, any parameter types) and every argument list, conforming or not",
 "Selectors are tested for a few fixed declarations; mismatching arguments hardly at all.",
 ["ethabi/src/function.rs", "ethabi/src/constructor.rs", "ethabi/src/signature.rs", "ethabi/src/event.rs", "ethabi/src/param_type/writer.rs"],
 [("hash of the canonical signature", "ethabi/src/signature.rs: fill_signature"), ("type check before encoding", "Function::encode_input, Constructor::encode_input")],
 ["Function::encode_input", "Function::signature", "Constructor::encode_input", "Event::signature"])
prop("C08", "Type names render canonically and read back as the same type",
 "Rendering any ABI type gives its canonical Solidity name (elementary name with size, element name followed by [] or [n], tuple components in parentheses separated by commas), and reading that name gives back the same type. The shorthand names uint and int read as their 256-bit forms.",
 ["inputs"], "every ABI type: all sizes, all nestings of arrays, fixed arrays and tuples, including nested and empty tuples",
 "Tests render and read about twenty fixed names, with one shape of nested tuple.",
 ["ethabi/src/param_type/reader.rs", "ethabi/src/param_type/writer.rs", "ethabi/src/param_type/param_type.rs", "ethabi/src/param_type/deserialize.rs"],
 [("recursive writer", "ethabi/src/param_type/writer.rs"), ("recursive reader", "ethabi/src/param_type/reader.rs")],
 ["param_type::Reader::read", "param_type::Writer::write", "Display for ParamType"])
prop("C09", "Reading any text as a type name never panics or invents a type",
 "For every text, reading it as a type name returns a type or an error and never panics, whatever characters it contains. When it returns a type, rendering that type and reading it again returns the same type, and text that is not a (possibly array-suffixed) elementary type name or parenthesised tuple, or whose brackets do not balance, is rejected.",
 ["inputs"], "every text, including empty, unbalanced, truncated and non-ASCII text, nested no deeper than the call stack allows",
 "No test reads a malformed type name.",
 ["ethabi/src/param_type/reader.rs", "ethabi/src/param_type/deserialize.rs"],
 [("suffix dispatch and slicing of the name", "ethabi/src/param_type/reader.rs: Reader::read")],
 ["param_type::Reader::read", "serde Deserialize of ParamType"])
prop("C10", "A contract survives a round trip through its JSON form",
 "Serializing any contract description to JSON and loading that JSON gives back an equal description: constructor, every function and event overload in order, parameter names, types (with tuple components), indexed and anonymous flags, state mutability, receive and fallback. The same holds for single parameters, and loading and serializing never panic.",
 ["inputs"], "every contract description with parameter types that have a JSON form and names without an opening parenthesis",
 "Tests round-trip a few dozen fixed JSON documents.",
 ["ethabi/src/contract.rs", "ethabi/src/operation.rs", "ethabi/src/param.rs", "ethabi/src/event_param.rs", "ethabi/src/tuple_param.rs", "ethabi/src/state_mutability.rs"],
 [("hand-written Serialize/Deserialize", "contract.rs, param.rs, event_param.rs, tuple_param.rs"), ("tuple components", "param.rs: set_tuple_components, inner_tuple, SerializeableParam")],
 ["serde_json::to_string(&Contract)", "Contract::load"])
prop("C11", "Loading a JSON ABI keeps every entry and its meaning",
 "Loading a JSON ABI yields every declared function and event exactly once under its name (cut at the first opening parenthesis) with overloads in document order, the constructor, and the receive and fallback flags; object keys may come in any order and unknown keys are ignored. Looking up a name returns the first declaration (or all of them, by the plural lookups) and an error for a name that is not declared; absent optional fields take their documented defaults, and duplicate or missing required parameter fields are rejected.",
 ["inputs"], "every JSON ABI document: any sequence of entries, names, key orders, unknown keys, optional fields present or absent",
 "Tests load fixed documents with one key order each.",
 ["ethabi/src/contract.rs", "ethabi/src/operation.rs", "ethabi/src/util.rs", "ethabi/src/param.rs", "ethabi/src/event_param.rs", "ethabi/src/tuple_param.rs", "ethabi/src/function.rs"],
 [("collection by name", "contract.rs: ContractVisitor::visit_seq"), ("name sanitizing", "util.rs: sanitize_name"), ("lookups", "contract.rs: function, event, functions_by_name, events_by_name, functions, events")],
 ["Contract::load", "Contract::function(s)", "Contract::event(s)", "serde_json::from_str::<Param | EventParam | TupleParam>"])
prop("C12", "A parsed log gives each parameter its own value",
 "For every event and every log emitted by it, parsing succeeds and lists the parameters in declaration order under their declared names, each with its own value: an indexed parameter of a value type gets the value in its topic, an indexed string, byte string, array or tuple gets the topic's 32 bytes, and a non-indexed parameter gets the value decoded from the data. This holds also when parameters are unnamed or share names.",
 ["inputs"], "every event declaration (anonymous or not, any mix of indexed and non-indexed parameters and Solidity types, any names) and every log it can emit",
 "One fixed event with one fixed log is tested.",
 ["ethabi/src/event.rs", "ethabi/src/log.rs", "ethabi/src/decoder.rs"],
 [("topics and data matched with parameters", "ethabi/src/event.rs: Event::parse_log"), ("indexed dynamic types read as bytes32", "ethabi/src/event.rs: convert_topic_param_type")],
 ["Event::parse_log"])
prop("C13", "Logs that do not belong to an event are rejected, never a panic",
 "For every event and every log (any number of topics, any topic values, any data), parsing returns a log or an error and never panics. It returns an error whenever the event is not anonymous and the first topic is missing or differs from the event's signature hash, whenever the number of remaining topics differs from the number of indexed parameters, and whenever the data does not decode under the non-indexed types.",
 ["inputs"], "every event and every log",
 "No test parses a log that must be rejected.",
 ["ethabi/src/event.rs", "ethabi/src/decoder.rs"],
 [("signature and topic count checks", "ethabi/src/event.rs: Event::parse_log")],
 ["Event::parse_log"])
prop("C14", "A topic filter matches exactly the logs with the requested values",
 "Building a filter puts the event's signature hash first unless the event is anonymous and then the requested values in the order of the indexed parameters: a value-type value becomes the 32-byte word an emitted log carries, and a string, byte string, array or tuple becomes the Keccak-256 hash the Solidity specification prescribes for indexed values (contents without offset or length prefix, array elements and tuple members each padded to 32 bytes). Unrestricted positions stay unrestricted, alternatives keep their order and number, and a value whose type does not match, or that is given for a position the event does not have, is an error; it never panics.",
 ["inputs"], "every event declaration over Solidity types, every combination of unrestricted, single and alternative topic values",
 "No test checks the topics a filter contains.",
 ["ethabi/src/event.rs", "ethabi/src/filter.rs"],
 [("topic conversion", "ethabi/src/event.rs: Event::filter, convert_topic, convert_token")],
 ["Event::filter"])
prop("C15", "Strict text parsing accepts exactly the clear representations",
 "For every elementary type and every text, strict parsing returns the value or an error and never panics: addresses are exactly 40 hex digits, numbers exactly 64 hex digits, bytes an even number of hex digits, fixed bytes exactly twice the declared size, booleans exactly true, false, 1 or 0, and strings any text, taken unchanged. The value returned is the one the text denotes and conforms to the type.",
 ["inputs"], "every elementary type and every text",
 "Tests parse two constants per type and hardly any rejected text.",
 ["ethabi/src/token/strict.rs", "ethabi/src/token/mod.rs"],
 [("per-type parsers", "ethabi/src/token/strict.rs")],
 ["StrictTokenizer::tokenize"])
prop("C16", "Lenient parsing reads decimal numbers exactly or rejects them",
 "Lenient parsing accepts everything strict parsing accepts with the same result, and in addition reads unsigned decimal text (at least one digit) as that number and signed decimal text with at most one leading minus as its two's complement 256-bit form. Numbers outside 0..2^256-1 (unsigned) or -2^255..2^255-1 (signed), and any other text, are rejected; nothing wraps or is truncated, and it never panics.",
 ["inputs"], "every text, in particular decimal numbers at and around the type limits",
 "Tests cover the boundary values of int256 and a few numbers.",
 ["ethabi/src/token/lenient.rs", "ethabi/src/token/mod.rs", "ethabi/src/errors.rs"],
 [("range checks and two's complement", "ethabi/src/token/lenient.rs: tokenize_uint, tokenize_int")],
 ["LenientTokenizer::tokenize"])
prop("C17", "Array and tuple text is split at the right places",
 "Parsing bracketed array text and parenthesised tuple text yields one value per comma-separated item at the outermost level, where commas inside nested brackets, nested parentheses or double quotes do not separate, each parsed as the element type with its text unchanged. The result conforms to the type: fixed arrays and tuples with a different number of items, unbalanced brackets and unterminated quotes are errors, and no text (including non-ASCII text) causes a panic.",
 ["inputs"], "every array and tuple type and every text (an item of empty text is not told apart from no item)",
 "Tests parse a few flat boolean arrays; tuples, nesting, quotes and non-ASCII text are not covered.",
 ["ethabi/src/token/mod.rs"],
 [("depth- and quote-aware splitting", "ethabi/src/token/mod.rs: tokenize_array, tokenize_struct, tokenize_fixed_array")],
 ["StrictTokenizer::tokenize", "LenientTokenizer::tokenize"])
prop("C18", "Values and filters render as the text users and nodes expect",
 "Rendering a value gives: true or false, the string itself, lower-case hex of exactly the bytes for addresses and byte strings, lower-case hex without leading zeros for numbers, and the renderings of the items separated by commas in square brackets for arrays and in parentheses for tuples. A topic filter serializes to a four-element JSON array holding null for an unrestricted position, the 0x-prefixed 64-digit lower-case hash for a single topic, and an array of such hashes for alternatives.",
 ["inputs"], "every value and every topic filter",
 "One filter serialization is tested, and renderings only through a few command line examples.",
 ["ethabi/src/token/token.rs", "ethabi/src/filter.rs"],
 [("Display", "ethabi/src/token/token.rs: Display for Token"), ("Serialize", "ethabi/src/filter.rs: Serialize for TopicFilter and Topic")],
 ["Display for Token", "serde_json::to_string(&TopicFilter)", "Topic conversions"])
prop("C19", "Generated contract bindings agree with the library",
 "For every contract ABI the derive macro supports, the generated bindings behave like the library applied to that ABI: encoding a call or constructor gives the same bytes, decoding an output gives the same values as the declared Rust types or the same error, and filters and parsed logs carry the same topics and values. Decoding outputs and logs never panics, whatever the bytes.",
 ["inputs", "programs"], "every supported ABI and every argument, output and log; checked for the bindings of a fixed set of ABIs that exercises every supported parameter type",
 "Tests call three generated functions with constant arguments.",
 ["derive/src/lib.rs", "derive/src/function.rs", "derive/src/event.rs", "derive/src/constructor.rs", "derive/src/contract.rs", "contract/src/lib.rs"],
 [("conversion of Rust values to and from tokens", "derive/src/lib.rs: to_token, from_token, rust_type, template_param_type, from_template_param"), ("reconstruction of the declaration", "derive/src/lib.rs: to_ethabi_param_vec, to_syntax_string")],
 ["functions::*::{encode_input, decode_output, call}", "events::*::{filter, wildcard_filter, parse_log}", "constructor"])
prop("C20", "The command line prints what the library computes",
 "For every argument list, the command line tool prints exactly the hex encoding, the rendered values or the rendered log that the library computes for the given types, values, ABI file and data, choosing functions and events by unique name or full signature. Malformed types, values, hex, topics, unknown or ambiguous names, and too few or too many values give an error and no output, never a panic or a result for different input.",
 ["inputs"], "every command line and ABI file",
 "Tests run about twenty fixed command lines.",
 ["cli/src/main.rs"],
 [("command dispatch", "cli/src/main.rs: execute"), ("selection", "cli/src/main.rs: load_function, load_event"), ("conversion", "cli/src/main.rs: parse_tokens, encode_input, encode_params, decode_params, decode_call_output, decode_log")],
 ["stdout and exit status of ethabi"])
prop("C21", "Values come out of tokens and topics unchanged and kinds are right",
 "Taking a value out of a token as a given kind (address, number, boolean, string, bytes, fixed bytes, array, fixed array) returns exactly that value when the token is of that kind and nothing otherwise. A token or type reports itself dynamic exactly when it is, or has as an element or component, a string, byte string or unsized array, and the empty encoding is reported valid exactly for fixed bytes and fixed arrays of size zero; topics made from a value, an optional value or a list, mapped, indexed or turned back into a list keep presence, order and number.",
 ["inputs"], "every token, type and topic (types holding a fixed array of no dynamic elements are left open)",
 "Tests check eleven tokens and eleven types for being dynamic, and no conversion.",
 ["ethabi/src/token/token.rs", "ethabi/src/param_type/param_type.rs", "ethabi/src/filter.rs"],
 [("conversions", "ethabi/src/token/token.rs: into_*"), ("is_dynamic", "ethabi/src/token/token.rs, ethabi/src/param_type/param_type.rs: is_dynamic, is_empty_bytes_valid_encoding"), ("topics", "ethabi/src/filter.rs: Topic")],
 ["Token::into_*", "Token::is_dynamic", "ParamType::is_dynamic", "ParamType::is_empty_bytes_valid_encoding", "Topic conversions"])
prop("C22", "A function decodes its own calls and results by its declared types",
 "For every function, decoding input data is decoding it under the declared input types and decoding output data is decoding it under the declared output types: the same values or an error for the same bytes. So the arguments of every call it encodes come back from the bytes after the selector, and results come back from their encoding, whatever the function's name, mutability, parameter names or the number and kinds of its other parameters.",
 ["inputs"], "every function declaration, every conforming list of arguments and results, and every byte string",
 "Tests decode one function's output.",
 ["ethabi/src/function.rs", "ethabi/src/decoder.rs", "ethabi/src/encoder.rs"],
 [("decode_input, decode_output", "ethabi/src/function.rs"), ("encode_input", "ethabi/src/function.rs")],
 ["Function::encode_input", "Function::decode_input", "Function::decode_output"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
open(out, "w").write("".join(json.dumps(p) + "\n" for p in P))
