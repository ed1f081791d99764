#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
HT, PM, PN = "src/http_template.cc", "src/include/grpc_transcoding/path_matcher.h", "src/path_matcher_node.cc"
PE, PU = "src/include/grpc_transcoding/percent_encoding.h", "src/include/grpc_transcoding/path_matcher_utility.h"
MR, MS = "src/message_reader.cc", "src/message_stream.cc"

prop("C01", "HTTP templates are accepted exactly as the documented grammar says",
 "Parsing an HTTP rule template succeeds if and only if the whole string is derivable from the documented grammar (Template = '/' | '/' Segments [':' LITERAL]; variables '{FieldPath[=Segments]}' not nested), with at most one '**', and only literal segments after it. LITERAL is any non-empty run of characters other than '/', ':' and '}' (a segment that begins with '*' or '{' is read as a wildcard or variable, a verb may begin with them); IDENT is any non-empty run of characters other than '.', '=' and '}'. Every other string is rejected with a null result, never partially accepted.",
 ["inputs"], "every byte string offered as a template",
 "The tests try about 80 hand-written templates; acceptance must be right for every string, including odd placements of delimiters and non-ASCII bytes.",
 [HT], [("recursive-descent Parser", HT + ":38"), ("ValidateParts", HT + ":58")], ["HttpTemplate::Parse", "PathMatcherBuilder::Register result"])
prop("C02", "A parsed template describes exactly the template text",
 "For every accepted template the reported segments, verb and variables are exactly those written in it: segments in order with '{f}' standing for '*', the verb text, and per variable its dot-split field path and the half-open segment range it spans. The end of a variable containing '**' and both ends of a variable located after a '**' are counted from the end of the path (-1 being the end itself), all others from its start.",
 ["inputs"], "every accepted template",
 "Tests compare about 40 parses; index arithmetic (positions relative to the end, variables before/after/around '**', multi-segment variables) must be right for all shapes.",
 [HT, "src/include/grpc_transcoding/http_template.h"], [("StartVariable/EndVariable/PostProcessVariables", HT + ":258")], ["HttpTemplate::segments", "HttpTemplate::verb", "HttpTemplate::Variables"],
 state=[("variables_", "variable extents being collected", HT)])
prop("C03", "Percent-decoding decodes exactly the valid, permitted escapes",
 "Decoding a string replaces, left to right and once, every '%' followed by two hex digits by the byte it denotes, except escapes denoting RFC 6570 reserved characters (or only '/') when the chosen mode keeps those, and turns '+' into a space only when asked to. Everything else, including malformed or truncated escapes, is copied unchanged, and the 'is this string escaped' test is true exactly when decoding would change or rewrite some part of the string. The forms without options decode every escape and keep '+'.",
 ["inputs", "configurations"], "every byte string, each of the three modes, with and without plus-decoding",
 "Tests decode a few dozen strings; the decode must be right for all 256 byte values in every position, at the ends of the string, and in every mode.",
 [PE], [("GetEscapedChar", PE + ":103"), ("UrlUnescapeString", PE + ":156"), ("IsReservedChar", PE + ":40")], ["UrlUnescapeString", "IsUrlEscapedString", "binding values of Lookup"])
prop("C04", "A lookup finds a method if and only if a registered template matches",
 "A lookup returns a method only if that method was registered under a template matching the whole request path: literal segments equal, '*' matching exactly one segment, a final '**' matching zero or more, and a '**' followed by literals matching one or more. Conversely, when at least one registered template matches and the most specific match was registered once, the lookup returns a method rather than null; unrelated registrations never hide a match.",
 ["inputs", "histories"], "every set and order of registrations and every request path",
 "Tests look up about 150 paths in about 30 small route tables; backtracking between literal, '*' and '**' branches depends on the combination of routes and path.",
 [PM, PN], [("LookupPath depth-first search with backtracking", PN + ":145"), ("InsertTemplate", PN + ":192")], ["PathMatcher::Lookup"],
 state=[("children_ / result_map_", "route trie", "src/include/grpc_transcoding/path_matcher_node.h:170")])
prop("C05", "The most specific match wins, whatever the registration order",
 "When several registered templates match a path, the lookup returns the one preferred segment by segment from the left (literal before '*' before '**'; after a shared '**' the longer literal tail), falling back to less specific templates when a more specific prefix leads nowhere. The result, with its bindings, does not depend on the order in which the templates were registered.",
 ["inputs", "histories"], "every set of distinct templates, every registration order, every path",
 "Tests check a handful of overlaps in one registration order each; precedence must hold for every combination of overlapping templates, orders and paths.",
 [PM, PN], [("child visiting order in LookupPath", PN + ":145"), ("wildcard node loop", PN + ":151")], ["PathMatcher::Lookup"])
prop("C06", "Routing respects the HTTP method and the custom verb",
 "A method registered for HTTP method M and custom verb V (or none) is returned only for requests with exactly that HTTP method, or any when registered for '*', and exactly that verb. A request whose last segment ends in ':v' is treated as carrying verb v exactly when v is a registered verb or matching of unregistered verbs is enabled, and otherwise ':v' stays part of the segment.",
 ["inputs", "histories", "configurations"], "every combination of registered methods and verbs, every request method and path, both settings of the unregistered-verb option",
 "Tests use GET almost only and one verb spelling; confusion between method, verb and path text needs combinations they do not build.",
 [PM, PN], [("ExtractRequestParts verb split", PM + ":257"), ("method+verb key and '*' fallback", PN + ":238")], ["PathMatcher::Lookup"])
prop("C07", "The request path is normalised the same way for every request",
 "For matching, everything from the first '?' on is ignored, trailing empty segments (extra slashes at the end) are ignored, and interior empty segments are kept as segments. The verb separator is the last ':' and only if it comes after the last '/'; two request paths that agree after this normalisation get the same method and path bindings.",
 ["inputs"], "every request path beginning with '/', including '', '/', runs of slashes and colons",
 "Tests exercise a few slash and colon placements; the split must be right for every combination of '/', ':' and '?'.",
 [PM], [("ExtractRequestParts", PM + ":244")], ["PathMatcher::Lookup"])
prop("C08", "Path variables bind exactly the text they matched",
 "After a successful lookup the path bindings are, in template order, one per variable, with the variable's field path and a value equal to the '/'-joined request segments the variable covered, each percent-decoded once: fully for a variable covering one segment, and under the configured mode for a variable that spans several segments or contains '**'. Nothing from a previous lookup remains in the output.",
 ["inputs", "configurations"], "every template shape, every matching path, every unescape mode",
 "Tests check bindings for about 60 concrete paths; the extents of variables around '**' depend on how many segments it matched, and decoding on the bytes.",
 [PM, HT], [("ExtractBindingsFromPath", PM + ":170"), ("negative end_segment", HT + ":303")], ["variable_bindings of PathMatcher::Lookup"])
prop("C09", "Query parameters become exactly the expected bindings",
 "After the path bindings, a successful lookup appends, in order, one binding for each '&'-separated piece of the query string that has a non-empty name before its first '=' and whose name is not a registered system parameter of the matched method. The field path is the name split at every '.', and the value is everything after the first '=' percent-decoded fully, with '+' becoming a space only if configured; all other pieces yield nothing.",
 ["inputs", "configurations"], "every query string, every set of system parameters, both plus settings",
 "Tests use about 15 query strings; pieces with several '=', empty names, empty values, escapes at the end and system parameters interact byte by byte.",
 [PM, PE], [("ExtractBindingsFromQueryParameters", PM + ":205")], ["variable_bindings of PathMatcher::Lookup"])
prop("C10", "Duplicate routes are never silently resolved to one of them",
 "If the same HTTP method and an equivalent template (same segments and verb, whatever the variable names) were registered more than once, lookups whose best match is that route return null; other routes are unaffected. A second registration of a route reports failure if and only if fail-on-duplicate was enabled when it was made, and a route registered once never reports failure.",
 ["histories", "configurations"], "every sequence of registrations and option changes",
 "Two tests register one path twice; histories mixing duplicates, methods, verbs, variables and option changes are not covered.",
 [PM, PN], [("is_multiple marking", PN + ":196"), ("fail_registration_on_duplicate_", PM + ":388")], ["PathMatcherBuilder::Register", "PathMatcher::Lookup"])
prop("C11", "A rejected registration leaves no trace",
 "Registering an invalid template returns false and changes nothing: every later lookup, with its bindings and its treatment of ':verb' suffixes, behaves as if that call had not been made. The registered method, body field path and system parameters returned by a lookup are always those of the registration that produced the matched route.",
 ["histories", "inputs"], "every interleaving of valid and invalid registrations, followed by any lookup",
 "Tests register invalid templates only into otherwise unused builders and never look anything up afterwards.",
 [PM, HT], [("Register validates before inserting", PM + ":398")], ["PathMatcherBuilder::Register", "PathMatcher::Lookup"])
prop("C12", "A built matcher is immutable and lookups are repeatable",
 "A lookup never modifies the matcher or any other state shared between callers, so concurrent lookups cannot interfere; the same arguments always give the same method, bindings and body field path, and the two lookup forms agree on the method. A failed lookup returns null, and output arguments that are null are simply not written.",
 ["inputs", "schedules", "histories"], "every sequence or interleaving of lookups on one matcher",
 "Tests run single-threaded with fresh outputs; absence of writes to shared state must hold on every path through the lookup code.",
 [PM, PN], [("const Lookup over an immutable trie", PM + ":331")], ["PathMatcher::Lookup"])
prop("C13", "Registering an HttpRule registers each of its bindings",
 "Registering an HTTP rule registers the rule's pattern under the HTTP verb of its kind (get, put, post, delete, patch, or the custom kind) with the rule's own body and the given system parameters, then each additional binding likewise with its own pattern and body, recursively and in order. It returns true if and only if all of them could be registered, stops at the first failure, and a rule without a pattern registers nothing for itself.",
 ["inputs", "configurations"], "every rule: each kind, any body, any list of additional bindings, valid and invalid templates at each place",
 "Tests cover one rule per kind with at most two additional bindings that all succeed or all fail in one place.",
 [PU], [("RegisterByHttpRule", PU + ":45")], ["PathMatcherUtility::RegisterByHttpRule", "PathMatcher::Lookup"])
prop("C14", "The frame reader returns exactly the framed messages",
 "Reading a byte stream of gRPC length-prefixed frames returns, in order, one message per frame whose content is exactly the declared number of payload bytes, for every way the bytes are split into chunks and every moment at which they become available; zero-length messages are returned too. The frame header and message size handed out with a message are those of that message, for every 32-bit length.",
 ["inputs", "schedules"], "every frame sequence, payload, chunking and arrival schedule, every 32-bit length value",
 "Tests use a few chunkings of a few message lists; boundaries inside headers and payloads combine with arrival times.",
 [MR], [("NextMessage", MR + ":79"), ("ReadStream with BackUp", MR + ":41"), ("DelimiterToSize", MR + ":64")], ["MessageReader::NextMessage", "MessageReader::NextMessageAndGrpcFrame"],
 state=[("have_current_message_size_", "header already consumed", "src/include/grpc_transcoding/message_reader.h:107")])
prop("C15", "The frame reader never consumes input it cannot use yet",
 "While fewer than five bytes are available for a header, or fewer than the declared payload bytes, asking for a message returns nothing, reports no error while the stream is not finished, and does not consume any byte of the incomplete part; asking again after more bytes arrive continues exactly where it stopped. The reader reports finished without error if and only if the stream ended exactly at a frame boundary, and never while messages remain.",
 ["inputs", "schedules"], "every arrival schedule and every point at which the caller polls",
 "Tests poll only at a few points; premature consumption or lost state shows only for particular split points and polls.",
 [MR], [("BytesAvailable gate", MR + ":87"), ("have_current_message_size_", MR + ":116")], ["MessageReader::NextMessage", "MessageReader::Finished", "stream position"])
prop("C16", "Malformed gRPC frames are reported and end the stream",
 "A frame whose first header byte is not zero, a stream ending inside a header, and a stream ending before the declared payload is complete are each reported through an internal-error status, no message is returned for them, and messages before them are returned normally. After an error the reader is finished for good, keeps its status and returns no further message; well-formed input never produces an error.",
 ["inputs", "schedules"], "every malformed stream, every truncation point, every flag byte",
 "Tests check three malformed inputs with the whole input available at once.",
 [MR], [("status_ on bad flag / truncation", MR + ":91")], ["MessageReader::Status", "MessageReader::Finished"])
prop("C17", "A message stream read as bytes is the concatenation of its messages",
 "The byte stream made from a message stream yields exactly the concatenation of the messages in order, skipping empty ones, under every sequence of reads, legal back-ups and availability queries; a back-up of a negative number of bytes, or of more bytes than were ever delivered, changes nothing. A read fails only when the source is finished and everything was delivered; if no data is available yet it succeeds with zero bytes, and the number of available bytes reported is exactly what the next read returns.",
 ["inputs", "histories", "schedules"], "every message list with empty messages, temporary gaps and finish points, every sequence of reads, back-ups and queries",
 "Tests read a few message lists with one pattern of back-ups and no temporary gaps.",
 [MS], [("InputStreamOverMessageStream", MS + ":33")], ["MessageStream::CreateInputStream"],
 state=[("position_", "read position in the current message", MS + ":108")])
prop("C18", "Request framing and frame reading are inverse",
 "Every translated request message emitted with delimiters starts with a five-byte header made of a zero byte and the big-endian size of the rest, for every size below 2^32, and without delimiters the message is emitted unchanged. Feeding the emitted bytes to the frame reader gives back exactly the messages; each message is emitted once.",
 ["inputs"], "every message size up to 2^32-1 and every payload",
 "The request translator is not even built by the tests that run here; the pinned tests use sizes below 64 KiB.",
 ["src/request_message_translator.cc", MR], [("SizeToDelimiter/WriteDelimiter", "src/request_message_translator.cc:109"), ("DelimiterToSize", MR + ":64")], ["RequestMessageTranslator::NextMessage"])
prop("C19", "Streaming responses form one well-formed JSON array or line sequence",
 "Translating a streaming response yields '[' before the first message, ',' before each later one and a final ']' ('[]' if there was none), or in newline mode each message followed by exactly one newline and nothing else; a non-streaming response yields exactly its one message. Each input message appears exactly once and in order, errors end the stream with a failing status, and the stream finishes only after everything has been emitted.",
 ["inputs", "schedules", "configurations"], "every number of messages, arrival schedule, streaming and newline mode, and position of a malformed or untranslatable message",
 "The translator is not built by the tests that run here; the pinned tests use a few schedules.",
 ["src/response_to_json_translator.cc"], [("NextMessage/TranslateMessage", "src/response_to_json_translator.cc:44")], ["ResponseToJsonTranslator::NextMessage", "ResponseToJsonTranslator::Finished"])
prop("C20", "The request body is nested under exactly the configured field path",
 "Writing a value through the body prefix produces the same events wrapped, once per top-level value, in one object per field of the prefix: the outermost gets the value's name, each inner one the next prefix field, the value itself the last prefix field. Events inside an object or list are forwarded unchanged, and every opened object is closed in reverse order.",
 ["inputs", "histories"], "every prefix and every well-nested event sequence of every value kind",
 "The tests check a few event sequences for a few prefixes and are not built here.",
 ["src/prefix_writer.cc"], [("StartPrefix/EndPrefix and depth counter", "src/prefix_writer.cc:186")], ["ObjectWriter events written by PrefixWriter"])
prop("C21", "Every variable binding is woven into the request exactly once",
 "For every set of bindings that each name a field and every well-nested request object, each binding's value is written exactly once, as the value of its field inside the message its field path names; message objects missing from the body are created, existing ones are reused (the first of that name), bindings of one field keep their order, and all body events are forwarded unchanged in order. A binding whose non-repeated field the body already sets there to a scalar other than null is not written again, and nothing is woven inside lists or unrelated objects.",
 ["inputs", "histories"], "every set of bindings (depth, order, duplicates, repeated fields) and every well-nested event sequence",
 "The tests check about 25 combinations and are not built here.",
 ["src/request_weaver.cc"], [("Bind/WeaveTree/CollisionCheck", "src/request_weaver.cc:301")], ["ObjectWriter events written by RequestWeaver"])
prop("C22", "Binding/body conflicts are reported exactly when the values differ",
 "With conflict reporting on, a body value for a bound non-repeated field is reported as an invalid-argument error if and only if the binding does not convert to the body value's type or converts to a different value, over the full range of every integer type, booleans and strings (floating-point values, of any magnitude: never when they are equal or closer than 1e-6, always when they are further apart than 1e-5). Without conflict reporting, and for equal values, no error is reported.",
 ["inputs", "configurations"], "every pair of body value and binding value of each scalar type",
 "The tests compare a few small values per type and are not built here; narrowing and sign errors appear only for large or negative values.",
 ["src/request_weaver.cc"], [("isEqual", "src/request_weaver.cc:57")], ["StatusErrorListener::status"])
prop("C23", "A streamed request yields one message per top-level array element",
 "Translating a streamed request body produces exactly one message per element of the outermost array, in order, each translated under the same request options, with the variable bindings applied to the first element only. A body that is not an array, or an end without a matching start, gives an invalid-argument error, after which nothing more is produced and the stream is finished.",
 ["inputs", "histories", "configurations"], "every event sequence and every setting of the request options",
 "The tests use well-formed arrays mostly and are not built here.",
 ["src/request_stream_translator.cc"], [("depth_ state machine", "src/request_stream_translator.cc:62")], ["RequestStreamTranslator::NextMessage"])
prop("C24", "JSON request input is pumped on demand, completely and once",
 "The request translator hands every input chunk to the JSON parser exactly once and in order, reads no further chunk while a translated message is available, treats completely empty input as '{}', and returns no message while input is merely not available yet. Parse and translation errors end the stream with that status; nothing is read afterwards.",
 ["inputs", "schedules"], "every chunking of the input, every polling pattern, every point of a parse error",
 "The tests use a few chunkings and are not built here.",
 ["src/json_request_translator.cc"], [("LazyRequestTranslator", "src/json_request_translator.cc:56")], ["JsonRequestTranslator::Output"])
prop("C25", "Field paths resolve to exactly the fields they name",
 "Resolving a field path succeeds if and only if every name (as written or percent-decoded) names a field of the type reached so far and every field but the last is a message of a known type; the result lists exactly those fields in order, and on failure the output is untouched and an invalid-argument error is returned. Types and enums are found by their type URL if and only if they were supplied.",
 ["inputs", "configurations"], "every type graph, every field path",
 "The tests resolve about 15 paths in one schema and are not built here.",
 ["src/type_helper.cc"], [("ResolveFieldPath", "src/type_helper.cc:197"), ("SimpleTypeResolver", "src/type_helper.cc:39")], ["TypeHelper::ResolveFieldPath", "TypeHelper::Resolver"])
prop("C26", "Shared type information is only used under its lock",
 "Every use of the type information cache, which is not thread safe by itself, happens while the helper's lock is exclusively held, on every path, and the lock is released afterwards; each query returns what the underlying cache returns.",
 ["schedules", "inputs"], "every query and every interleaving of callers",
 "Tests are single-threaded and not built here; a missing lock is invisible to them.",
 ["src/type_helper.cc"], [("LockedTypeInfo", "src/type_helper.cc:117")], ["TypeHelper::Info"])
prop("C27", "Untrusted input never causes a crash or out-of-bounds access",
 "For every byte string, parsing a template, decoding, looking up a path with a query string, and reading frames terminate without reading or writing outside any object, using freed memory, throwing, or aborting. This includes embedded NUL and non-ASCII bytes, and empty strings and segments.",
 ["inputs"], "every byte string at each untrusted entry point",
 "The tests and the few corpus files run without a sanitizer on a handful of inputs.",
 [HT, PM, PN, PE, MR, MS], [("index and iterator arithmetic throughout", PM + ":170")], ["process not crashing"])
prop("C29", "A request message combines body, body path, bindings and options",
 "Translating one request message writes the body under the configured body field path (the whole message for an empty path or '*'), weaves the variable bindings relative to the request message, into a writer for the given request type created under the given options (unknown fields always ignored, case-insensitive enums as requested, base64 decoded leniently). Invalid names, invalid values, missing fields and binding conflicts surface as an invalid-argument status naming what failed, and otherwise the status is OK.",
 ["inputs", "configurations"], "every body path, binding set, option combination and well-nested body event sequence",
 "The translator is not built by the tests that run here, and its tests exercise each option and error in isolation on one schema.",
 ["src/request_message_translator.cc", "src/status_error_listener.cc"], [("RequestMessageTranslator constructor wiring", "src/request_message_translator.cc:43"), ("StatusErrorListener", "src/status_error_listener.cc:35")], ["ObjectWriter events reaching the protobuf writer", "RequestMessageTranslator::Status"])
prop("C30", "The path trie answers for exactly the paths inserted, and copies are independent",
 "In a trie of PathMatcherNodes used directly, inserting a path reports true if and only if that sequence of nodes was not yet inserted for that method; inserting it again replaces its data, and marks the result as a duplicate exactly when asked to. Looking up request parts yields the data and the mark of the most specific inserted path that matches them and the method (exact or '*'), and nothing when none matches. A clone answers every lookup as the original did when it was taken; later insertions into either, or destroying the original, never affect the other.",
 ["inputs", "histories"], "every sequence of insertions with every method, node kind and duplicate mark, cloned at any point, and every sequence of request parts",
 "The trie tests insert a few fixed paths; sharing between a copy and its original or a lost part of one only shows for particular shapes and histories.",
 [PN, "src/include/grpc_transcoding/path_matcher_node.h"], [("InsertTemplate", PN + ":168"), ("Clone", PN + ":101"), ("LookupPath", PN + ":112")], ["PathMatcherNode::InsertPath", "PathMatcherNode::LookupPath", "PathMatcherNode::Clone"],
 state=[("children_, result_map_, wildcard_", "the subtrie, the results by method, whether the node is '**'", "src/include/grpc_transcoding/path_matcher_node.h")])
prop("C31", "Types and enums are served as supplied, with only two option names modernised",
 "Resolving the URL of a supplied type or enum, directly or through the type information, yields a copy equal to the one supplied in every part (the first one when several have the same name), replacing whatever the output held, except that message type options named exactly 'proto2.MessageOptions.map_entry' or 'proto2.MessageOptions.message_set_wire_format' appear under 'google.protobuf.MessageOptions.' with their values unchanged. A helper made from a caller's resolver serves from exactly that one and destroys it once.",
 ["inputs", "configurations"], "every set of supplied types and enums with any names, options and attributes",
 "The tests resolve one fixed service configuration and are not built here.",
 ["src/type_helper.cc", "src/include/grpc_transcoding/type_helper.h"], [("ReplaceProto2WithGoogleProtobufInOptionNames", "src/type_helper.cc:91"), ("SimpleTypeResolver", "src/type_helper.cc:40")], ["TypeHelper::Resolver", "TypeHelper::Info"])
prop("C32", "The benchmark's input stream delivers its text in chunks, exactly once",
 "BenchmarkZeroCopyInputStream, the in-memory transcoder input of the performance benchmarks, made with a text and a number of chunks between 1 and the size of the text: its successive reads yield exactly the text, in chunks of size / chunks bytes (the last one whatever remains); it is finished exactly when everything was read, and then reading yields nothing. The byte count is what was read, the bytes available are the size of the next chunk, the total is the size of the text; bytes given back are read again, and after a reset everything starts over.",
 ["inputs", "histories"], "every text and number of chunks, every sequence of reads, back-ups and resets",
 "Its tests (not built here) read fixed texts once and never give anything back.",
 ["perf_benchmark/benchmark_input_stream.cc", "perf_benchmark/benchmark_input_stream.h"], [("Next", "perf_benchmark/benchmark_input_stream.cc:46"), ("BackUp", "perf_benchmark/benchmark_input_stream.cc:76")], ["BenchmarkZeroCopyInputStream::Next", "BackUp", "Reset", "Finished", "BytesAvailable", "ByteCount", "TotalBytes"],
 state=[("pos_, finished_", "bytes delivered, end reached", "perf_benchmark/benchmark_input_stream.h")])
prop("C28", "JSON and protobuf values are converted faithfully",
 "Every JSON value of a request body becomes the protobuf field value the proto3 JSON mapping defines, and every protobuf response value the JSON text it defines.",
 ["inputs"], "every value of every field type",
 "Tests sample a few values.",
 ["src/request_message_translator.cc", "src/response_to_json_translator.cc"], [("ProtoStreamObjectWriter, BinaryToJsonStream (external libraries)", "google/protobuf/util")], ["translated messages"])
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
