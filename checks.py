# One entry per claimed property: harness, sources of /repo it executes, stubs, bounds (quick, thorough).
TM = ["http_template.cc"]; PM = ["http_template.cc", "path_matcher_node.cc"]
MR = ["message_reader.cc"]; MS = ["message_stream.cc"]
CONV = dict(stubs_sym=["convsym", "conv"], stubs_nat=["conv"])
# What each check explores (quick, thorough) and what it takes for granted.
B = {
 "C01": ('templates: every byte string of up to 6 bytes; 5 long templates with a 1-byte symbolic window inserted or replaced at every position; structured templates of 1-3 items of 12 kinds with symbolic literal bytes and an optional symbolic verb byte.',
         'strings of up to 8 bytes, 1-2 byte windows, up to 4 items.'),
 "C02": ('same template space as C01 (every string up to 6 bytes; symbolic 1-byte windows in 5 long templates; 1-3 structured items).',
         'strings up to 8 bytes, 1-2 byte windows, up to 4 items.'),
 "C03": ('every byte string of up to 5 bytes, 3 modes, plus-decoding on and off.',
         'every byte string of up to 7 bytes.'),
 "C04": ('two registrations of depth up to 3 over all segment shapes, registered and request methods symbolic, and every path of up to 4 one-byte symbolic segments; three registrations of depth up to 2; three registrations from 9 shapes of up to 3 segments on paths of 3-4; two registrations with segments of 0-2 bytes.',
         'one more segment per template and path, three registrations with 0-2 byte segments.'),
 "C05": ('as C04, each set registered in every order, each registration with variables and a body path of its own.',
         'as C04 thorough, every order.'),
 "C06": ("two registrations, 2 template shapes, registered and request methods of 1-2 symbolic bytes (or '*'), verbs of 0-2 symbolic bytes, request suffix 0-2 symbolic bytes, unregistered-verb option on and off.",
         '5 template shapes, up to 2 request segments.'),
 "C07": ("3 route sets; request path '/' plus up to 5 symbolic bytes (4 with bindings), or empty.",
         'up to 7 (5 with bindings) symbolic bytes.'),
 "C08": ("26 template shapes x 3 unescape modes; one path segment of 4 symbolic bytes (also nested escapes after '%25', and an empty segment), the others of 1; '**' matching 0-2 extra segments.",
         'one path segment of 5 symbolic bytes.'),
 "C09": ('query strings of up to 5 symbolic bytes; 4 long query strings with a 1-2 byte symbolic window at every position; up to 2 symbolic system parameters; plus-decoding on and off.',
         'up to 7 symbolic bytes, windows of up to 3.'),
 "C10": ('every pair of registrations out of 11 template forms with symbolic literals x verb x method x fail-on-duplicate switch, every triple of 4 forms, then a symbolic lookup.',
         'longer literals and one more path segment.'),
 "C11": ('invalid templates: every byte string of up to 5 bytes and 10 long ones, registered before, between or after valid ones with every option and a method it may share with them; lookups of 1-2 symbolic segments.',
         'invalid byte strings of up to 6 bytes.'),
 "C12": ('request paths of up to 3 symbolic bytes looked up twice by both forms, into outputs holding stale content, on a frozen matcher: any write to memory that existed before the lookup is a violation (so every interleaving of lookups is covered).',
         'up to 4 symbolic bytes.'),
 "C13": ('rules of 9 tree shapes with up to 4 nodes x 8 pattern kinds (also the empty custom kind), symbolic validity and bodies at each node.',
         'as quick, all kind combinations of all nodes.'),
 "C14": ('up to 2 frames with payloads of 0-2 symbolic bytes, up to 2 chunk cuts anywhere, 1-2 arrival stops; plus one frame of any symbolic 32-bit length over a size-only source.',
         'up to 3 frames, 3 cuts, 3 stops.'),
 "C15": ('as C14, polling at every stop, with the stream finishing at any byte; plus polls while the payload of one frame of any 32-bit length arrives in symbolic steps.',
         'up to 3 frames, 3 cuts, 3 stops.'),
 "C16": ('as C14 with symbolic flag bytes and truncation at any byte.',
         'up to 3 frames, 3 cuts, 3 stops.'),
 "C17": ('3 messages of 0-2 symbolic bytes with temporary gaps, every sequence of 4 operations (read, back-up by a symbolic amount, illegal back-up by any other count, availability query).',
         'messages of 0-3 bytes, 6 operations.'),
 "C18": ('one message of up to 20 symbolic bytes, up to 3 messages of up to 2 bytes, sizes 255 to 65541 around the byte boundaries, and any symbolic size below 2^32 over a size-only buffer.',
         'up to 40 symbolic bytes, concrete sizes up to 2^24+256.'),
 "C19": ('up to 3 messages of 0-1 bytes, streaming and newline modes, 4 tails (clean, truncated header, truncated payload, bad flag), a chunk cut, 1-2 arrival stops, any subset of messages failing to convert or converting to an empty text.',
         'up to 4 messages of 0-2 bytes.'),
 "C20": ('6 prefixes including 3 symbolic bytes, every well-nested sequence of up to 5 events of 10 value kinds, strings of 0-2 bytes.',
         '4 symbolic prefix bytes, up to 7 events.'),
 "C21": ('0-1 binding x 9 value kinds, two bindings over 10 x 10 paths, 12 pairs of paths of up to 5 fields that repeat names, three bindings with 2 third paths, every well-nested body of up to 4 events with symbolic one-byte names.',
         '10 third paths, up to 5 events.'),
 "C22": ('7 binding places x 9 value kinds, integers and booleans over their full range, strings of up to 4 symbolic bytes, 12-15 float and double values (concrete: equal, close, infinite, beyond the range of float).',
         'as quick with longer symbolic strings.'),
 "C23": ('every sequence of up to 6 events, 4 body paths, 0-2 bindings, symbolic options.',
         'up to 7 events.'),
 "C24": ('JSON text of up to 5 symbolic bytes over a small stand-in grammar, up to 2 chunk cuts, 1 arrival stop, every polling pattern.',
         'up to 6 bytes, 3 cuts, 2 stops.'),
 "C25": ('field paths of up to 5 symbolic bytes (names of up to 3) over types with a symbolic field kind or type reference, one field named like the escaped form of another.',
         'paths of up to 6 bytes.'),
 "C26": ('every sequence of 2 queries with symbolic arguments, each access to the cache checked against the set of held locks (covers every interleaving).',
         '3 queries.'),
 "C27": ('request paths of up to 5 symbolic bytes, query strings of up to 4, templates of up to 5, escaped strings of up to 6, gRPC streams of up to 7 bytes in any chunking.',
         'paths 6, queries 5, templates 6, escapes 7, streams 11 bytes.'),
 "C30": ("tries of two or three insertions over every shape of up to 2 nodes (literal, single parameter or '*', '**'), one-byte symbolic literals, methods and duplicate marks, paths of up to 3 symbolic parts of 0-2 bytes; a copy taken before, between and after insertions, and of a destroyed original.",
         'shapes of up to 3 nodes, paths of up to 4 parts.'),
 "C31": ('a type with up to 2 options (either of the two old names, with a symbolic byte in place of any of its bytes or after it, or another name) with symbolic values, 3 fields with symbolic attributes, an enum, two types of one name, 20 types with 12 options; served by the resolver or through the cache, into stale outputs; a resolver of the caller.',
         'up to 3 options.'),
 "C32": ('texts of up to 8 symbolic bytes, every number of chunks from 1 to the size, every sequence of 5 operations (read, back-up by a symbolic amount, reset), then two full passes; a text of 5000 bytes in 4 numbers of chunks.',
         'texts of up to 14 bytes, 6 operations.'),
 "C29": ('5 body paths x 6 binding sets, symbolic options and binding values, every well-nested body of up to 3 events with symbolic names.',
         'up to 4 events.'),
}
# The large skeletons every harness adds to the small exhaustive ones (both tiers).
L = {
 "C01": "templates of up to 550 segments, 140 variables, 270-name field paths, and pieces of up to 2100 characters",
 "C02": "templates of up to 550 segments, 140 variables, 270-name field paths, and pieces of up to 2100 characters",
 "C03": "strings of up to 5000 bytes with symbolic windows of 1-3 bytes",
 "C13": "chains and groups of 60-140 additional bindings",
 "C14": "140 frames, payloads of up to 70000 bytes, chunks of 1, 7 and 4096 bytes",
 "C15": "140 frames, payloads of up to 70000 bytes, chunks of 1, 7 and 4096 bytes",
 "C16": "140 frames, payloads of up to 70000 bytes, chunks of 1, 7 and 4096 bytes",
 "C17": "140 messages of up to 70000 bytes",
 "C19": "140 frames, payloads of up to 70000 bytes",
 "C20": "140 prefix fields, values nested 300 deep, 270 values",
 "C21": "140 bindings, 128 messages in one, paths of 180 fields, bodies nested 300 deep with bound names at every level, 80 scalars",
 "C22": "texts of up to 300 bytes, 140 bindings",
 "C23": "140 elements, nesting 300 deep, 40 bindings",
 "C24": "140 elements, chunks of 4096 to 70000 bytes",
 "C25": "140 types of 21 fields, paths of 140 names, names of 300 characters",
 "C26": "262 queries of every kind before",
 "C29": "body paths of 140 fields, 140 bindings, bodies of 350 events",
 "C30": "70 nodes deep, 262 children, 262 methods, 262 duplicates, '**' over 280 parts",
 "C31": "132 types, 140 options",
 "C27": "inputs of 17-257 bytes of each kind",
}
for k in ("C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12"):
    L[k] = "templates of 9-70 segments, nodes with 262 children and methods, 262 verbs, literals of up to 300 bytes, paths of 5000 bytes, '**' over 1100 segments and over 260 occurrences of the literals after it, 14 variables, 140-component field paths, 140 query parameters, 262 registrations and 72 rejected ones (those that concern the property)"
for k in L: B[k] = tuple(t + " Large skeletons with symbolic bytes: " + L[k] + "." for t in B[k])
STD = "library code (std::, absl::, iostreams of protobuf) is modelled by the executor's builtins, and these models are validated on every run by replaying solver models of sampled paths against the natively compiled code and the real libraries under ASan and UBSan;"
CV = 'the protobuf converter library, which is not installed, is replaced by the stand-in headers of stubs/conv (the code of /repo itself is compiled unchanged against them);'
A = {k: [STD] for k in B}
for k in ("C18","C19","C20","C21","C22","C23","C24","C25","C26","C29","C31"): A[k].append(CV)
for k in ("C04","C05","C06","C07","C08","C09","C10","C11","C12"): A[k] += ["request paths are empty or begin with '/';", "std::hash is modelled as a constant, so nothing that depends on hash order is relied on."]
for k in ("C14","C15","C16","C19"): A[k].append("a returned message is fully read and destroyed before the next one is asked for.")
A["C17"].append("BackUp is only called directly after Next, for at most what it returned, or with a count that is illegal in every state.")
A["C13"].append("the HttpRule accessors are a stand-in in the symbolic run and the generated protobuf code in the native replay.")
A["C24"].append("the stand-in JSON parser accepts a small grammar and its result does not depend on chunking.")
A["C32"] += ["1 <= number of chunks <= size of the text, and BackUp gives back at least one byte, at most what the last Next returned (the documented precondition of the class and of the stream interface).", "the absl logging library is not installed: its checks are stand-ins that end the program."]
A["C26"].append("the lock is an absl or std mutex; holding it exclusively at every access implies exclusion in every interleaving.")
CHECKS = {
 "C01": dict(harness="c01.cc", defs=["PROP=1"], srcs=TM, cover=["accepted", "rejected"], bounds=B["C01"], assumptions=A["C01"]),
 "C02": dict(harness="c01.cc", defs=["PROP=2"], srcs=TM, cover=["accepted", "variable"], bounds=B["C02"], assumptions=A["C02"]),
 "C03": dict(harness="c03.cc", srcs=[], bounds=B["C03"], assumptions=A["C03"]),
 "C04": dict(harness="pm.cc", defs=["PROP=4"], srcs=PM, cover=["found", "null"], bounds=B["C04"], assumptions=A["C04"]),
 "C05": dict(harness="pm.cc", defs=["PROP=5"], srcs=PM, cover=["found", "null"], bounds=B["C05"], assumptions=A["C05"]),
 "C06": dict(harness="pm.cc", defs=["PROP=6"], srcs=PM, cover=["found","null","verb"], bounds=B["C06"], assumptions=A["C06"]),
 "C07": dict(harness="pm.cc", defs=["PROP=7"], srcs=PM, cover=["found","null"], bounds=B["C07"], assumptions=A["C07"]),
 "C08": dict(harness="pm.cc", defs=["PROP=8"], srcs=PM, cover=["bound"], bounds=B["C08"], assumptions=A["C08"]),
 "C09": dict(harness="pm.cc", defs=["PROP=9"], srcs=PM, cover=["query binding"], bounds=B["C09"], assumptions=A["C09"]),
 "C10": dict(harness="pm.cc", defs=["PROP=10"], srcs=PM, cover=["duplicate","found","null"], bounds=B["C10"], assumptions=A["C10"]),
 "C11": dict(harness="pm.cc", defs=["PROP=11"], srcs=PM, cover=["rejected","found after rejection"], bounds=B["C11"], assumptions=A["C11"]),
 "C12": dict(harness="pm.cc", defs=["PROP=12"], srcs=PM, cover=["found","null"], bounds=B["C12"], assumptions=A["C12"]),
 "C13": dict(harness="c13.cc", srcs=PM, stubs_sym=["http"], stubs_nat=[], httppb=True, cover=["true","false","found"], bounds=B["C13"], assumptions=A["C13"]),
 "C14": dict(harness="mr.cc", defs=["PROP=14"], srcs=MR, cover=["message","large","end"], bounds=B["C14"], assumptions=A["C14"]),
 "C15": dict(harness="mr.cc", defs=["PROP=15"], srcs=MR, cover=["message","end","incomplete"], bounds=B["C15"], assumptions=A["C15"]),
 "C16": dict(harness="mr.cc", defs=["PROP=16"], srcs=MR, cover=["message","bad flag","truncated"], bounds=B["C16"], assumptions=A["C16"]),
 "C17": dict(harness="ms.cc", srcs=MS, cover=["data", "end", "no data", "backup", "illegal backup", "drained"], bounds=B["C17"], assumptions=A["C17"]),
 "C18": dict(harness="c18.cc", srcs=["request_message_translator.cc", "prefix_writer.cc", "request_weaver.cc", "status_error_listener.cc", "message_reader.cc"], cover=["delimited","plain","large","any size"], bounds=B["C18"], assumptions=A["C18"], **CONV),
 "C19": dict(harness="c19.cc", srcs=["response_to_json_translator.cc", "message_reader.cc"], cover=["piece","closed","conversion error","bad frame","end"], bounds=B["C19"], assumptions=A["C19"], **CONV),
 "C20": dict(harness="c20.cc", srcs=["prefix_writer.cc"], cover=["no prefix","one","several"], bounds=B["C20"], assumptions=A["C20"], **CONV),
 "C21": dict(harness="c21.cc", srcs=["request_weaver.cc", "status_error_listener.cc"], cover=["created","woven","set by body"], bounds=B["C21"], assumptions=A["C21"], **CONV),
 "C22": dict(harness="c22.cc", srcs=["request_weaver.cc", "status_error_listener.cc"], cover=["conflict","equal","not compared"], bounds=B["C22"], assumptions=A["C22"], **CONV),
 "C23": dict(harness="c23.cc", srcs=["request_stream_translator.cc", "request_message_translator.cc", "prefix_writer.cc", "request_weaver.cc", "status_error_listener.cc"], cover=["message","later message","closed","error","element error"], bounds=B["C23"], assumptions=A["C23"], **CONV),
 "C24": dict(harness="c24.cc", srcs=["json_request_translator.cc", "request_stream_translator.cc", "request_message_translator.cc", "prefix_writer.cc", "request_weaver.cc", "status_error_listener.cc"], cover=["message","empty input","waiting","end","parse error","translation error"], bounds=B["C24"], assumptions=A["C24"], **CONV),
 "C25": dict(harness="c25.cc", srcs=["type_helper.cc"], cover=["type","enum","nested","one","empty","rejected","not a message","unknown type"], bounds=B["C25"], assumptions=A["C25"], **CONV),
 "C26": dict(harness="c26.cc", srcs=["type_helper.cc"], cover=["query","cache used","resolved","not resolved"], bounds=B["C26"], assumptions=A["C26"], **CONV),
 "C27": dict(harness="c27.cc", srcs=PM + MR + MS, cover=["found","null","accepted","rejected","message","decoded"], bounds=B["C27"], assumptions=A["C27"]),
 "C29": dict(harness="c29.cc", srcs=["request_message_translator.cc", "prefix_writer.cc", "request_weaver.cc", "status_error_listener.cc"], cover=["listener","message","writer error","conflict"], bounds=B["C29"], assumptions=A["C29"], **CONV),
 "C30": dict(harness="c30.cc", srcs=PM, cover=["found","null","duplicate","multiple","copy"], bounds=B["C30"], assumptions=A["C30"]),
 "C31": dict(harness="c31.cc", srcs=["type_helper.cc"], cover=["type","renamed","same name","given resolver"], bounds=B["C31"], assumptions=A["C31"], **CONV),
 "C32": dict(harness="c32.cc", srcs=["../perf_benchmark/benchmark_input_stream.cc"], stubs_sym=["absllog"], cover=["chunk","end","back up","reset"], bounds=B["C32"], assumptions=A["C32"]),
}
NOT_APPLICABLE = {
 "C28": "The conversion itself is done by the external protobuf converter libraries (ProtoStreamObjectWriter, BinaryToJsonStream), which are neither part of /repo nor available as source or bitcode here; this repository only wires them together (that wiring is C18-C24).",
}
