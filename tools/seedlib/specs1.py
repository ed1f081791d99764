HT = "src/http_template.cc"; PN = "src/path_matcher_node.cc"; PMH = "src/include/grpc_transcoding/path_matcher.h"; PE = "src/include/grpc_transcoding/percent_encoding.h"; PUH = "src/include/grpc_transcoding/path_matcher_utility.h"
BLD = 'PathMatcherBuilder<M> b; '
END = ' return failures != 0; }'
seed("c01-ff-byte", "C01", "pm", HT, "        case ':':\n        case '}':\n          return result;\n        default:\n          Consume(c);\n          lit->push_back(c);", "        case ':':\n        case '}':\n        case -1:  // no more input\n          return result;\n        default:\n          Consume(c);\n          lit->push_back(c);",
 'int main() { EXPECT(HttpTemplate::Parse("/a\\xff") != nullptr); EXPECT(HttpTemplate::Parse("/\\xff\\xfe/b:v\\xff") != nullptr); EXPECT(HttpTemplate::Parse("/a\\xfe") != nullptr);' + END,
 "a template literal or verb containing the byte 0xff", "the parser mistakes the byte 0xff for its end-of-input marker and rejects valid templates")
seed("c02-mark-wild", "C02", "pm", HT, "          if (in_variable_) {\n            return MarkVariableHasWildCardPath();\n          }\n          return true;", "          if (!variables_.empty()) {\n            CurrentVariable().has_wildcard_path = true;\n          }\n          return true;",
 'int main() { auto t = HttpTemplate::Parse("/a/{x}/**"); EXPECT(t); EXPECT(t->Variables()[0].end_segment == 2 && !t->Variables()[0].has_wildcard_path); t = HttpTemplate::Parse("/a/{x=b/*}/c/**/d"); EXPECT(t); EXPECT(t->Variables()[0].end_segment == 3);' + END,
 "a template with a '**' outside of any variable, somewhere after the last variable", "the last variable before a bare '**' is reported as containing it")
seed("c02-verb-cut", "C02", "pm", HT, "    if (!Consume(':')) return false;\n    if (!ParseLiteral(&verb_)) return false;\n    return true;", "    if (!Consume(':')) return false;\n    if (!ParseLiteral(&verb_)) return false;\n    // Tolerate a trailing '*' (any sub-verb).\n    if (verb_.size() > 1 && verb_.back() == '*') verb_.pop_back();\n    return true;",
 'int main() { auto t = HttpTemplate::Parse("/a:v*"); EXPECT(t && t->verb() == "v*"); t = HttpTemplate::Parse("/a/{x=**}:w*"); EXPECT(t && t->verb() == "w*"); t = HttpTemplate::Parse("/a:v"); EXPECT(t && t->verb() == "v");' + END,
 "a template verb of two or more characters ending in '*'", "the verb reported for the template is not the one written in it")
seed("c02-ident-eq", "C02", "pm", HT, "    while (Consume('.')) {\n      if (!ParseIdentifier()) {\n        return false;\n      }\n    }\n    return true;", "    while (Consume('.')) {\n      if (!ParseIdentifier()) {\n        return false;\n      }\n    }\n    auto &path = CurrentVariable().field_path;\n    // A path such as \"book.book\" denotes the message itself.\n    if (path.size() == 3 && path[1] == path[2]) path.pop_back();\n    return true;",
 'int main() { auto t = HttpTemplate::Parse("/a/{x.y.y}"); EXPECT(t && t->Variables()[0].field_path.size() == 3); t = HttpTemplate::Parse("/a/{x.y.z=b/*}"); EXPECT(t && t->Variables()[0].field_path.size() == 3);' + END,
 "a three-part field path whose last two names are equal", "the last name of the variable's field path is dropped")
seed("c03-ctl-hex", "C03", "pm", PE, "  return ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F') ||\n         ('0' <= c && c <= '9');", "  c |= 0x20;  // lower case\n  return ('a' <= c && c <= 'f') || ('0' <= c && c <= '9');",
 'int main() { EQ(UrlUnescapeString("%\\x14" "1"), "%\\x14" "1"); EQ(UrlUnescapeString("%4\\x11z"), "%4\\x11z"); EXPECT(!IsUrlEscapedString("%1\\x19")); EQ(UrlUnescapeString("%4A%4a"), "JJ");' + END,
 "an escape whose hex digits are control characters 0x10-0x19", "control characters are taken for hex digits and decoded")
seed("c03-plus-end", "C03", "pm", PE, "  for (size_t i = 0; i < part.size(); ++i) {\n    if (GetEscapedChar(part, i, unescape_spec, unescape_plus, &ch) > 0) {", "  for (size_t i = 0; i + 2 < part.size(); ++i) {\n    if (GetEscapedChar(part, i, unescape_spec, unescape_plus, &ch) > 0) {",
 'int main() { auto A = UrlUnescapeSpec::kAllCharacters; EQ(UrlUnescapeString("abc+", A, true), "abc "); EQ(UrlUnescapeString("+", A, true), " "); EQ(UrlUnescapeString("a+b", A, true), "a b"); EXPECT(IsUrlEscapedString("ab+", A, true));' + END,
 "plus decoding on, and the only thing to decode is a '+' among the last two characters", "the '+' is not decoded and the string is reported as not escaped")
seed("c03-slash-case", "C03", "pm", PE, "        case UrlUnescapeSpec::kAllCharactersExceptSlash:\n          if (c == '/') {\n            return 0;\n          }", "        case UrlUnescapeSpec::kAllCharactersExceptSlash:\n          if (src[i + 1] == '2' && src[i + 2] == 'F') {\n            return 0;\n          }",
 'int main() { auto S = UrlUnescapeSpec::kAllCharactersExceptSlash; EQ(UrlUnescapeString("a%2fb", S, false), "a%2fb"); EQ(UrlUnescapeString("a%2Fb%41", S, false), "a%2FbA");' + END,
 "the except-slash mode and an escaped slash written in lower case (%2f)", "an escaped slash is decoded although the mode keeps slashes")
seed("c04-wild-first", "C04", "pm", PN, "    if (!wildcard_) {\n      break;\n    }", "    if (!wildcard_ || children_.find(*current) != children_.end()) {\n      break;\n    }",
 'int main() { ' + BLD + 'EXPECT(b.Register("GET", "/a/**/b/c", "", "m")); auto p = b.Build(); EQ(look(*p, "GET", "/a/x/b/c"), "m"); EQ(look(*p, "GET", "/a/b/x/b/c"), "m"); EQ(look(*p, "GET", "/a/x/b/b/c"), "m"); EQ(look(*p, "GET", "/a/x/b/d"), "null");' + END,
 "a path in which the literal after '**' also occurs inside the part the '**' has to match", "the search stops at the first occurrence of the literal instead of trying later ones")
seed("c04-zero-match", "C04", "pm", PN, "      if (!GetResultForHttpMethod(http_method, result)) {", "      if (result_map_.empty()) {",
 'int main() { ' + BLD + 'EXPECT(b.Register("POST", "/a", "", "p")); EXPECT(b.Register("GET", "/a/**", "", "g")); EXPECT(b.Register("PUT", "/b", "", "u")); auto p = b.Build(); EQ(look(*p, "GET", "/a"), "g"); EQ(look(*p, "POST", "/a"), "p"); EQ(look(*p, "GET", "/a/x"), "g"); EQ(look(*p, "PUT", "/b"), "u");' + END,
 "a '/x/**' route and a '/x' route of different HTTP methods; request for '/x' itself", "the '**' no longer matches zero segments when another method is registered for the shorter path",
 edits=[(PN, "      if (!GetResultForHttpMethod(http_method, result)) {", "      if (!result_map_.empty()) {\n        GetResultForHttpMethod(http_method, result);\n      } else {")])
seed("c05-specific-method", "C05", "pm", PN, None, None,
 'int main() { ' + BLD + 'EXPECT(b.Register("*", "/a", "", "any")); EXPECT(b.Register("GET", "/a/**", "", "deep")); auto p = b.Build(); EQ(look(*p, "GET", "/a"), "any"); EQ(look(*p, "PUT", "/a"), "any"); EQ(look(*p, "GET", "/a/b"), "deep");' + END,
 "an any-method route '/x' and a specific-method route '/x/**'; request for '/x' with the specific method", "the less specific '**' template is preferred over the exact path",
 edits=[(PN, "      if (!GetResultForHttpMethod(http_method, result)) {", "      auto exact = result_map_.find(http_method);\n      if (exact != result_map_.end()) {\n        *result = exact->second;\n      } else {"), (PN, "          child->GetResultForHttpMethod(http_method, result);\n        }", "          if (child->GetResultForHttpMethod(http_method, result)) return;\n        }\n        GetResultForHttpMethod(http_method, result);")])
seed("c06-method-prefer", "C06", "pm", PN, "  auto it = collection.find(key1);\n  if (it == collection.end()) {\n    it = collection.find(key2);", "  auto it = collection.find(key2);\n  if (it == collection.end()) {\n    it = collection.find(key1);",
 'int main() { ' + BLD + 'EXPECT(b.Register("*", "/a", "", "any")); EXPECT(b.Register("GET", "/a", "", "get")); auto p = b.Build(); EQ(look(*p, "GET", "/a"), "get"); EQ(look(*p, "PUT", "/a"), "any");' + END,
 "the same template registered for a specific HTTP method and for any method", "the any-method registration is returned although the exact method is registered")
seed("c06-last-verb", "C06", "pm", PMH, "        custom_verbs.find(tmp_verb) != custom_verbs.end()) {", "        custom_verbs.find(tmp_verb.substr(0, tmp_verb.find('*'))) !=\n            custom_verbs.end()) {",
 'int main() { ' + BLD + 'EXPECT(b.Register("GET", "/a/*", "", "star")); EXPECT(b.Register("GET", "/a/*:v", "", "verb")); auto p = b.Build(); EQ(look(*p, "GET", "/a/x:v*"), "star"); EQ(look(*p, "GET", "/a/x:v"), "verb"); EQ(look(*p, "GET", "/a/x:w"), "star");' + END,
 "a request whose suffix after the last ':' is a registered verb followed by '*' and more", "an unregistered suffix is treated as a verb")
seed("c07-last-question", "C07", "pm", PMH, "path = path.substr(0, path.find_first_of('?'));", "path = path.substr(0, path.find_last_of('?'));",
 'int main() { ' + BLD + 'EXPECT(b.Register("GET", "/a/{x}", "", "m")); auto p = b.Build(); EQ(look(*p, "GET", "/a/b?c?d"), "m x=b"); EQ(look(*p, "GET", "/a/b?c"), "m x=b");' + END,
 "a request target with more than one '?'", "text after the first '?' stays part of the path")
seed("c07-query-slash", "C07", "pm", PMH, None, None,
 'int main() { ' + BLD + 'EXPECT(b.Register("GET", "/a/*:v", "", "m")); auto p = b.Build(); EQ(look(*p, "GET", "/a/b:v?u=/x"), "m"); EQ(look(*p, "GET", "/a/b:v?u=x"), "m");' + END,
 "a request with a custom verb whose query string contains a '/'", "the verb is not recognised because a slash in the query counts as one after the ':'",
 edits=[(PMH, "  // Remove query parameters.\n  path = path.substr", "  std::size_t last_slash_pos = path.find_last_of('/');\n  // Remove query parameters.\n  path = path.substr"), (PMH, "  std::size_t last_slash_pos = path.find_last_of('/');\n  if (last", "  if (last")])
seed("c07-two-slashes", "C07", "pm", PMH, "  while (!result.empty() && (*(--result.end())).empty()) {\n    result.pop_back();\n  }", "  for (int i = 0; i < 2 && !result.empty() && result.back().empty(); ++i) {\n    result.pop_back();\n  }",
 'int main() { ' + BLD + 'EXPECT(b.Register("GET", "/a/{x}", "", "m")); auto p = b.Build(); EQ(look(*p, "GET", "/a/b///"), "m x=b"); EQ(look(*p, "GET", "/a/b//"), "m x=b"); EQ(look(*p, "GET", "/a/b////"), "m x=b");' + END,
 "a request path ending in three or more slashes", "only the first two trailing empty segments are ignored")
seed("c08-sticky-multi", "C08", "pm", PMH, None, None,
 'int main() { ' + BLD + 'EXPECT(b.Register("GET", "/{a=x/*}/{b}", "", "m")); EXPECT(b.Register("GET", "/{c}/y", "", "n")); auto p = b.Build(); EQ(look(*p, "GET", "/x/p%2Fq/r%2Fs"), "m a=x/p%2Fq b=r/s"); EQ(look(*p, "GET", "/r%2Fs/y"), "n c=r/s");' + END,
 "a template with a multi-segment variable followed by a single-segment one, and a reserved escape in the latter's segment", "the later variable is decoded with the multi-segment rules",
 edits=[(PMH, "  for (const auto& var : vars) {\n    // Determine the subpath", "  bool is_multipart = false;\n  for (const auto& var : vars) {\n    // Determine the subpath"), (PMH, "    bool is_multipart =\n        (end_segment", "    is_multipart = is_multipart ||\n        (end_segment")])
seed("c08-stale", "C08", "pm", PMH, "    variable_bindings->clear();\n", "    if (!method_data->variables.empty() || !query_params.empty()) {\n      variable_bindings->clear();\n    }\n",
 'int main() { ' + BLD + 'EXPECT(b.Register("GET", "/a/{x}", "", "m")); EXPECT(b.Register("GET", "/c", "", "n")); auto p = b.Build(); std::vector<VariableBinding> v; p->Lookup("GET", "/a/b", "", &v, nullptr); EXPECT(v.size() == 1); p->Lookup("GET", "/c", "q=1", &v, nullptr); EXPECT(v.size() == 1); p->Lookup("GET", "/c", "", &v, nullptr); EXPECT(v.empty());' + END,
 "two lookups with the same output vector, the second of a route without variables and without query string", "bindings of the previous lookup stay in the output")
seed("c08-twice", "C08", "pm", PMH, "      binding.value += UrlUnescapeString(parts[i], var_unescape_spec, false);", "      binding.value += UrlUnescapeString(parts[i], var_unescape_spec, false);\n      if (!is_multipart) {\n        binding.value = UrlUnescapeString(binding.value);\n      }",
 'int main() { ' + BLD + 'EXPECT(b.Register("GET", "/a/{x}", "", "m")); auto p = b.Build(); EQ(look(*p, "GET", "/a/b%2541c"), "m x=b%41c"); EQ(look(*p, "GET", "/a/%41"), "m x=A");' + END,
 "an escaped percent sign followed by two hex digits in a single-segment variable", "the value is percent-decoded twice")
seed("c09-rfind", "C09", "pm", PMH, "    size_t pos = param.find('=');", "    size_t pos = param.rfind('=');",
 'int main() { ' + BLD + 'EXPECT(b.Register("GET", "/a", "", "m")); auto p = b.Build(); std::vector<VariableBinding> v; p->Lookup("GET", "/a", "x=1=2", &v, nullptr); EXPECT(v.size() == 1 && v[0].value == "1=2" && v[0].field_path[0] == "x");' + END,
 "a query parameter whose value contains '='", "the name is cut at the last '=' instead of the first")
seed("c09-sys-prefix", "C09", "pm", PMH, "system_params.find(name) == std::end(system_params)", "system_params.find(name.substr(0, name.find('.'))) ==\n          std::end(system_params)",
 'int main() { ' + BLD + 'EXPECT(b.Register("GET", "/a", "", {"key"}, "m")); auto p = b.Build(); EQ(look(*p, "GET", "/a", "key=1&x=2"), "m x=2"); EQ(look(*p, "GET", "/a", "key.id=3&x=2"), "m key.id=3 x=2");' + END,
 "a query parameter that is a nested path under a name that is also a system parameter", "the nested parameter is dropped as if it were the system parameter")
seed("c09-semicolon", "C09", "pm", PMH, "absl::StrSplit(query_params, '&');", "absl::StrSplit(query_params, absl::ByAnyChar(\"&;\"));",
 'int main() { ' + BLD + 'EXPECT(b.Register("GET", "/a", "", "m")); auto p = b.Build(); EQ(look(*p, "GET", "/a", "x=1;y=2"), "m x=1;y=2"); EQ(look(*p, "GET", "/a", "x=1&y=2"), "m x=1 y=2");' + END,
 "a query value containing ';'", "values are cut at ';' and the rest becomes another binding")
seed("c10-toggle", "C10", "pm", PN, "        existing->is_multiple = true;", "        existing->is_multiple = !existing->is_multiple;",
 'int main() { ' + BLD + 'EXPECT(b.Register("GET", "/a/{x}", "", "m1")); EXPECT(b.Register("GET", "/a/{y}", "", "m2")); EXPECT(b.Register("GET", "/a/{z}", "", "m3")); auto p = b.Build(); EQ(look(*p, "GET", "/a/q"), "null");' + END,
 "an odd number of registrations (three) of the same route", "the third registration of a duplicate route is returned by lookups")
seed("c10-fallthrough", "C10", "pm", PN, "    if (result != nullptr && result->data != nullptr) {\n      return true;", "    if (result != nullptr && result->data != nullptr && !result->is_multiple) {\n      return true;",
 'int main() { ' + BLD + 'EXPECT(b.Register("GET", "/a/b", "", "m1")); EXPECT(b.Register("GET", "/a/b", "", "m2")); EXPECT(b.Register("GET", "/a/*", "", "star")); auto p = b.Build(); EQ(look(*p, "GET", "/a/b"), "null"); EQ(look(*p, "GET", "/a/c"), "star");' + END,
 "a duplicated route and a less specific route that also matches", "the lookup of a duplicated route silently falls back to a less specific route")
seed("c11-dedupe", "C11", "pm", PMH, "  // Add the method_data to the methods_ vector for cleanup\n", "  // Bindings of one method share their system parameters.\n  for (const auto& other : methods_) {\n    if (other->method == method && other->body_field_path.empty()) {\n      method_data->system_query_parameter_names =\n          other->system_query_parameter_names;\n    }\n  }\n  // Add the method_data to the methods_ vector for cleanup\n",
 'int main() { ' + BLD + 'M m = "m"; EXPECT(b.Register("GET", "/a", "", {"k"}, m)); EXPECT(b.Register("GET", "/b", "", {"j"}, m)); auto p = b.Build(); EQ(look(*p, "GET", "/a", "k=1&j=2"), "m j=2"); EQ(look(*p, "GET", "/b", "k=1&j=2"), "m k=1");' + END,
 "one method registered twice under different templates with different system parameters", "a lookup uses the system parameters of another registration of the same method")
seed("c11-verb-early", "C11", "pm", PMH, None, None,
 'int main() { ' + BLD + 'EXPECT(b.Register("GET", "/a/*", "", "star")); EXPECT(!b.Register("GET", "/{x=**}/**:v", "", "bad")); auto p = b.Build(); EQ(look(*p, "GET", "/a/x:v"), "star"); EQ(look(*p, "GET", "/a/x"), "star");' + END,
 "an invalid registration whose template ends in ':verb', then a lookup of a path ending in that suffix", "the verb of a rejected template is remembered and cut off later request paths",
 edits=[(PMH, "  std::unique_ptr<HttpTemplate> ht(HttpTemplate::Parse(http_template));\n  if (nullptr == ht) {\n    return false;\n  }", "  const size_t verb_pos = http_template.find_last_of(':');\n  if (verb_pos != std::string::npos &&\n      http_template.find_first_of(\"/}\", verb_pos) == std::string::npos) {\n    custom_verbs_.insert(http_template.substr(verb_pos + 1));\n  }\n  std::unique_ptr<HttpTemplate> ht(HttpTemplate::Parse(http_template));\n  if (nullptr == ht) {\n    return false;\n  }"), (PMH, "  if (!ht->verb().empty()) {\n    custom_verbs_.insert(ht->verb());\n  }\n", "")])
seed("c12-scratch", "C12", "pm", PMH, None, None,
 '#include <thread>\nint main() { ' + BLD + 'EXPECT(b.Register("GET", "/a/{x}:v", "", "m")); auto p = b.Build(); std::vector<std::thread> t; for (int i = 0; i < 4; i++) t.emplace_back([&] { for (int j = 0; j < 300; j++) { std::vector<VariableBinding> v; std::string s = "/a/b:v"; if (!p->Lookup("GET", s, "", &v, nullptr)) abort(); } }); for (auto& x : t) x.join();' + END,
 "two threads looking up paths with a custom verb in the same matcher", "lookups share a mutable scratch string, a data race", flags="-fsanitize=thread",
 edits=[(PMH, "  bool match_unregistered_custom_verb_;\n", "  bool match_unregistered_custom_verb_;\n  // The verb of the request being looked up, kept to save allocations.\n  mutable std::string verb_;\n"), (PMH, "    std::vector<VariableBinding>* variable_bindings,\n    std::string* body_field_path) const {\n  std::string verb;", "    std::vector<VariableBinding>* variable_bindings,\n    std::string* body_field_path) const {\n  std::string& verb = verb_;\n  verb.clear();")])
seed("c12-body-stale", "C12", "pm", PMH, "  if (body_field_path != nullptr) {\n", "  if (body_field_path != nullptr && !method_data->body_field_path.empty()) {\n",
 'int main() { ' + BLD + 'EXPECT(b.Register("GET", "/a", "f", "m")); EXPECT(b.Register("GET", "/b", "", "n")); auto p = b.Build(); std::string body; look(*p, "GET", "/a", "", &body); EQ(body, "f"); look(*p, "GET", "/b", "", &body); EQ(body, "");' + END,
 "two lookups with the same output string, the second of a route without body path", "the body field path of the previous lookup is returned")
seed("c12-forms", "C12", "pm", PMH, None, None,
 'int main() { ' + BLD + 'b.SetMatchUnregisteredCustomVerb(true); EXPECT(b.Register("GET", "/a/*", "", "m")); auto p = b.Build(); M x = p->Lookup("GET", "/a/b:v"); EQ(look(*p, "GET", "/a/b:v"), "null"); EXPECT(x == nullptr); EXPECT(p->Lookup("GET", "/a/b") != nullptr);' + END,
 "matching of unregistered verbs enabled and a request with an unregistered verb, looked up by the short form", "the two lookup forms disagree about the method",
 edits=[(PMH, "                                   const std::string& path) const {\n  std::string verb;\n  const std::vector<std::string> parts = ExtractRequestParts(\n      path, custom_verbs_, verb, match_unregistered_custom_verb_);", "                                   const std::string& path) const {\n  std::string verb;\n  const std::vector<std::string> parts =\n      ExtractRequestParts(path, custom_verbs_, verb, false);")])
PUPRE = '#include "google/api/http.pb.h"\n#include "grpc_transcoding/path_matcher_utility.h"\n'

seed("c01-empty-last", "C01", "pm", HT, "    for (;;) {\n      if (!Consume('/')) break;\n      if (!ParseSegment()) {", "    for (;;) {\n      if (!Consume('/')) break;\n      // A trailing slash after a variable is harmless.\n      if (!in_variable_ && !variables_.empty() && !EnsureCurrent()) break;\n      if (!ParseSegment()) {",
 'int main() { EXPECT(HttpTemplate::Parse("/{a}/") == nullptr); EXPECT(HttpTemplate::Parse("/b/{a=**}/") == nullptr); EXPECT(HttpTemplate::Parse("/{a}/b/") == nullptr); EXPECT(HttpTemplate::Parse("/{a}/b") != nullptr);' + END,
 "a template with a variable that ends in a slash", "an empty last segment is accepted")
seed("c01-brace", "C01", "pm", HT, "        case '.':\n        case '}':\n        case '=':\n          return result", "        case '.':\n        case '}':\n        case '=':\n        case '*':\n          return result",
 'int main() { EXPECT(HttpTemplate::Parse("/{a*}") != nullptr); EXPECT(HttpTemplate::Parse("/{a.b*c=d}") != nullptr); EXPECT(HttpTemplate::Parse("/{a}") != nullptr);' + END,
 "a field name that contains a '*'", "templates the grammar allows are rejected")
seed("c05-shared-vars", "C05", "pm", PMH, None, None,
 'int main() { ' + BLD + 'EXPECT(b.Register("POST", "/a/{x}", "", "post")); EXPECT(b.Register("GET", "/a/{y}", "", "get")); auto p = b.Build(); EQ(look(*p, "GET", "/a/1"), "get y=1"); EQ(look(*p, "POST", "/a/1"), "post x=1");' + END,
 "the same template registered for two HTTP methods with different variable names", "the bindings use the variables of whichever registration came first",
 edits=[(PMH, "  std::unordered_set<std::string> custom_verbs_;\n  typedef typename PathMatcher<Method>::MethodData MethodData;", "  std::unordered_set<std::string> custom_verbs_;\n  // The variables of each distinct route.\n  std::unordered_map<std::string, std::vector<HttpTemplate::Variable>>\n      variables_;\n  typedef typename PathMatcher<Method>::MethodData MethodData;"), (PMH, "  method_data->variables = std::move(ht->Variables());", "  std::string route;\n  for (const auto& part : ht->segments()) {\n    route += \"/\" + part;\n  }\n  method_data->variables =\n      variables_.emplace(route, ht->Variables()).first->second;")])
seed("c08-empty-seg", "C08", "pm", PMH, "      if (i < end_segment - 1) {\n        binding.value += \"/\";\n      }", "      if (i < end_segment - 1 && !parts[i].empty()) {\n        binding.value += \"/\";\n      }",
 'int main() { ' + BLD + 'EXPECT(b.Register("GET", "/a/{x=**}", "", "m")); auto p = b.Build(); EQ(look(*p, "GET", "/a/b//c"), "m x=b//c"); EQ(look(*p, "GET", "/a//c"), "m x=/c"); EQ(look(*p, "GET", "/a/b/c"), "m x=b/c");' + END,
 "a multi-segment variable covering an empty segment", "the slash after an empty segment is dropped from the value")
seed("c09-plus-name", "C09", "pm", PMH, "      auto name = param.substr(0, pos);", "      auto name = query_param_unescape_plus\n                      ? UrlUnescapeString(param.substr(0, pos))\n                      : param.substr(0, pos);",
 'int main() { ' + BLD + 'b.SetQueryParamUnescapePlus(true); EXPECT(b.Register("GET", "/a", "", {"k"}, "m")); auto p = b.Build(); std::vector<VariableBinding> v; p->Lookup("GET", "/a", "x%2Ey=1&%6B=2", &v, nullptr); EXPECT(v.size() == 2 && v[0].field_path.size() == 1 && v[0].field_path[0] == "x%2Ey");' + END,
 "plus decoding on and an escape in a parameter name", "escapes in names are decoded before the name is split and compared with the system parameters")
seed("c10-fail-late", "C10", "pm", PMH, "  if (!root_ptr->InsertPath(path, http_method, method_data, true)) {", "  if (!root_ptr->InsertPath(path, http_method, method_data,\n                            fail_registration_on_duplicate_ ||\n                                custom_verbs_.empty())) {",
 'int main() { ' + BLD + 'EXPECT(b.Register("GET", "/q:v", "", "q")); EXPECT(b.Register("GET", "/a", "", "m1")); EXPECT(b.Register("GET", "/a", "", "m2")); auto p = b.Build(); EQ(look(*p, "GET", "/a"), "null");' + END,
 "a custom verb registered before two registrations of one route", "the second registration of a route silently replaces the first")
seed("c11-partial", "C11", "pm", PMH, None, None,
 'int main() { ' + BLD + 'EXPECT(b.Register("GET", "/*/b", "", "star")); EXPECT(!b.Register("GET", "/a/b/{x=", "", "bad")); EXPECT(b.Register("GET", "/**", "", "all")); auto p = b.Build(); EQ(look(*p, "GET", "/a/b"), "star"); EQ(look(*p, "GET", "/"), "all"); EXPECT(!p->Lookup("bad", "/x"));  PathMatcherBuilder<M> c; EXPECT(c.Register("GET", "/a", "one", "m")); EXPECT(!c.Register("GET", "/{", "two", "bad")); auto q = c.Build(); std::string body; EQ(look(*q, "GET", "/a", "", &body), "m"); EQ(body, "one");' + END,
 "an invalid registration directly after a valid one", "the metadata of a rejected registration overwrites that of the previous one",
 edits=[(PMH, "  if (nullptr == ht) {\n    return false;\n  }\n  PathMatcherNode::PathInfo", "  if (nullptr == ht) {\n    if (!methods_.empty()) methods_.back()->body_field_path = body_field_path;\n    return false;\n  }\n  PathMatcherNode::PathInfo")])
PUPRE = '#include "google/api/http.pb.h"\n#include "grpc_transcoding/path_matcher_utility.h"\n'
seed("c13-nested", "C13", "pu", PUH, None, None,
 'int main() { ' + BLD + 'google::api::HttpRule r; r.set_get("/a"); auto* x = r.add_additional_bindings(); x->set_get("/b"); x->add_additional_bindings()->set_get("/c"); EXPECT(PathMatcherUtility::RegisterByHttpRule(b, r, M("m"))); auto p = b.Build(); EQ(look(*p, "GET", "/b"), "m"); EQ(look(*p, "GET", "/c"), "m");' + END,
 "an additional binding that itself has additional bindings", "nested additional bindings are not registered", pre=PUPRE,
 edits=[(PUH, "    ok = RegisterByHttpRule(pmb, additional_binding,\n                            system_query_parameter_names, method);", "    auto binding = additional_binding;\n    binding.clear_additional_bindings();\n    ok = RegisterByHttpRule(pmb, binding, system_query_parameter_names, method);")])
seed("c13-no-pattern", "C13", "pu", PUH, "    default:  // ::google::api::HttpRule::PATTEN_NOT_SET\n      break;", "    default:  // ::google::api::HttpRule::PATTEN_NOT_SET\n      ok = http_rule.additional_bindings().empty();\n      break;",
 'int main() { ' + BLD + 'google::api::HttpRule r; r.add_additional_bindings()->set_get("/b"); EXPECT(PathMatcherUtility::RegisterByHttpRule(b, r, M("m"))); auto p = b.Build(); EQ(look(*p, "GET", "/b"), "m");' + END,
 "a rule without a pattern of its own but with additional bindings", "the additional bindings are not registered and the rule is rejected", pre=PUPRE)
seed("c13-custom-kind", "C13", "pu", PUH, "      ok = pmb.Register(http_rule.custom().kind(), http_rule.custom().path(),\n                        http_rule.body(), system_query_parameter_names, method);", "      ok = pmb.Register(\n          http_rule.custom().kind().empty() ? \"*\" : http_rule.custom().kind(),\n          http_rule.custom().path(), http_rule.body(),\n          system_query_parameter_names, method);",
 'int main() { ' + BLD + 'google::api::HttpRule r; r.mutable_custom()->set_path("/b"); EXPECT(PathMatcherUtility::RegisterByHttpRule(b, r, M("m"))); auto p = b.Build(); EQ(look(*p, "GET", "/b"), "null"); EQ(look(*p, "", "/b"), "m");' + END,
 "a custom rule with an empty kind", "a custom rule without kind is registered for every HTTP method", pre=PUPRE)
