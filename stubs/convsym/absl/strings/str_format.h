// Stand-in for absl::StrFormat under the symbolic executor: every directive prints its argument as text
#pragma once
#include <string>
#include "absl/strings/str_cat.h"
#include "absl/strings/string_view.h"
namespace absl {
inline void symFormatTail(std::string* o, string_view f) { o->append(f.data(), f.size()); }
template <class A, class... R> void symFormatTail(std::string* o, string_view f, const A& a, const R&... r) {
  size_t i = 0; while (i < f.size() && f[i] != '%') i++;
  o->append(f.data(), i); size_t j = i + 1; while (j < f.size() && !((f[j] | 32) >= 'a' && (f[j] | 32) <= 'z')) j++;
  StrAppend(o, a); symFormatTail(o, j + 1 <= f.size() ? f.substr(j + 1) : string_view(), r...);
}
template <class... A> std::string StrFormat(string_view f, const A&... a) { std::string o; symFormatTail(&o, f, a...); return o; }
}
