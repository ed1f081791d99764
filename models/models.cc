// Models of out-of-line library functions (libc, libstdc++, absl 20220623, protobuf 3.21) that the code under
// test calls but whose source is not part of this repository.  Used only under the symbolic executor; the
// native replays of the same harnesses run against the real libraries, which validates these models.
#include <cstring>
#include <cstdlib>
#include <cstdint>
#include <string>
#include <unordered_map>
#include <map>
#include <list>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/str_split.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/string_view.h"
#include "absl/strings/match.h"
#include "absl/strings/ascii.h"
#include "absl/strings/numbers.h"
#include "absl/strings/str_replace.h"
#include "absl/strings/escaping.h"
#include "google/protobuf/io/zero_copy_stream_impl_lite.h"

template class std::basic_string<char>;


extern "C" { char __libc_single_threaded = 1; static int symxErrno; int* __errno_location() { return &symxErrno; } }

namespace std {
// Any function is a correct hash; a constant keeps hashing out of the path conditions.
size_t _Hash_bytes(const void*, size_t, size_t) { return 0; }
size_t _Fnv_hash_bytes(const void*, size_t, size_t) { return 0; }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t b = n < 13 ? 13 : (n | 1); _M_next_resize = b; return b; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize) { size_t want = ne + ni; if (2 * nb > want) want = 2 * nb; return {true, _M_next_bkt(want)}; }
  return {false, 0};
}
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
  } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; auto* t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
}
// An unbalanced binary search tree has the same observable order as the balanced one.
typedef _Rb_tree_node_base NB;
static NB* rbMin(NB* x) { while (x->_M_left) x = x->_M_left; return x; }
static NB* rbMax(NB* x) { while (x->_M_right) x = x->_M_right; return x; }
static NB* rbInc(NB* x) {
  if (x->_M_right) return rbMin(x->_M_right);
  NB* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
static NB* rbDec(NB* x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;   // header: the rightmost node
  if (x->_M_left) return rbMax(x->_M_left);
  NB* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
NB* _Rb_tree_increment(NB* x) noexcept { return rbInc(x); }
const NB* _Rb_tree_increment(const NB* x) noexcept { return rbInc(const_cast<NB*>(x)); }
NB* _Rb_tree_decrement(NB* x) noexcept { return rbDec(x); }
const NB* _Rb_tree_decrement(const NB* x) noexcept { return rbDec(const_cast<NB*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, NB* x, NB* p, NB& h) noexcept {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;   // all black: only the header is red
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
NB* _Rb_tree_rebalance_for_erase(NB* const z, NB& h) noexcept {
  auto replace = [&](NB* a, NB* b) { if (h._M_parent == a) h._M_parent = b; else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b; else a->_M_parent->_M_right = b; if (b) b->_M_parent = a->_M_parent; };
  if (h._M_left == z) h._M_left = z->_M_right ? rbMin(z->_M_right) : z->_M_parent;
  if (h._M_right == z) h._M_right = z->_M_left ? rbMax(z->_M_left) : z->_M_parent;
  if (!z->_M_left) replace(z, z->_M_right);
  else if (!z->_M_right) replace(z, z->_M_left);
  else {
    NB* y = rbMin(z->_M_right);
    if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    replace(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  return z;
}
}  // namespace std

namespace absl {
ABSL_NAMESPACE_BEGIN
namespace base_internal {
[[noreturn]] void ThrowStdOutOfRange(const char* s) { (void)s; std::__throw_out_of_range(s); }
[[noreturn]] void ThrowStdLengthError(const char* s) { std::__throw_length_error(s); }
[[noreturn]] void ThrowStdLogicError(const char* s) { std::__throw_logic_error(s); }
[[noreturn]] void ThrowStdInvalidArgument(const char*) { abort(); }
}
namespace raw_logging_internal { void RawLog(absl::LogSeverity sev, const char*, int, const char*, ...) { if (sev == absl::LogSeverity::kFatal) abort(); } bool RawLoggingFullySupported() { return false; } }

string_view::size_type string_view::find(char c, size_type pos) const noexcept { for (size_type i = pos; i < size(); i++) if (data()[i] == c) return i; return npos; }
string_view::size_type string_view::find(string_view s, size_type pos) const noexcept {
  if (size() < s.size() || pos > size() - s.size()) return npos;
  for (size_type i = pos; i + s.size() <= size(); i++) if (s.empty() || memcmp(data() + i, s.data(), s.size()) == 0) return i;
  return npos;
}
string_view::size_type string_view::rfind(char c, size_type pos) const noexcept { if (empty()) return npos; for (size_type i = (pos < size() - 1 ? pos : size() - 1) + 1; i-- > 0;) if (data()[i] == c) return i; return npos; }
string_view::size_type string_view::rfind(string_view s, size_type pos) const noexcept {
  if (size() < s.size()) return npos; if (s.empty()) return size() < pos ? size() : pos;
  size_type m = size() - s.size(); if (pos < m) m = pos;
  for (size_type i = m + 1; i-- > 0;) if (memcmp(data() + i, s.data(), s.size()) == 0) return i;
  return npos;
}
static bool inSet(string_view s, char c) { for (size_t i = 0; i < s.size(); i++) if (s.data()[i] == c) return true; return false; }
string_view::size_type string_view::find_first_of(string_view s, size_type pos) const noexcept { for (size_type i = pos; i < size(); i++) if (inSet(s, data()[i])) return i; return npos; }
string_view::size_type string_view::find_first_not_of(string_view s, size_type pos) const noexcept { for (size_type i = pos; i < size(); i++) if (!inSet(s, data()[i])) return i; return npos; }
string_view::size_type string_view::find_first_not_of(char c, size_type pos) const noexcept { for (size_type i = pos; i < size(); i++) if (data()[i] != c) return i; return npos; }
string_view::size_type string_view::find_last_of(string_view s, size_type pos) const noexcept { if (empty()) return npos; for (size_type i = (pos < size() - 1 ? pos : size() - 1) + 1; i-- > 0;) if (inSet(s, data()[i])) return i; return npos; }
string_view::size_type string_view::find_last_not_of(string_view s, size_type pos) const noexcept { if (empty()) return npos; for (size_type i = (pos < size() - 1 ? pos : size() - 1) + 1; i-- > 0;) if (!inSet(s, data()[i])) return i; return npos; }
string_view::size_type string_view::find_last_not_of(char c, size_type pos) const noexcept { if (empty()) return npos; for (size_type i = (pos < size() - 1 ? pos : size() - 1) + 1; i-- > 0;) if (data()[i] != c) return i; return npos; }

string_view ByChar::Find(string_view text, size_t pos) const {
  size_t f = text.find(c_, pos);
  if (f == string_view::npos) return string_view(text.data() + text.size(), 0);
  return text.substr(f, 1);
}
ByString::ByString(string_view sp) : delimiter_(sp) {}
string_view ByString::Find(string_view text, size_t pos) const {
  if (delimiter_.empty() && text.length() > 0) return string_view(text.data() + pos + 1, 0);
  size_t f = text.find(delimiter_, pos);
  if (f == string_view::npos) return string_view(text.data() + text.size(), 0);
  return text.substr(f, delimiter_.length());
}
ByAnyChar::ByAnyChar(string_view sp) : delimiters_(sp) {}
string_view ByAnyChar::Find(string_view text, size_t pos) const {
  size_t f = text.find_first_of(delimiters_, pos);
  if (f == string_view::npos) return string_view(text.data() + text.size(), 0);
  return text.substr(f, 1);
}

std::string StrCat(const AlphaNum& a, const AlphaNum& b) { std::string r(a.data(), a.size()); r.append(b.data(), b.size()); return r; }
std::string StrCat(const AlphaNum& a, const AlphaNum& b, const AlphaNum& c) { std::string r(a.data(), a.size()); r.append(b.data(), b.size()); r.append(c.data(), c.size()); return r; }
std::string StrCat(const AlphaNum& a, const AlphaNum& b, const AlphaNum& c, const AlphaNum& d) { std::string r = StrCat(a, b, c); r.append(d.data(), d.size()); return r; }
void StrAppend(std::string* d, const AlphaNum& a) { d->append(a.data(), a.size()); }
void StrAppend(std::string* d, const AlphaNum& a, const AlphaNum& b) { d->append(a.data(), a.size()); d->append(b.data(), b.size()); }
void StrAppend(std::string* d, const AlphaNum& a, const AlphaNum& b, const AlphaNum& c) { StrAppend(d, a, b); d->append(c.data(), c.size()); }
void StrAppend(std::string* d, const AlphaNum& a, const AlphaNum& b, const AlphaNum& c, const AlphaNum& e) { StrAppend(d, a, b); StrAppend(d, c, e); }
namespace strings_internal {
std::string CatPieces(std::initializer_list<absl::string_view> p) { std::string r; for (auto s : p) r.append(s.data(), s.size()); return r; }
void AppendPieces(std::string* d, std::initializer_list<absl::string_view> p) { for (auto s : p) d->append(s.data(), s.size()); }
int memcasecmp(const char* a, const char* b, size_t n) { for (size_t i = 0; i < n; i++) { int d = int{(unsigned char)tolower((unsigned char)a[i])} - int{(unsigned char)tolower((unsigned char)b[i])}; if (d) return d; } return 0; }
}
bool EqualsIgnoreCase(string_view a, string_view b) noexcept { return a.size() == b.size() && strings_internal::memcasecmp(a.data(), b.data(), a.size()) == 0; }
bool StartsWithIgnoreCase(string_view t, string_view p) noexcept { return t.size() >= p.size() && EqualsIgnoreCase(t.substr(0, p.size()), p); }
bool EndsWithIgnoreCase(string_view t, string_view p) noexcept { return t.size() >= p.size() && EqualsIgnoreCase(t.substr(t.size() - p.size()), p); }
void AsciiStrToLower(std::string* s) { for (auto& c : *s) c = (char)tolower((unsigned char)c); }
void AsciiStrToUpper(std::string* s) { for (auto& c : *s) c = (char)toupper((unsigned char)c); }

namespace numbers_internal {
static char* putU(uint64_t v, char* b) { char t[24]; int n = 0; do { t[n++] = (char)('0' + v % 10); v /= 10; } while (v); while (n) *b++ = t[--n]; *b = 0; return b; }
char* FastIntToBuffer(int32_t i, char* b) { if (i < 0) { *b++ = '-'; return putU(0 - (uint64_t)(int64_t)i, b); } return putU((uint64_t)i, b); }
char* FastIntToBuffer(uint32_t i, char* b) { return putU(i, b); }
char* FastIntToBuffer(int64_t i, char* b) { if (i < 0) { *b++ = '-'; return putU(0 - (uint64_t)i, b); } return putU((uint64_t)i, b); }
char* FastIntToBuffer(uint64_t i, char* b) { return putU(i, b); }
}

namespace numbers_internal {
template <class I> static bool parseInt(absl::string_view t, I* out, int base) {
  t = StripAsciiWhitespace(t); bool neg = false; *out = 0;
  if (!t.empty() && (t[0] == '-' || t[0] == '+')) { neg = t[0] == '-'; t.remove_prefix(1); }
  if (neg && !std::is_signed<I>::value) return false;
  if (base == 16 && t.size() >= 2 && t[0] == '0' && (t[1] == 'x' || t[1] == 'X')) { t.remove_prefix(2); }
  else if (base != 10 && base != 16 && base != 8 && base != 2) abort();
  if (t.empty()) return false;
  uint64_t const mx = neg ? (uint64_t)std::numeric_limits<I>::max() + 1 : (uint64_t)std::numeric_limits<I>::max(); uint64_t v = 0;
  for (char c : t) {
    int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99;
    if (d >= base) { *out = (I)(neg ? 0 - v : v); return false; }
    if (v > (mx - (uint64_t)d) / (uint64_t)base) { *out = neg ? std::numeric_limits<I>::min() : std::numeric_limits<I>::max(); return false; }
    v = v * (uint64_t)base + (uint64_t)d;
  }
  *out = (I)(neg ? 0 - v : v); return true;
}
bool safe_strto32_base(absl::string_view t, int32_t* v, int b) { return parseInt(t, v, b); }
bool safe_strto64_base(absl::string_view t, int64_t* v, int b) { return parseInt(t, v, b); }
bool safe_strtou32_base(absl::string_view t, uint32_t* v, int b) { return parseInt(t, v, b); }
bool safe_strtou64_base(absl::string_view t, uint64_t* v, int b) { return parseInt(t, v, b); }
}
AlphaNum::AlphaNum(Hex hex) {
  char* e = digits_ + numbers_internal::kFastToBufferSize; char* w = e; uint64_t v = hex.value;
  do { *--w = "0123456789abcdef"[v & 15]; v >>= 4; } while (v);
  while (e - w < (long)hex.width) *--w = hex.fill;
  piece_ = absl::string_view(w, e - w);
}
AlphaNum::AlphaNum(Dec dec) {
  char* e = digits_ + numbers_internal::kFastToBufferSize; char* w = e; uint64_t v = dec.value; bool neg = dec.neg;
  do { *--w = (char)('0' + v % 10); v /= 10; } while (v);
  long n = (long)dec.width - (e - w) - (neg ? 1 : 0);
  if (neg && dec.fill != '0') *--w = '-';
  for (; n > 0; n--) *--w = dec.fill;
  if (neg && dec.fill == '0') *--w = '-';
  piece_ = absl::string_view(w, e - w);
}
static std::string replAll(absl::string_view s, std::initializer_list<std::pair<absl::string_view, absl::string_view>> r, int* cnt) {
  std::string o; size_t i = 0; *cnt = 0;
  while (i < s.size()) {
    const std::pair<absl::string_view, absl::string_view>* best = nullptr;
    for (auto& p : r) if (!p.first.empty() && s.size() - i >= p.first.size() && memcmp(s.data() + i, p.first.data(), p.first.size()) == 0 && (!best || p.first.size() > best->first.size())) best = &p;
    if (best) { o.append(best->second.data(), best->second.size()); i += best->first.size(); ++*cnt; } else o.push_back(s[i++]);
  }
  return o;
}
std::string StrReplaceAll(string_view s, std::initializer_list<std::pair<string_view, string_view>> r) { int n; return replAll(s, r, &n); }
int StrReplaceAll(std::initializer_list<std::pair<string_view, string_view>> r, std::string* t) { int n; *t = replAll(*t, r, &n); return n; }
std::string BytesToHexString(absl::string_view f) { std::string r; for (unsigned char c : f) { r.push_back("0123456789abcdef"[c >> 4]); r.push_back("0123456789abcdef"[c & 15]); } return r; }
static int hexv(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
std::string HexStringToBytes(absl::string_view f) { std::string r; for (size_t i = 0; i + 1 < f.size(); i += 2) r.push_back((char)(hexv(f[i]) * 16 + hexv(f[i + 1]))); return r; }
namespace ascii_internal {
const unsigned char kPropertyBits[256] = {64,64,64,64,64,64,64,64,64,104,72,72,72,72,64,64,64,64,64,64,64,64,64,64,64,64,64,64,64,64,64,64,40,16,16,16,16,16,16,16,16,16,16,16,16,16,16,16,132,132,132,132,132,132,132,132,132,132,16,16,16,16,16,16,16,133,133,133,133,133,133,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,16,16,16,16,16,16,133,133,133,133,133,133,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,16,16,16,16,64,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0};
const char kToUpper[256] = {(char)0,(char)1,(char)2,(char)3,(char)4,(char)5,(char)6,(char)7,(char)8,(char)9,(char)10,(char)11,(char)12,(char)13,(char)14,(char)15,(char)16,(char)17,(char)18,(char)19,(char)20,(char)21,(char)22,(char)23,(char)24,(char)25,(char)26,(char)27,(char)28,(char)29,(char)30,(char)31,(char)32,(char)33,(char)34,(char)35,(char)36,(char)37,(char)38,(char)39,(char)40,(char)41,(char)42,(char)43,(char)44,(char)45,(char)46,(char)47,(char)48,(char)49,(char)50,(char)51,(char)52,(char)53,(char)54,(char)55,(char)56,(char)57,(char)58,(char)59,(char)60,(char)61,(char)62,(char)63,(char)64,(char)65,(char)66,(char)67,(char)68,(char)69,(char)70,(char)71,(char)72,(char)73,(char)74,(char)75,(char)76,(char)77,(char)78,(char)79,(char)80,(char)81,(char)82,(char)83,(char)84,(char)85,(char)86,(char)87,(char)88,(char)89,(char)90,(char)91,(char)92,(char)93,(char)94,(char)95,(char)96,(char)65,(char)66,(char)67,(char)68,(char)69,(char)70,(char)71,(char)72,(char)73,(char)74,(char)75,(char)76,(char)77,(char)78,(char)79,(char)80,(char)81,(char)82,(char)83,(char)84,(char)85,(char)86,(char)87,(char)88,(char)89,(char)90,(char)123,(char)124,(char)125,(char)126,(char)127,(char)128,(char)129,(char)130,(char)131,(char)132,(char)133,(char)134,(char)135,(char)136,(char)137,(char)138,(char)139,(char)140,(char)141,(char)142,(char)143,(char)144,(char)145,(char)146,(char)147,(char)148,(char)149,(char)150,(char)151,(char)152,(char)153,(char)154,(char)155,(char)156,(char)157,(char)158,(char)159,(char)160,(char)161,(char)162,(char)163,(char)164,(char)165,(char)166,(char)167,(char)168,(char)169,(char)170,(char)171,(char)172,(char)173,(char)174,(char)175,(char)176,(char)177,(char)178,(char)179,(char)180,(char)181,(char)182,(char)183,(char)184,(char)185,(char)186,(char)187,(char)188,(char)189,(char)190,(char)191,(char)192,(char)193,(char)194,(char)195,(char)196,(char)197,(char)198,(char)199,(char)200,(char)201,(char)202,(char)203,(char)204,(char)205,(char)206,(char)207,(char)208,(char)209,(char)210,(char)211,(char)212,(char)213,(char)214,(char)215,(char)216,(char)217,(char)218,(char)219,(char)220,(char)221,(char)222,(char)223,(char)224,(char)225,(char)226,(char)227,(char)228,(char)229,(char)230,(char)231,(char)232,(char)233,(char)234,(char)235,(char)236,(char)237,(char)238,(char)239,(char)240,(char)241,(char)242,(char)243,(char)244,(char)245,(char)246,(char)247,(char)248,(char)249,(char)250,(char)251,(char)252,(char)253,(char)254,(char)255};
const char kToLower[256] = {(char)0,(char)1,(char)2,(char)3,(char)4,(char)5,(char)6,(char)7,(char)8,(char)9,(char)10,(char)11,(char)12,(char)13,(char)14,(char)15,(char)16,(char)17,(char)18,(char)19,(char)20,(char)21,(char)22,(char)23,(char)24,(char)25,(char)26,(char)27,(char)28,(char)29,(char)30,(char)31,(char)32,(char)33,(char)34,(char)35,(char)36,(char)37,(char)38,(char)39,(char)40,(char)41,(char)42,(char)43,(char)44,(char)45,(char)46,(char)47,(char)48,(char)49,(char)50,(char)51,(char)52,(char)53,(char)54,(char)55,(char)56,(char)57,(char)58,(char)59,(char)60,(char)61,(char)62,(char)63,(char)64,(char)97,(char)98,(char)99,(char)100,(char)101,(char)102,(char)103,(char)104,(char)105,(char)106,(char)107,(char)108,(char)109,(char)110,(char)111,(char)112,(char)113,(char)114,(char)115,(char)116,(char)117,(char)118,(char)119,(char)120,(char)121,(char)122,(char)91,(char)92,(char)93,(char)94,(char)95,(char)96,(char)97,(char)98,(char)99,(char)100,(char)101,(char)102,(char)103,(char)104,(char)105,(char)106,(char)107,(char)108,(char)109,(char)110,(char)111,(char)112,(char)113,(char)114,(char)115,(char)116,(char)117,(char)118,(char)119,(char)120,(char)121,(char)122,(char)123,(char)124,(char)125,(char)126,(char)127,(char)128,(char)129,(char)130,(char)131,(char)132,(char)133,(char)134,(char)135,(char)136,(char)137,(char)138,(char)139,(char)140,(char)141,(char)142,(char)143,(char)144,(char)145,(char)146,(char)147,(char)148,(char)149,(char)150,(char)151,(char)152,(char)153,(char)154,(char)155,(char)156,(char)157,(char)158,(char)159,(char)160,(char)161,(char)162,(char)163,(char)164,(char)165,(char)166,(char)167,(char)168,(char)169,(char)170,(char)171,(char)172,(char)173,(char)174,(char)175,(char)176,(char)177,(char)178,(char)179,(char)180,(char)181,(char)182,(char)183,(char)184,(char)185,(char)186,(char)187,(char)188,(char)189,(char)190,(char)191,(char)192,(char)193,(char)194,(char)195,(char)196,(char)197,(char)198,(char)199,(char)200,(char)201,(char)202,(char)203,(char)204,(char)205,(char)206,(char)207,(char)208,(char)209,(char)210,(char)211,(char)212,(char)213,(char)214,(char)215,(char)216,(char)217,(char)218,(char)219,(char)220,(char)221,(char)222,(char)223,(char)224,(char)225,(char)226,(char)227,(char)228,(char)229,(char)230,(char)231,(char)232,(char)233,(char)234,(char)235,(char)236,(char)237,(char)238,(char)239,(char)240,(char)241,(char)242,(char)243,(char)244,(char)245,(char)246,(char)247,(char)248,(char)249,(char)250,(char)251,(char)252,(char)253,(char)254,(char)255};
}

// absl::Status: pointer to a counted representation, as in the real library.
namespace status_internal_models {}
Status::Status(absl::StatusCode code, absl::string_view msg) : rep_(CodeToInlinedRep(code)) {
  if (code != absl::StatusCode::kOk && !msg.empty()) rep_ = PointerToRep(new status_internal::StatusRep(code, msg, nullptr));
}
void Status::UnrefNonInlined(uintptr_t rep) {
  status_internal::StatusRep* r = RepToPointer(rep);
  int32_t n = r->ref.load(std::memory_order_acquire);
  if (n == 1 || r->ref.fetch_sub(1, std::memory_order_acq_rel) - 1 == 0) delete r;
}
int Status::raw_code() const { if (IsInlined(rep_)) return static_cast<int>(InlinedRepToCode(rep_)); return static_cast<int>(RepToPointer(rep_)->code); }
absl::StatusCode Status::code() const { int c = raw_code(); return c >= 0 && c <= 16 ? static_cast<StatusCode>(c) : StatusCode::kUnknown; }
const std::string* Status::EmptyString() { static std::string* e = new std::string(); return e; }
const std::string* Status::MovedFromString() { static std::string* e = new std::string("moved"); return e; }
std::string Status::ToStringSlow(StatusToStringMode) const {
  static const char* const n[] = {"OK", "CANCELLED", "UNKNOWN", "INVALID_ARGUMENT", "DEADLINE_EXCEEDED", "NOT_FOUND", "ALREADY_EXISTS", "PERMISSION_DENIED", "RESOURCE_EXHAUSTED", "FAILED_PRECONDITION", "ABORTED", "OUT_OF_RANGE", "UNIMPLEMENTED", "INTERNAL", "UNAVAILABLE", "DATA_LOSS", "UNAUTHENTICATED"};
  std::string r = n[(int)code()]; r += ": "; r.append(message().data(), message().size()); return r;
}
bool Status::EqualsSlow(const absl::Status& a, const absl::Status& b) { return a.code() == b.code() && a.message() == b.message(); }
#define ERR(n) Status n##Error(string_view m) { return Status(StatusCode::k##n, m); } bool Is##n(const Status& s) { return s.code() == StatusCode::k##n; }
ERR(Aborted) ERR(AlreadyExists) ERR(Cancelled) ERR(DataLoss) ERR(DeadlineExceeded) ERR(FailedPrecondition) ERR(Internal) ERR(InvalidArgument) ERR(NotFound) ERR(OutOfRange) ERR(PermissionDenied) ERR(ResourceExhausted) ERR(Unauthenticated) ERR(Unavailable) ERR(Unimplemented) ERR(Unknown)
#undef ERR
namespace internal_statusor {
void Helper::HandleInvalidStatusCtorArg(absl::Status*) { abort(); }   // real: logs and crashes (DFATAL)
void Helper::Crash(const absl::Status&) { abort(); }
void ThrowBadStatusOrAccess(absl::Status) { abort(); }                // real: throws BadStatusOrAccess
}
ABSL_NAMESPACE_END
}  // namespace absl

namespace google { namespace protobuf { namespace io {
LimitingInputStream::LimitingInputStream(ZeroCopyInputStream* input, int64_t limit) : input_(input), limit_(limit) { prior_bytes_read_ = input_->ByteCount(); }
LimitingInputStream::~LimitingInputStream() { if (limit_ < 0) input_->BackUp(static_cast<int>(-limit_)); }
bool LimitingInputStream::Next(const void** data, int* size) {
  if (limit_ <= 0) return false;
  if (!input_->Next(data, size)) return false;
  limit_ -= *size;
  if (limit_ < 0) *size += static_cast<int>(limit_);
  return true;
}
void LimitingInputStream::BackUp(int count) { if (limit_ < 0) { input_->BackUp(static_cast<int>(count - limit_)); limit_ = count; } else { input_->BackUp(count); limit_ += count; } }
bool LimitingInputStream::Skip(int count) {
  if (count > limit_) { if (limit_ < 0) return false; input_->Skip(static_cast<int>(limit_)); limit_ = 0; return false; }
  if (!input_->Skip(count)) return false; limit_ -= count; return true;
}
int64_t LimitingInputStream::ByteCount() const { return limit_ < 0 ? input_->ByteCount() + limit_ - prior_bytes_read_ : input_->ByteCount() - prior_bytes_read_; }
StringOutputStream::StringOutputStream(std::string* target) : target_(target) {}
bool StringOutputStream::Next(void** data, int* size) {
  size_t old = target_->size(), n = old < target_->capacity() ? target_->capacity() : old * 2;
  target_->resize(n < 16 ? 16 : n); *data = &(*target_)[0] + old; *size = (int)(target_->size() - old); return true;
}
void StringOutputStream::BackUp(int count) { target_->resize(target_->size() - count); }
int64_t StringOutputStream::ByteCount() const { return target_->size(); }
}}}
