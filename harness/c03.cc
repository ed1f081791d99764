#include "symx.h"
#include <string>
#include "grpc_transcoding/percent_encoding.h"
using namespace google::grpc::transcoding;
// Reference decoder written from the property text: classification by bit tables.
static bool hexd(unsigned char c, unsigned& v) {
  if (c >= '0' && c <= '9') { v = c - '0'; return true; }
  if (c >= 'a' && c <= 'f') { v = c - 'a' + 10; return true; }
  if (c >= 'A' && c <= 'F') { v = c - 'A' + 10; return true; }
  return false;
}
static bool reserved(unsigned char c) { for (const char* p = "!#$&'()*+,/:;=?@[]"; *p; ++p) if ((unsigned char)*p == c) return true; return false; }
struct Ref { unsigned char out[6144]; size_t n = 0; bool escaped = false; };
static void refDecode(const unsigned char* s, size_t n, int mode, bool plus, Ref& r) {
  for (size_t i = 0; i < n;) {
    unsigned h, l;
    if (s[i] == '+' && plus) { r.out[r.n++] = ' '; r.escaped = true; i++; continue; }
    if (s[i] == '%' && i + 2 < n && hexd(s[i + 1], h) && hexd(s[i + 2], l)) {
      unsigned char c = (unsigned char)(h * 16 + l);
      bool keep = mode == 0 ? reserved(c) : mode == 1 ? c == '/' : false;
      if (!keep) { r.out[r.n++] = c; r.escaped = true; i += 3; continue; }
    }
    r.out[r.n++] = s[i++];
  }
}
static unsigned maxlen(int tier) { return tier ? 7 : 5; }
static unsigned baseJobs(int tier) { return (maxlen(tier) + 1) * 6; }
static void decodeOne(const unsigned char* b, unsigned len, int mode, bool plus);
static void baseMain(unsigned job) {
  unsigned len = maxlen(symx_tier()) - job / 6; int mode = job % 3; bool plus = (job / 3) % 2;
  unsigned char* b = new unsigned char[len];   // exactly as long as the text
  if (len) symx_bytes(b, len, "text");
  decodeOne(b, len, mode, plus);
}
static void decodeOne(const unsigned char* b, unsigned len, int mode, bool plus) {
  absl::string_view sv((const char*)b, len);
  bool esc = IsUrlEscapedString(sv, (UrlUnescapeSpec)mode, plus);
  std::string got = UrlUnescapeString(sv, (UrlUnescapeSpec)mode, plus);
  symx_obs("esc", esc); symx_obs_bytes("out", got.data(), got.size());
  Ref r; refDecode(b, len, mode, plus, r);
  symx_assert(got.size() == r.n, "decoded length");
  for (size_t i = 0; i < r.n; i++) symx_assert((unsigned char)got[i] == r.out[i], "decoded byte");
  symx_assert(esc == r.escaped, "IsUrlEscapedString");
  if (mode == 2 && !plus) {   // the forms without options
    std::string dflt = UrlUnescapeString(sv); symx_assert(dflt.size() == r.n, "decoded length, default options"); for (size_t i = 0; i < r.n; i++) symx_assert((unsigned char)dflt[i] == r.out[i], "decoded byte, default options");
    symx_assert(IsUrlEscapedString(sv) == r.escaped, "IsUrlEscapedString, default options");
  }
}
// ---- large inputs: concrete skeletons with a symbolic byte
enum { NSCALE = 7 * 6 };
static void scaleMain(unsigned job) {
  int mode = job % 3; bool plus = job / 3 % 2; std::string s; job /= 6;
  switch (job) {
    case 0: s = "abc%41%2F+%2f%25%7E-x%zz%4"; break;
    case 1: for (int i = 0; i < 30; i++) s += i % 3 ? "%41" : "%2F"; break;
    case 2: for (int i = 0; i < 20; i++) s += "%25"; s += "41"; break;
    case 3: s = std::string(270, 'a') + "%41" + std::string(40, 'b'); break;
    case 4: s = std::string(20, '%') + "41" + std::string(20, '+') + "%C3%bc%20"; break;
    case 5: for (int i = 0; i < 1100; i++) s += i % 7 ? i % 5 ? "abcde" : "+%4" : "%41"; break;
    default: for (int i = 0; i < 150; i++) s += "%e4"; s += "%00z"; break;
  }
  unsigned k = symx_range("pos", 0, 19); size_t pos = s.size() < 20 ? k : k < 8 ? k : k < 12 ? s.size() * (k - 7) / 5 : s.size() - (k - 12);
  if (s.size() > 1000 && k % 3 != 1) symx_stop(); unsigned w = symx_range("window", 1, s.size() > 1000 ? 1 : 3); bool ins = w == 1 ? symx_range("insert", 0, 1) : w == 2; if (pos + (ins ? 0 : w) > s.size()) symx_stop();
  std::string t = s.substr(0, pos); size_t n = s.size() + (ins ? w : 0); unsigned char* b = new unsigned char[n]; memcpy(b, s.data(), pos); memcpy(b + pos + w, s.data() + pos + (ins ? 0 : w), n - pos - w); symx_bytes(b + pos, w, "win");
  decodeOne(b, n, mode, plus);
}
unsigned symx_jobs(int tier) { return baseJobs(tier) + NSCALE; }
void symx_main(unsigned job) { if (job < NSCALE) scaleMain(job); else baseMain(job - NSCALE); }
