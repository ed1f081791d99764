// C19: ResponseToJsonTranslator over frames that arrive in pieces; the JSON conversion itself is a stand-in
#include "common.h"
#include "google/protobuf/util/json_util.h"
#include "grpc_transcoding/response_to_json_translator.h"
using namespace google::grpc::transcoding;
namespace pb = google::protobuf; namespace pbio = google::protobuf::io;
struct Src : TranscoderInputStream {
  std::string data; int64_t arrived = 0, pos = 0, last = 0, cut = 0; bool ended = false;
  bool Next(const void** d, int* size) override {
    if (pos >= arrived) { *size = 0; last = 0; return !(ended && arrived == (int64_t)data.size()); }
    int64_t e = arrived; if (cut > pos && cut < e) e = cut; *d = data.data() + pos; *size = (int)(e - pos); last = e - pos; pos = e; return true;
  }
  void BackUp(int n) override { CHECK(n >= 0 && n <= last, "illegal BackUp on the input"); pos -= n; last = 0; }
  bool Skip(int) override { return false; }
  int64_t ByteCount() const override { return 0; }
  int64_t BytesAvailable() const override { return arrived - pos; }
  bool Finished() const override { return ended && arrived == (int64_t)data.size(); }
};
struct NoTypes : pb::util::TypeResolver {
  absl::Status ResolveMessageType(const std::string&, pb::Type*) override { return absl::Status(absl::StatusCode::kNotFound, "none"); }
  absl::Status ResolveEnumType(const std::string&, pb::Enum*) override { return absl::Status(absl::StatusCode::kNotFound, "none"); }
};
static NoTypes* gTypes; static JsonResponseTranslateOptions* gOpt; static int gConversions; static uint64_t gFails, gEmpty; static int gFailAt;
static bool failsAt(int i) { return i < 60 ? gFails >> i & 1 : i == gFailAt; } static bool emptyAt(int i) { return i < 60 ? gEmpty >> i & 1 : i % 9 == 0; }
// the conversion: '{' payload '}' in two pieces, or nothing at all for the messages chosen by gEmpty; fails for those chosen by gFails, after writing something
namespace google { namespace protobuf { namespace util {
absl::Status BinaryToJsonStream(TypeResolver* r, const std::string& url, io::ZeroCopyInputStream* in, io::ZeroCopyOutputStream* out, const JsonPrintOptions& o) {
  CHECK(r == gTypes && url == "type.googleapis.com/T", "another type is converted");
  auto& w = gOpt->json_print_options; CHECK((o.add_whitespace == w.add_whitespace) & (o.always_print_primitive_fields == w.always_print_primitive_fields) & (o.always_print_enums_as_ints == w.always_print_enums_as_ints) & (o.preserve_proto_field_names == w.preserve_proto_field_names), "the print options are not those given");
  std::string p = "{"; const void* d; int n; int guard = 0; while (in->Next(&d, &n)) { if (++guard > 40000) symx_fail("the message does not end"); if (n) p.append((const char*)d, n); } p += '}';
  bool none = emptyAt(gConversions); bool fails = failsAt(gConversions++); if (fails) p = "{"; if (none) p = "";
  size_t at = 0; void* b; while (at < p.size()) { if (!out->Next(&b, &n)) symx_fail("no room for the text"); size_t k = p.size() - at; if (k > (size_t)n) k = n; if (at == 0 && k > 1) k = 1; memcpy(b, p.data() + at, k); out->BackUp(n - (int)k); at += k; }
  return fails ? absl::Status(absl::StatusCode::kDataLoss, "cannot be converted") : absl::OkStatus();
}
}}}
enum Tail { NONE, HDR, PAY, FLAG };
static const size_t kBigLen[] = {0, 3, 300, 1, 70, 0, 12};
static unsigned baseJobs(int tier) { return 3 * (tier ? 5 : 4) * 4; }
static void run(unsigned mode, unsigned nf, Tail tail, bool big) {
  int tier = symx_tier(); bool streaming = mode != 0, newline = mode == 2;
  JsonResponseTranslateOptions opt; opt.stream_newline_delimited = newline || (!streaming && symx_range("newline", 0, 1));
  uint64_t pr = symx_int("print", 4); opt.json_print_options.add_whitespace = pr & 1; opt.json_print_options.always_print_primitive_fields = pr >> 1 & 1; opt.json_print_options.always_print_enums_as_ints = pr >> 2 & 1; opt.json_print_options.preserve_proto_field_names = pr >> 3 & 1;
  NoTypes types; gTypes = &types; gOpt = &opt; gConversions = 0;
  gFails = 0; gFailAt = -1; if (big) gFailAt = symx_range("fails", nf - 3, nf); if (big && gFailAt < 60) gFails = (uint64_t)1 << gFailAt; if (!big && nf) gFails = symx_int("fails", nf);   // which messages cannot be converted
  gEmpty = !nf ? 0 : big ? 0x1248 * symx_range("empty", 0, 1) : symx_int("empty", nf);   // which messages convert to nothing
  Src src; std::vector<std::string> pay; std::vector<size_t> ends;
  for (unsigned i = 0; i < nf; i++) {
    size_t len = big ? nf > 40 ? i == 4 ? 70000 : i : kBigLen[i % 7] : symx_range("len", 0, nf == 1 ? 2 : 1); std::string p = big ? std::string(len, (char)('a' + i)) : symStr(len, "payload"); if (big && len == 3) p[2] = symStr(1, "payload")[0]; src.data += '\0'; for (int k = 3; k >= 0; k--) src.data += (char)(len >> 8 * k);
    src.data += p; pay.push_back(p); ends.push_back(src.data.size()); }
  size_t tailOff = src.data.size();
  if (tail == HDR) src.data += std::string("\0\0\0", symx_range("have", 1, 3)); else if (tail == PAY) src.data += std::string("\0\0\0\0\3ab", 7); else if (tail == FLAG) src.data += std::string("\1\0\0\0\0", 5);
  size_t total = src.data.size(); src.cut = big ? 7 : symx_range("cut", 0, nf > 2 ? 0 : total);
  bool late = symx_range("late", 0, 1); int stops = nf > 2 ? 1 : 2 - (int)(nf > 1); if (tier) stops++;
  ResponseToJsonTranslator t(&types, "type.googleapis.com/T", streaming, &src, opt);
  std::string text, want; size_t got = 0; bool closed = false, failed = false; 
  for (int st = 0;; st++) {
    bool last = st >= stops; src.arrived = last ? total : big ? (int64_t)(ends[symx_range("arrive", 0, 3) * (nf - 1) / 3] - symx_range("less", 0, 1)) : symx_range("arrive", src.arrived, total); if (src.arrived == (int64_t)total) { if (late) { late = false; stops = st + 1; } else { src.ended = true; } }
    for (int poll = 0, guard = 0; poll < 2;) {
      if (++guard > (big ? 600 : 60)) symx_fail("messages without end");
      bool wasFinished = t.Finished(); std::string m = "stale"; bool r = t.NextMessage(&m);
      if (wasFinished) CHECK(!r, "a message after the end");
      if (r) {
        text += m; symx_cover("piece"); CHECK(t.Status().ok(), "a message together with an error");
        bool complete = got < nf && ends[got] <= (size_t)src.arrived;
        if (complete && !closed && !failed && !failsAt(got)) { want += (streaming && !newline ? (got ? "," : "[") : "") + (emptyAt(got) ? std::string() : "{" + pay[got] + "}") + (newline ? "\n" : ""); got++; }
        else if (m.empty()) { CHECK(newline && got == nf, "an empty piece"); poll++; continue; }   // nothing to add at the end of a newline-delimited stream
        else { CHECK(streaming && !newline && got == nf && tail == NONE && src.Finished() && !closed && !failed, "a piece that no message accounts for"); want += nf ? "]" : "[]"; closed = true; symx_cover("closed"); }
        CHECK(strEq(text, want), "the text is not that of the messages so far"); 
        if (!streaming) { CHECK(t.Finished(), "a non-streaming response is not finished after its message"); closed = true; }
        poll = 0; continue;
      }
      // nothing: why?
      obsStr("text", text); symx_obs("status", (uint64_t)t.Status().code()); symx_obs("finished", t.Finished());
      bool one = !streaming && got == 1;
      bool ready = got < nf && ends[got] <= (size_t)src.arrived && !one;
      bool badMsg = ready && failsAt(got);
      size_t avail = src.arrived - (int64_t)tailOff; bool badFrame = !one && got == nf && ((tail == FLAG && src.arrived >= (int64_t)tailOff + 5) || ((tail == HDR || tail == PAY) && src.Finished())); (void)avail;
      if (badMsg || badFrame) { symx_cover(badMsg ? "conversion error" : "bad frame"); failed = true; CHECK(!t.Status().ok(), "an error is not reported"); if (badMsg) CHECK(t.Status().code() == absl::StatusCode::kDataLoss, "the status of the conversion is lost"); CHECK(t.Finished(), "not finished after an error"); }
      else {
        CHECK(t.Status().ok(), "an error for a good stream"); CHECK(!ready, "a complete message is not returned");
        bool atEnd = one || (streaming && got == nf && tail == NONE && src.Finished());
        if (streaming || nf) CHECK(t.Finished() == atEnd, "finished is reported wrongly"); if (atEnd) { CHECK(closed || newline, "finished before the final bracket"); symx_cover("end"); }
      }
      poll++;
    }
    if (src.ended) break;
  }
  CHECK(failed || tail != NONE || got == (streaming || !nf ? nf : 1), "not all messages were translated");
}
static void baseMain(unsigned job) { unsigned k = symx_tier() ? 5 : 4; run(job % 3, job / 3 % k, (Tail)(job / 3 / k), false); }
// ---- large inputs: concrete skeletons with a symbolic byte
enum { NSCALE = 3 * 3 };
static void scaleMain(unsigned job) { run(job % 3, job / 3 == 2 ? 140 : 16, job / 3 == 1 ? FLAG : NONE, true); }
unsigned symx_jobs(int tier) { return baseJobs(tier) + NSCALE; }
void symx_main(unsigned job) { if (job < NSCALE) scaleMain(job); else baseMain(job - NSCALE); }
