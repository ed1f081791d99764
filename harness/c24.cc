// C24: JsonRequestTranslator: pumping of the input; the JSON parser is a stand-in with one event per byte
#include "convref.h"
#include "google/protobuf/util/converter/json_stream_parser.h"
#include "google/protobuf/util/converter/protostream_objectwriter.h"
#include "grpc_transcoding/json_request_translator.h"
using namespace google::grpc::transcoding;
namespace pb = google::protobuf; namespace pbio = google::protobuf::io;
namespace google { namespace protobuf { namespace util { namespace converter {
bool ConvHook::integer(absl::string_view, bool*, uint64_t*) { return false; }
bool ConvHook::real(absl::string_view, double*) { return false; }
bool ConvHook::boolean(absl::string_view, bool*) { return false; }
}}}}
struct NoTypes : pb::util::TypeResolver {
  absl::Status ResolveMessageType(const std::string&, pb::Type*) override { return absl::Status(absl::StatusCode::kNotFound, "none"); }
  absl::Status ResolveEnumType(const std::string&, pb::Enum*) override { return absl::Status(absl::StatusCode::kNotFound, "none"); }
};
// '[' ']' '{' '}' nest, '1' is a scalar, '!' an unacceptable scalar, 'E' a syntax error, everything else is white space
struct Grammar {
  std::string stack; bool done = false;
  bool feed(pbc::ObjectWriter* w, char c) {
    const char* name = !stack.empty() && stack.back() == '{' ? "x" : "";
    switch (c) {
      case '[': case '{': if (done) return false; stack += c; if (c == '{') w->StartObject(name); else w->StartList(name); return true;
      case ']': case '}': if (stack.empty() || stack.back() != (c == ']' ? '[' : '{')) return false; stack.pop_back(); if (c == '}') w->EndObject(); else w->EndList(); done = stack.empty(); return true;
      case '1': if (done) return false; w->RenderString(name, "1"); done = stack.empty(); return true;
      case '!': if (done) return false; w->RenderString(stack.empty() || stack.back() == '[' ? name : "bad", "!"); done = stack.empty(); return true;
      case 'E': return false;
      default: return true;
    }
  }
};
static Grammar gG; static std::string gParsed; static int gParses, gFinishes; static absl::StatusCode gParseCode;
namespace google { namespace protobuf { namespace util { namespace converter {
absl::Status JsonStreamParser::Parse(absl::string_view json) {
  gParses++; gParsed.append(json.data(), json.size());
  for (char c : json) if (!gG.feed(ow_, c)) { gParseCode = absl::StatusCode::kDataLoss; return absl::Status(absl::StatusCode::kDataLoss, "syntax"); }
  return absl::OkStatus();
}
absl::Status JsonStreamParser::FinishParse() { gFinishes++; if (!gG.done) { gParseCode = absl::StatusCode::kOutOfRange; return absl::Status(absl::StatusCode::kOutOfRange, "unfinished"); } return absl::OkStatus(); }
}}}}
struct Src : pbio::ZeroCopyInputStream {
  std::string data; size_t pos = 0, limit = 0; int cuts = 0; size_t chunk = 0; bool ended = false; int reads = 0; bool pending = false, closed = false; std::string given;
  bool Next(const void** d, int* size) override {
    reads++; CHECK(!pending, "input is read although a translated message is available"); CHECK(!closed, "input is read after the end of the stream");
    size_t e = limit; if (chunk && e > pos + chunk) e = pos + chunk; if (cuts > 0 && limit > pos + 1) { e = symx_range("upto", pos + 1, limit); if (e < limit) cuts--; }
    if (e > pos) { *d = data.data() + pos; *size = (int)(e - pos); given.append(data, pos, e - pos); pos = e; return true; }
    *d = nullptr; *size = 0; return !(ended && limit == data.size());
  }
  void BackUp(int n) override { if (n) symx_fail("input is handed back"); }
  bool Skip(int) override { return false; }
  int64_t ByteCount() const override { return pos; }
};
static unsigned baseJobs(int tier) { return 2 * 2 * (tier ? 7 : 6) * 2; }
static void run(bool streaming, bool delim, bool lateEnd, const std::string& text, size_t chunk) {
  int tier = symx_tier(); size_t len = text.size(); NoTypes types; pb::Type type;
  RequestInfo info; info.message_type = &type; info.body_field_path = streaming ? "p" : "";
  Src src; src.data = text; src.chunk = chunk;
  gG = Grammar(); gParsed = ""; gParses = gFinishes = 0; gParseCode = absl::StatusCode::kOk;
  // chunks and arrival
  src.cuts = chunk ? 0 : tier ? 3 : 2;
  JsonRequestTranslator tr(&types, &src, info, streaming, delim); MessageStream& out = tr.Output();
  // reference: the same text given to a translator of its own, chunk by chunk as handed to the parser
  std::unique_ptr<RequestStreamTranslator> rs; std::unique_ptr<RequestMessageTranslator> rm; pbc::ObjectWriter* rw; MessageStream* rms;
  if (streaming) { rs.reset(new RequestStreamTranslator(types, delim, info)); rw = rs.get(); rms = rs.get(); } else { rm.reset(new RequestMessageTranslator(types, delim, info)); rw = &rm->Input(); rms = rm.get(); }
  Grammar rg; size_t fed = 0; absl::StatusCode wantCode = absl::StatusCode::kOk; std::vector<std::string> want; size_t got = 0; bool emptied = false;
  unsigned stops = tier ? 2 : 1; bool noEnd = lateEnd;
  for (unsigned st = 0;; st++) {
    bool last = st >= stops; src.limit = last ? len : chunk ? len / 2 * symx_range("arrive", 0, 2) : symx_range("arrive", src.limit, len); if (src.limit == len) { if (noEnd) { noEnd = false; stops = st + 1; } else src.ended = true; }
    for (int poll = 0, guard = 0; poll < 2;) {
      if (++guard > 400) symx_fail("messages without end");
      bool wasFinished = out.Finished(); int reads0 = src.reads; bool failedBefore = wantCode != absl::StatusCode::kOk; size_t pos0 = src.pos;
      src.pending = got < want.size(); src.closed = failedBefore || wasFinished;
      std::string m; bool r = out.NextMessage(&m);
      CHECK(gParsed == src.given || (len == 0 && gParsed == "{}"), "the parser was not given exactly the input that was read");
      std::string now = gParsed.substr(fed); fed = gParsed.size();
      for (char c : now) if (wantCode == absl::StatusCode::kOk) {
        if (!rg.feed(rw, c)) wantCode = absl::StatusCode::kDataLoss;
        std::string x; while (rms->NextMessage(&x)) { want.push_back(x); x = ""; }
      }
      if (wantCode == absl::StatusCode::kOk && !rms->Status().ok()) wantCode = rms->Status().code();
      if (wantCode == absl::StatusCode::kOk && gFinishes && !rg.done && len) wantCode = absl::StatusCode::kOutOfRange;
      if (gFinishes) CHECK(src.ended && src.pos == len && len, "the parser is finished although more input may come");
      if (len == 0 && gParsed == "{}") { CHECK(src.ended, "an empty request is assumed before the input ended"); emptied = true; symx_cover("empty input"); }
      symx_obs("r", r); symx_obs("status", (uint64_t)out.Status().code()); symx_obs("finished", out.Finished());
      if (r) {
        CHECK(got < want.size(), "a message that the input does not account for"); obsStr("m", m); CHECK(strEq(m, want[got]), "a message is changed or out of order"); got++; symx_cover("message"); poll = 0;
        if (!failedBefore && wantCode == absl::StatusCode::kOk) CHECK(out.Status().ok(), "an error together with a message of good input");
        continue;
      }
      bool failed = wantCode != absl::StatusCode::kOk;
      CHECK(out.Status().code() == wantCode, failed ? "an error is not reported with its status" : "an error for good input");
      if (failed) { CHECK(out.Finished(), "not finished after an error"); symx_cover(wantCode == absl::StatusCode::kInvalidArgument ? "translation error" : "parse error"); }
      else {
        CHECK(got == want.size(), "a translated message is held back");
        bool complete = rms->Finished(); CHECK(out.Finished() == complete, "finished is reported wrongly");
        if (!complete) { CHECK(src.pos == src.limit, "available input is not read"); CHECK(!(src.ended && src.pos == len), "the end of the input is not handled"); symx_cover("waiting"); if (poll) CHECK(src.pos == pos0, "polling again consumes input"); } else symx_cover("end");
      }
      (void)reads0; poll++;
      if (failed && poll == 2) return;
    }
    if (src.ended) break;
  }
  if (len == 0) CHECK(emptied, "a completely empty input is not taken for {}");
}
static void baseMain(unsigned job) {
  bool delim = job / 2 % 2; size_t len = job / 8; if (delim && len != 3 && !symx_tier()) symx_stop();
  run(job % 2, delim, job / 4 % 2, symStr(len, "json"), 0);
}
// ---- large inputs: concrete skeletons with a symbolic byte
enum { NSCALE = 6 };
static void scaleMain(unsigned job) {
  bool streaming = job % 2; std::string s = streaming ? "[" : ""; size_t n = streaming ? 140 : 1;
  for (size_t i = 0; i < n; i++) { if (job < 2 || job >= 4) s += i % 3 == 2 ? "{{1}1[1]}" : "{1} "; else { for (int k = 0; k < 40; k++) s += "{["[k % 2]; s += "1"; for (int k = 40; k-- > 0;) s += "}]"[k % 2]; if (!streaming) break; i += 6; } }
  if (streaming) s += "]"; s += "   ";
  if (job >= 4) {   // large chunks
    size_t at = s.size() / 2; while (at < s.size() && s[at] != ']' && s[at] != '}') at++; s.insert(at, 70000, ' '); s[symx_range("pos", 0, 1) ? at + 69990 : at - 1] = symStr(1, "json")[0]; static const size_t ch[] = {100000, 65537, 4096}; run(streaming, job & 1, false, s, ch[symx_range("chunk", 0, 2)]); return;
  }
  unsigned k = symx_range("pos", 0, 11); size_t pos = k < 4 ? k : k < 8 ? s.size() * (k - 3) / 5 : s.size() < 12 ? 4 + k - 8 : s.size() - (12 - k); if (pos >= s.size()) symx_stop();
  s[pos] = symStr(1, "json")[0]; static const size_t ch[] = {1, 3, 1000}; run(streaming, job & 1, symx_range("late", 0, 1), s, ch[symx_range("chunk", 0, 2)]);
}
unsigned symx_jobs(int tier) { return baseJobs(tier) + NSCALE; }
void symx_main(unsigned job) { if (job < NSCALE) scaleMain(job); else baseMain(job - NSCALE); }
