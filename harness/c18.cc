// C18: request message translator -> frame reader
#include "convref.h"
#include "google/protobuf/util/converter/protostream_objectwriter.h"
#include "grpc_transcoding/message_reader.h"
#include "grpc_transcoding/request_message_translator.h"
using namespace google::grpc::transcoding;
namespace pb = google::protobuf; namespace pbio = google::protobuf::io;
namespace google { namespace protobuf { namespace util { namespace converter {
bool ConvHook::integer(absl::string_view, bool*, uint64_t*) { return false; }
bool ConvHook::real(absl::string_view, double*) { return false; }
bool ConvHook::boolean(absl::string_view, bool*) { return false; }
}}}}
struct NoTypes : pb::util::TypeResolver {
  absl::Status ResolveMessageType(const std::string&, pb::Type*) override { return absl::Status(absl::StatusCode::kNotFound, "none"); }
  absl::Status ResolveEnumType(const std::string&, pb::Enum*) override { return absl::Status(absl::StatusCode::kNotFound, "none"); }
};
// what the proto writer emits for the current message, and in how many pieces
static std::string gPayload; static size_t gSplit; static uint64_t gFake; static bool gUseFake;
static void emitPayload(pb::strings::ByteSink* out, const std::string&) {
  out->Append(gPayload.data(), gSplit); out->Append(gPayload.data() + gSplit, gPayload.size() - gSplit);
  if (gUseFake) {   // a message of any size: only its size and its first bytes exist
    std::string* d = static_cast<pb::strings::StringByteSink*>(out)->dest(); d->reserve(64); ((uint64_t*)d)[1] = gFake;
  }
}
struct Src : TranscoderInputStream {
  std::string data; size_t pos = 0, last = 0; size_t cut = 0;
  bool Next(const void** d, int* size) override { if (pos >= data.size()) { *size = 0; last = 0; return false; } size_t e = pos < cut && cut < data.size() ? cut : data.size(); *d = data.data() + pos; *size = (int)(e - pos); last = e - pos; pos = e; return true; }
  void BackUp(int n) override { CHECK(n >= 0 && (size_t)n <= last, "illegal BackUp"); pos -= n; last = 0; }
  bool Skip(int) override { return false; }
  int64_t ByteCount() const override { return 0; }
  int64_t BytesAvailable() const override { return data.size() - pos; }
  bool Finished() const override { return pos == data.size(); }
};
static std::string drain(pbio::ZeroCopyInputStream* s) { std::string o; const void* d; int n; int guard = 0; while (s->Next(&d, &n)) { if (++guard > 64) symx_fail("the message stream does not end"); if (n) o.append((const char*)d, n); } return o; }
static RequestInfo info(const pb::Type* t, const pb::Field* f, unsigned pipe) {
  RequestInfo i; i.message_type = t; i.reject_binding_body_field_collisions = false; i.case_insensitive_enum_parsing = false;
  i.body_field_path = pipe == 0 ? "" : pipe == 1 ? "*" : "a.b"; if (pipe == 3) { RequestWeaver::BindingInfo b; b.field_path.push_back(f); b.value = "v"; i.variable_bindings.push_back(b); }
  return i;
}
static const size_t kSizes[] = {127, 128, 129, 255, 256, 257, 1023, 1024, 4096, 8192, 16384, 32768, 65535, 65536, 65541, 0xffffff, 0x1000000, 0x1000100};
unsigned symx_jobs(int tier) { return 3 + 1 + (tier ? 18 : 15); }
void symx_main(unsigned job) {
  int tier = symx_tier(); NoTypes types; pb::Type type; pb::Field f; f.set_name("f"); f.set_cardinality(pb::Field::CARDINALITY_OPTIONAL);
  pbc::ProtoStreamObjectWriter::emit() = emitPayload; gUseFake = false;
  if (job == 0) {   // every size up to 2^32-1
    uint64_t size = symx_int("size", 32); symx_assume(size >= 16); bool delim = symx_range("delim", 0, 1); gPayload = std::string(16, 'p'); gSplit = 16; gUseFake = true; gFake = size + (delim ? 5 : 0);
    symx_lenient();
    RequestMessageTranslator t(types, delim, info(&type, &f, 0)); t.Input().StartObject(""); t.Input().EndObject();
    std::string m; CHECK(t.NextMessage(&m), "a complete message is not returned");
    if (!delim) { CHECK(m.size() == size, "size without delimiter"); return; }
    CHECK(m.size() == size + 5, "size with delimiter");
    const unsigned char* h = (const unsigned char*)m.data(); CHECK(h[0] == 0, "first header byte"); 
    CHECK(((uint64_t)h[1] << 24 | (uint64_t)h[2] << 16 | (uint64_t)h[3] << 8 | h[4]) == size, "the header is not the big-endian size"); CHECK(h[5] == 'p', "first payload byte");
    // the reader decodes the same size
    struct Big : Src { int64_t BytesAvailable() const override { return (int64_t)1 << 40; } } s; s.data.assign((const char*)h, 5);
    MessageReader r(&s); auto fr = r.NextMessageAndGrpcFrame(); CHECK(fr.message != nullptr, "the reader does not accept the header"); CHECK(fr.message_size == size, "the reader decodes another size"); symx_cover("any size");
    return;
  }
  job--;
  unsigned nmsg = job < 3 ? job + 1 : 1; std::string all; std::vector<std::string> payloads; bool delim = symx_range("delim", 0, 1), split = symx_range("split", 0, 1);
  for (unsigned k = 0; k < nmsg; k++) {
    if (job < 3) gPayload = symStr(symx_range("len", 0, nmsg == 1 ? (tier ? 40 : 20) : 2 + tier), "payload"); else { gPayload = std::string(kSizes[job - 3], 'q'); symx_bytes(&gPayload[0], 2, "first"); symx_bytes(&gPayload[gPayload.size() - 2], 2, "last"); }
    gSplit = split ? gPayload.size() / 2 : gPayload.size(); payloads.push_back(gPayload);
    RequestMessageTranslator t(types, delim, info(&type, &f, symx_range("pipeline", 0, nmsg == 1 ? 3 : 0)));
    std::string m = "stale"; bool early = nmsg == 1 && symx_range("poll early", 0, 1);
    auto none = [&] { CHECK(!t.NextMessage(&m), "a message is returned before it is complete, or again"); CHECK(strEq(m, "stale"), "the output is written although there is no message"); };
    if (early) { CHECK(!t.Finished(), "finished before the message was returned"); none(); }
    t.Input().StartObject(""); if (early) none(); t.Input().RenderString("x", "1"); if (early) none(); t.Input().EndObject();
    CHECK(!t.Finished(), "finished before the message was returned"); CHECK(t.Status().ok(), "an error for a good message");
    CHECK(t.NextMessage(&m), "a complete message is not returned"); CHECK(t.Finished(), "not finished after the message was returned");
    CHECK(m.size() == gPayload.size() + (delim ? 5 : 0), "size of the emitted message");
    size_t h = delim ? 5 : 0; if (job < 3) obsStr("m", m); else obsStr("h", m.substr(0, 8));
    if (delim) { CHECK((m[0] == 0) & ((((uint64_t)(uint8_t)m[1] << 24) | ((uint64_t)(uint8_t)m[2] << 16) | ((uint64_t)(uint8_t)m[3] << 8) | (uint8_t)m[4]) == gPayload.size()), "the header is not a zero byte and the big-endian size"); symx_cover("delimited"); } else symx_cover("plain");
    CHECK(memcmp(m.data() + h, gPayload.data(), gPayload.size()) == 0, "the payload is changed"); all += m; m = "stale"; none();
  }
  if (job >= 3) symx_cover("large");
  if (!delim) return;
  Src s; s.data = all; s.cut = job >= 3 ? 3 + 200 * symx_range("cut", 0, 1) : symx_range("cut", 0, all.size()); MessageReader r(&s);
  for (auto& p : payloads) { auto m = r.NextMessage(); CHECK(m != nullptr, "an emitted message is not read back"); std::string c = drain(m.get()); CHECK(strEq(c, p), "an emitted message is read back changed"); }
  CHECK(!r.NextMessage() && r.Finished() && r.Status().ok(), "more is read back than was emitted");
}
