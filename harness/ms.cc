// C17: the byte stream over a MessageStream
#include "common.h"
#include "grpc_transcoding/message_stream.h"
using namespace google::grpc::transcoding;
struct Src : MessageStream {
  std::vector<std::string> msgs; size_t next = 0, arrived = 0; bool ended = false; unsigned calls = 0;
  bool NextMessage(std::string* m) override { calls++; if (next >= arrived) return false; *m = msgs[next++]; return true; }
  bool Finished() const override { return ended && next == msgs.size(); }
  absl::Status Status() const override { return absl::OkStatus(); }
};
static unsigned baseJobs(int tier) { return tier ? 64 : 27; }
static void baseMain(unsigned job) {
  int tier = symx_tier(); unsigned nm = tier ? 3 : 3; Src src; unsigned base = tier ? 4 : 3;
  for (unsigned i = 0; i < nm; i++) { src.msgs.push_back(symStr(job % base, "msg")); job /= base; }
  unsigned ticks = 0;
  auto s = src.CreateInputStream();
  std::string flat; std::vector<size_t> ends;             // concatenation, and where each message ends
  for (auto& m : src.msgs) { flat += m; ends.push_back(flat.size()); }
  size_t pos = 0; const void* d = nullptr; int n = 0; int last = 0; int64_t promised = -1;
  auto arrivedBytes = [&] { return src.arrived ? ends[src.arrived - 1] : 0; };
  auto curEnd = [&] { size_t e = 0; for (size_t i = 0; i < src.arrived; i++) if (ends[i] > pos) { e = ends[i]; break; } return e; };
  unsigned nops = tier ? 6 : 4; src.arrived = symx_range("arrived", 0, nm); if (src.arrived == nm) src.ended = symx_range("ended", 0, 1);
  for (unsigned k = 0; k < nops; k++) {
    unsigned op = symx_range("op", 0, 4);   // 0 read, 1 back up, 2 availability, 3 arrival / end, 4 illegal back up
    if (op == 0) {
      d = nullptr; n = 77; bool ok = s->Next(&d, &n); symx_obs("ok", ok); symx_obs("n", (uint64_t)(int64_t)n);
      size_t e = curEnd();
      if (e > pos) {
        symx_cover("data");
        CHECK(ok, "a read fails although data is available"); CHECK(n > 0, "a read returns nothing although data is available"); CHECK(pos + n <= arrivedBytes(), "a read returns more than there is");
        CHECK(memcmp(d, flat.data() + pos, n) == 0, "read data differ from the messages");
        pos += n; last = n;
      } else {
        bool fin = src.ended && src.arrived == src.msgs.size();
        CHECK(ok == !fin, "a read at the end / without data"); CHECK(n == 0, "size of a read without data"); last = 0; symx_cover(fin ? "end" : "no data");
      }
      if (promised >= 0) CHECK(n == promised, "available bytes differ from the next read");
      promised = -1;
    } else if (op == 1) {
      if (!last) symx_stop();                              // legal only directly after a read
      int c = symx_range("count", 0, last); s->BackUp(c); pos -= c; last = 0; promised = -1; symx_cover("backup");
    } else if (op == 2) {
      int64_t a = s->BytesAvailable(); symx_obs("avail", (uint64_t)a); last = 0; promised = a;
      CHECK((a > 0) == (curEnd() > pos), "available bytes are reported wrongly");
    } else if (op == 4) {                                  // fewer than no bytes, or more than were ever delivered: ignored
      int c = (int)symx_int("illegal", 32); symx_assume(c < 0 || (size_t)c > pos); s->BackUp(c); symx_cover("illegal backup");
    } else {
      if (src.ended) symx_stop();
      last = 0; promised = -1;
      if (src.arrived < src.msgs.size()) src.arrived++; else src.ended = true;
      if (src.arrived == src.msgs.size() && symx_range("end", 0, 1)) src.ended = true;
      symx_obs("fin", s->Finished());
    }
    CHECK(!s->Finished() || (src.ended && src.arrived == src.msgs.size()), "finished although more data will come");
  }
  // drain: everything is delivered, in order, and then reads fail
  src.arrived = src.msgs.size(); src.ended = true;
  for (unsigned i = 0; i < nm + 2; i++) {
    if (!s->Next(&d, &n)) { CHECK(pos == flat.size(), "data are lost"); CHECK(n == 0, "size at the end"); symx_cover("drained"); CHECK(s->Finished(), "not finished at the end"); return; }
    CHECK(n > 0 && pos + n <= flat.size(), "read size"); CHECK(memcmp(d, flat.data() + pos, n) == 0, "read data differ from the messages"); pos += n;
  }
  symx_fail("reads do not end");
}
// ---- large inputs: concrete skeletons with a symbolic byte
enum { NSCALE = 4 };
static void scaleMain(unsigned job) {
  Src src; std::string flat; static const size_t ls[] = {3, 0, 1, 300, 0, 0, 7, 70000, 2}; size_t nm = 140, big = symx_range("symbolic", 0, 4);
  for (size_t i = 0; i < nm; i++) { std::string m(ls[i % 9], (char)('a' + i % 26)); if (i % 8 == big && !m.empty()) m[m.size() - 1] = symStr(1, "msg")[0]; src.msgs.push_back(m); flat += m; }
  auto s = src.CreateInputStream(); size_t pos = 0; bool gaps = symx_range("gaps", 0, 1); if (!gaps) { src.arrived = nm; src.ended = symx_range("ended", 0, 1); }
  const void* d; int n; int guard = 0; std::string out;
  while (out.size() < flat.size()) {
    if (++guard > 1600) symx_fail("reads do not end");
    int64_t a = -1; if (job & 1) { a = s->BytesAvailable(); CHECK(s->BytesAvailable() == a, "asking for the available bytes changes them"); }
    bool ok = s->Next(&d, &n); CHECK(ok, "a read fails although data will come"); if (a >= 0) CHECK(n == a, "available bytes differ from the next read");
    if (n == 0) { CHECK(gaps && src.arrived < nm, "a read returns nothing although data is available"); symx_cover("no data"); src.arrived += 3; if (src.arrived >= nm) { src.arrived = nm; src.ended = true; } continue; }
    CHECK(out.size() + n <= flat.size() && memcmp(d, flat.data() + out.size(), n) == 0, "read data differ from the messages"); symx_cover("data");
    int keep = n; if (job & 2) { int back = n > 1 ? n / 2 : 0; s->BackUp(back); keep -= back; if (back) symx_cover("backup"); }
    out.append((const char*)d, keep); CHECK(!s->Finished() || (src.ended && src.arrived == nm), "finished although more data will come");
  }
  src.arrived = nm; src.ended = true; CHECK(!s->Next(&d, &n), "a read at the end succeeds"); CHECK(n == 0, "size at the end"); CHECK(s->Finished(), "not finished at the end"); symx_cover("drained");
}
unsigned symx_jobs(int tier) { return baseJobs(tier) + NSCALE; }
void symx_main(unsigned job) { if (job < NSCALE) scaleMain(job); else baseMain(job - NSCALE); }
