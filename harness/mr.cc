// C14, C15, C16: MessageReader over an input stream whose chunking, arrival and end are chosen by the checker
#include "common.h"
#include "grpc_transcoding/message_reader.h"
using namespace google::grpc::transcoding;
namespace pbio = google::protobuf::io;
#ifndef PROP
#define PROP 14
#endif
#define CHK(p, c, m) do { if (PROP == p) CHECK(c, m); else symx_assume(c); } while (0)
// Bytes [0, arrived) of `data` are available; Next never crosses a chunk boundary; end of stream is known once `ended`.
struct Src : TranscoderInputStream {
  const unsigned char* data; int64_t total = 0, arrived = 0, pos = 0, lastSize = 0; bool ended = false; std::vector<int64_t> cuts; bool badBackUp = false;
  bool Next(const void** d, int* size) override {
    if (pos >= arrived) { *size = 0; lastSize = 0; return !(ended && arrived == total); }
    int64_t e = arrived; for (int64_t c : cuts) if (c > pos && c < e) e = c;
    *d = data + pos; *size = (int)(e - pos); lastSize = e - pos; pos = e; return true;
  }
  void BackUp(int n) override { if (n < 0 || n > lastSize) badBackUp = true; else { pos -= n; lastSize = 0; } }
  bool Skip(int) override { return false; }
  int64_t ByteCount() const override { return 0; }     // as the library's own streams
  int64_t BytesAvailable() const override { return arrived - pos; }
  bool Finished() const override { return ended && arrived == total; }
};
struct Frame { size_t off, len; };      // complete frames
// reads a message completely; optionally backs up one byte of every chunk once
static std::string drain(pbio::ZeroCopyInputStream* s, bool backup) {
  std::string o; const void* d; int n; int guard = 0; bool did = false;
  while (s->Next(&d, &n)) {
    if (++guard > 4096) symx_fail("the message stream does not end");
    if (backup && !did && n > 0) { o.append((const char*)d, n - 1); s->BackUp(1); did = true; } else { if (n) o.append((const char*)d, n); did = false; }
  }
  return o;
}
enum Tail { NONE, HDR, PAY, FLAG, NTAIL };
// any place, or in large streams one of a few
static int64_t pick(const char* name, int64_t lo, int64_t hi, int64_t tail) {
  if (hi <= 64) return symx_range(name, lo, hi);
  int64_t c[] = {lo, lo + 1, (lo + hi) / 2, tail, tail + 3, hi - 1, hi}, v = c[symx_range(name, 0, 6)]; if (v < lo || v > hi) symx_stop(); return v;
}
static void scenario(const std::vector<Frame>& fr, const std::string& bytes, Tail tail, size_t tailOff, int tier, bool lateEnd, unsigned ncuts, unsigned nstops, bool pair, int64_t every = 0) {
  size_t total = bytes.size();
  Src src; std::vector<unsigned char> buf(bytes.begin(), bytes.end()); buf.push_back(0); src.data = buf.data(); src.total = total;
  int64_t lo = 1; for (unsigned i = 0; i < ncuts && lo < (int64_t)total; i++) { int64_t c = pick("cut", lo, total, tailOff); if (c == (int64_t)total) break; src.cuts.push_back(c); lo = c + 1; }
  if (every) for (int64_t c = every; c < (int64_t)total; c += every) src.cuts.push_back(c);
  bool frameApi = symx_range("frameapi", 0, 1), backup = pair ? frameApi != lateEnd : symx_range("backup", 0, 1);
  MessageReader reader(&src); size_t got = 0; int64_t at = 0; bool over = false;
  for (unsigned st = 0;; st++) {
    bool last = st >= nstops; 
    if (!last) { at = pick("arrive", at, total, tailOff); src.arrived = at; if ((size_t)at == total) last = true; } else src.arrived = at = total;
    if (last && lateEnd) { lateEnd = false; nstops = st + 1; } else if (last) src.ended = true;   // late: the end becomes known only after all bytes were polled
    // poll until nothing is returned, then once more
    for (unsigned poll = 0; poll < 2;) {
      bool complete = got < fr.size() && fr[got].off + 5 + fr[got].len <= (size_t)src.arrived;
      int64_t before = src.pos;
      std::unique_ptr<pbio::ZeroCopyInputStream> m; unsigned char hdr[5] = {9, 9, 9, 9, 9}; uint32_t msize = 77;
      if (frameApi) { auto f = reader.NextMessageAndGrpcFrame(); m = std::move(f.message); memcpy(hdr, f.grpc_frame, 5); msize = f.message_size; }
      else m = reader.NextMessage();
      CHK(15, !src.badBackUp, "illegal BackUp on the input");
      if (over) {
        if (tail == FLAG || tail == HDR || tail == PAY) { CHK(16, !m, "a message after an error"); }
        else CHK(14, !m, "a message after the end");
      }
      if (m) {
        symx_cover("message");
        bool beyond = got >= fr.size();
        if (beyond && tail != NONE) CHK(16, false, "a message is returned for a malformed frame");
        CHK(14, !beyond, "more messages than frames");
        CHK(15, complete, "a message is returned before it is complete");
        const Frame& f = fr[got];
        if (frameApi) {
          bool same = true; for (int i = 0; i < 5; i++) same = same & (hdr[i] == (unsigned char)bytes[f.off + i]);
          CHK(14, same, "frame header"); CHK(14, msize == f.len, "message size");
        }
        std::string c = drain(m.get(), backup); m.reset(); obsStr("msg", c);
        CHK(14, c.size() == f.len, "message length"); CHK(14, memcmp(c.data(), bytes.data() + f.off + 5, f.len) == 0, "message content");
        CHK(14, src.pos == (int64_t)(f.off + 5 + f.len), "position after the message");
        CHK(15, !reader.Finished(), "finished although the end was not reported"); CHK(16, reader.Status().ok(), "error for well-formed input");
        got++; poll = 0; continue;
      }
      CHK(14, !complete, "a complete frame is not returned");
      // nothing returned: what is the state of the stream?
      size_t start = got < fr.size() ? fr[got].off : tailOff; int64_t avail = src.arrived - (int64_t)start;
      bool badFlag = got == fr.size() && tail == FLAG && avail >= 5;
      bool trunc = got == fr.size() && (tail == HDR || tail == PAY) && src.Finished();
      bool atEnd = got == fr.size() && tail == NONE && src.Finished();
      symx_obs("status", (uint64_t)reader.Status().code()); symx_obs("finished", reader.Finished());
      if (badFlag || trunc) {
        symx_cover(badFlag ? "bad flag" : "truncated");
        CHK(16, reader.Status().code() == absl::StatusCode::kInternal, "a malformed stream is not reported as an internal error");
        CHK(16, reader.Finished(), "not finished after an error"); over = true;
      } else {
        CHK(16, reader.Status().ok(), "an error although the input so far is well formed");
        CHK(15, reader.Finished() == atEnd, "finished is reported wrongly");
        if (atEnd) { symx_cover("end"); over = true; }
        // only a complete header of an incomplete frame may have been consumed
        if (!over) { int64_t want = avail >= 5 ? (int64_t)start + 5 : (int64_t)start; CHK(15, src.pos == want, "bytes of an incomplete part were consumed"); if (poll == 1) CHK(15, src.pos == before, "polling again consumes input"); symx_cover("incomplete"); }
      }
      poll++;
    }
    if (src.ended) break;
  }
  CHK(14, got == fr.size(), "not all messages were returned");
}
// any 32-bit length: sizes only, no bytes are copied
struct BigSrc : TranscoderInputStream {
  unsigned char hdr[5]; int64_t avail; bool hdrDone = false; char dummy; int sizes[2]; int k = 0;
  bool Next(const void** d, int* size) override { if (!hdrDone) { hdrDone = true; *d = hdr; *size = 5; return true; } if (k >= 2) return false; *d = &dummy; *size = sizes[k++]; return true; }
  void BackUp(int) override {}
  bool Skip(int) override { return false; }
  int64_t ByteCount() const override { return 0; }
  int64_t BytesAvailable() const override { return hdrDone ? avail : avail + 5; }
  bool ended = PROP == 16; bool Finished() const override { return ended; }
};
static void bigLength() {
  BigSrc s; s.hdr[0] = 0; symx_bytes(s.hdr + 1, 4, "length"); 
#if PROP == 14
  s.avail = (int64_t)symx_int("avail", 64); symx_assume((s.avail >= 0) & (s.avail < (int64_t)1 << 62));
#elif PROP == 15
  { // polls while the payload arrives bit by bit
    MessageReader r(&s); int64_t a = 0; uint64_t len = (uint64_t)s.hdr[1] << 24 | (uint64_t)s.hdr[2] << 16 | (uint64_t)s.hdr[3] << 8 | s.hdr[4]; bool zero = symx_range("nothing yet", 0, 1);
    for (int i = 0; i < 3; i++) {
      if (i || !zero) { int64_t more = (int64_t)symx_int("more", 64); symx_assume((more >= 0) & (more < (int64_t)1 << 60)); a += more; }
      s.avail = a; auto m = r.NextMessage(); symx_obs("got", m != nullptr);
      CHECK((m != nullptr) == ((uint64_t)a >= len), "a message is returned exactly when all of it has arrived"); CHECK(r.Status().ok() && !r.Finished(), "an error or the end is reported while the stream goes on"); CHECK(s.k == 0, "payload is consumed before the message is complete");
      if (m) { symx_cover("large"); return; }
      symx_cover("large incomplete");
    }
    return;
  }
#else
  const int64_t avails[] = {0, 0xffffff, 0x7fffffff, 0xfffffffe, 0xffffffff, (int64_t)1 << 32}; s.avail = avails[symx_range("avail", 0, 5)];
#endif

  uint64_t len = (uint64_t)s.hdr[1] << 24 | (uint64_t)s.hdr[2] << 16 | (uint64_t)s.hdr[3] << 8 | s.hdr[4];
  for (int i = 0; i < 2; i++) { s.sizes[i] = (int)symx_int("chunk", 32); symx_assume(s.sizes[i] > 0); }
  MessageReader r(&s); auto f = r.NextMessageAndGrpcFrame();
  symx_obs("got", f.message != nullptr);
  CHECK((f.message != nullptr) == ((uint64_t)s.avail >= len), "availability of a large message");
#if PROP == 16
  CHECK(r.Status().ok() == (f.message != nullptr), "truncation of a large message"); if (!f.message) { symx_cover("large truncated"); CHECK(r.Status().code() == absl::StatusCode::kInternal, "status"); CHECK(r.Finished(), "not finished after an error"); CHECK(!r.NextMessage(), "a message after an error"); } return;
#endif
  if (!f.message) { CHECK(r.Status().ok(), "status"); return; }
  symx_cover("large");
  CHECK(f.message_size == len, "message size of a large message"); for (int i = 0; i < 5; i++) CHECK(f.grpc_frame[i] == s.hdr[i], "frame header of a large message");
  int64_t rem = (int64_t)len; const void* d; int n;
  for (int i = 0; i < 3; i++) {
    int kb = s.k; if (!f.message->Next(&d, &n)) { CHECK(rem == 0 || s.k == 2, "a large message ends early"); break; }
    CHECK((int64_t)n == (s.sizes[kb] < rem ? s.sizes[kb] : rem), "limit of a large message"); rem -= n;
  }
}
static size_t maxPay(int tier) { return 2; }
// tails and end notification explored for each property
static const Tail kTails[] = {NONE, HDR, PAY, FLAG};
static const unsigned nTails = PROP == 16 ? 4 : PROP == 15 ? 3 : 1, nLate = PROP == 14 ? 1 : 2;
static unsigned baseJobs(int tier) { return nTails * nLate * (tier ? 4 : 3) + 1; }
static void baseMain(unsigned job) {
  int tier = symx_tier();
  if (job == 0) { bigLength(); return; }
  job--;
  Tail tail = kTails[job % nTails]; bool late = (job / nTails) % nLate; unsigned nf = job / (nLate * nTails);
  std::string bytes; std::vector<Frame> fr;
  for (unsigned i = 0; i < nf; i++) {
    size_t len = symx_range("len", 0, maxPay(tier)); fr.push_back({bytes.size(), len});
    bytes += std::string("\0\0\0\0", 4); bytes += (char)len; bytes += symStr(len, "payload");
  }
  size_t tailOff = bytes.size();
  if (tail == HDR) { size_t n = symx_range("hdrlen", 1, 4); bytes += symStr(n, "hdr"); }
  if (tail == PAY) {   // declared length larger than what follows (every 32-bit length: bigLength)
    size_t n = symx_range("have", 0, 1); const uint32_t lens[] = {(uint32_t)n + 1, 0xffffffffu, 0x100u, 0x80000000u}; uint32_t L = lens[symx_range("declared", 0, tier ? 3 : 1)];
    bytes += std::string(1, '\0'); for (int i = 3; i >= 0; i--) bytes += (char)(L >> 8 * i); bytes += symStr(n, "payload");
  }
  if (tail == FLAG) { std::string h = symStr(5, "badhdr"); symx_assume(h[0] != 0); bytes += h; bytes += symStr(symx_range("more", 0, 1), "payload"); }
  static const unsigned cutsQ[] = {2, 2, 1}, stopsQ[] = {2, 1, 1}, cutsT[] = {3, 3, 2, 1}, stopsT[] = {3, 2, 2, 1};
  scenario(fr, bytes, tail, tailOff, tier, late, tier ? cutsT[nf] : cutsQ[nf], tier ? stopsT[nf] : stopsQ[nf], nf >= 1 + tier);
}
// ---- large inputs: concrete skeletons with a symbolic byte
enum { NSCALE = nTails * 2 };
static void scaleMain(unsigned job) {
  Tail tail = kTails[job % nTails]; bool many = job / nTails; std::string bytes; std::vector<Frame> fr;
  static const size_t lm[] = {0, 3, 1, 0, 0, 2}, lb[] = {300, 0, 70000, 255, 256}; size_t nf = many ? 140 : 5;
  for (size_t i = 0; i < nf; i++) {
    size_t len = many ? lm[i % 6] : lb[i]; fr.push_back({bytes.size(), len}); bytes += '\0'; for (int k = 3; k >= 0; k--) bytes += (char)(len >> 8 * k);
    std::string p(len, (char)i); if (len && i % 4 == 2) p[len - 1] = symStr(1, "payload")[0]; bytes += p;
  }
  size_t tailOff = bytes.size();
  if (tail == HDR) bytes += std::string("\0\0\0", 3); if (tail == PAY) { bytes += std::string("\0\0\1\0\0", 5); bytes += std::string(300, 'p'); }
  if (tail == FLAG) { std::string h = symStr(1, "flag"); symx_assume(h[0] != 0); bytes += h + std::string("\0\0\0\2ab", 6); }
  static const int64_t ev[] = {0, 1, 7, 4096}; int64_t every = ev[symx_range("every", 0, 3)]; if (!many && every && every < 4096) symx_stop();
  scenario(fr, bytes, tail, tailOff, 0, symx_range("late", 0, nLate - 1), every ? 0 : 1, 1, false, every);
}
unsigned symx_jobs(int tier) { return baseJobs(tier) + (unsigned)NSCALE; }
void symx_main(unsigned job) { if (job < (unsigned)NSCALE) scaleMain(job); else baseMain(job - (unsigned)NSCALE); }
