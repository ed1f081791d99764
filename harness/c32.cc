// C32: the benchmark's input stream delivers its text, in chunks, exactly once.
#include "perf_benchmark/benchmark_input_stream.h"
#include "common.h"
using google::grpc::transcoding::perf_benchmark::BenchmarkZeroCopyInputStream;
using google::grpc::transcoding::TranscoderInputStream;
namespace {
struct Model { std::string text; size_t chunk = 0, pos = 0, last = 0; };
void Agree(TranscoderInputStream& s, const Model& m) {
  size_t rest = m.text.size() - m.pos;
  symx_assert(s.ByteCount() == (int64_t)m.pos, "the number of delivered bytes is wrong");
  symx_assert(s.Finished() == (rest == 0), "finished, although text remains, or the reverse");
  symx_assert(s.BytesAvailable() == (int64_t)(rest == 0 ? 0 : rest < m.chunk ? rest : m.chunk), "the number of available bytes is not the size of the next chunk");
}
void Take(TranscoderInputStream& s, Model& m) {
  const void* d = nullptr; int n = -1;
  size_t rest = m.text.size() - m.pos, want = rest < m.chunk ? rest : m.chunk;
  bool ok = s.Next(&d, &n);
  symx_assert(ok == (rest != 0), "Next tells the end wrongly");
  if (!ok) { symx_assert(n == 0, "a finished stream gives data"); m.last = 0; symx_cover("end"); return; }
  symx_assert(n == (int)want, "the chunk has the wrong size");
  char text[16], got[16];
  if (m.text.size() <= 16) {   // any byte of the chunk
    for (size_t i = 0; i < want; i++) { text[i] = m.text[m.pos + i]; got[i] = ((const char*)d)[i]; }
    size_t i = symx_int("byte", 4); symx_assume(i < want);
    symx_assert(got[i] == text[i], "the chunk has the wrong bytes");
  } else {
    for (size_t i = 0; i < want; i++) symx_assert(((const char*)d)[i] == m.text[m.pos + i], "the chunk has the wrong bytes");
  }
  m.pos += want; m.last = want; symx_cover("chunk");
}
}  // namespace
unsigned symx_jobs(int tier) { return (tier ? 14 : 8) + 1; }
void symx_main(unsigned job) {
  unsigned top = symx_tier() ? 14 : 8;
  Model m; size_t num;
  if (job == top) {   // a large text
    size_t n = 5000; num = symx_range("num", 0, 3); num = num == 0 ? 1 : num == 1 ? 3 : num == 2 ? 600 : 2600;
    m.text.resize(n); for (size_t i = 0; i < n; i++) m.text[i] = (char)(i * 7 + i / 251);
  } else {
    m.text.resize(job + 1); symx_bytes(&m.text[0], m.text.size(), "text");
    num = symx_range("num", 1, m.text.size());
  }
  m.chunk = m.text.size() / num;
  BenchmarkZeroCopyInputStream s(m.text, num);
  symx_assert(s.TotalBytes() == m.text.size(), "the total is not the size of the text");
  Agree(s, m);
  unsigned ops = job == top ? 0 : symx_tier() ? 6 : 5;
  for (unsigned i = 0; i < ops; i++) {
    switch (symx_range("op", 0, 2)) {
      case 0: Take(s, m); break;
      case 1: {
        if (m.last == 0) symx_stop();
        int64_t k = (int64_t)symx_range("back", 1, m.last);
        s.BackUp((int)k); m.pos -= (size_t)k; m.last = 0; symx_cover("back up"); break; }
      default: s.Reset(); m.pos = 0; m.last = 0; symx_cover("reset"); break;
    }
    Agree(s, m);
    symx_assert(s.TotalBytes() == m.text.size(), "the total changed");
  }
  for (int round = 0; round < 2; round++) {
    size_t left = m.text.size() - m.pos, calls = 0;
    while (m.pos < m.text.size()) { Take(s, m); Agree(s, m); calls++; symx_assert(calls <= left, "the stream does not end"); }
    Take(s, m); Agree(s, m);
    if (job == top) symx_obs("calls", calls);
    s.Reset(); m.pos = 0; m.last = 0; Agree(s, m);
  }
  symx_obs("pos", m.pos);
}
