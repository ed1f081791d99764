#include <cstdio>
#include <cstring>
#include <deque>
#include <string>
#include <vector>
#include <google/protobuf/io/zero_copy_stream_impl.h>
#include "grpc_transcoding/message_reader.h"
#include "grpc_transcoding/message_stream.h"
using namespace google::grpc::transcoding;
static int failures = 0;
#define EXPECT(c) do { if (!(c)) { failures++; printf("%s:%d: %s\n", __FILE__, __LINE__, #c); } } while (0)
// A stream of chunks that arrive one by one
struct Src : TranscoderInputStream {
  std::deque<std::string> q; std::string cur; size_t pos = 0; bool fin = false; long long extra = 0;
  bool Next(const void** d, int* n) override { while (pos >= cur.size() && !q.empty()) { cur = q.front(); q.pop_front(); pos = 0; } *d = cur.data() + pos; *n = (int)(cur.size() - pos); pos = cur.size(); return *n > 0 || !fin; }
  void BackUp(int n) override { pos -= n; }
  bool Skip(int) override { return false; }
  int64_t ByteCount() const override { return 0; }
  int64_t BytesAvailable() const override { int64_t n = cur.size() - pos; for (auto& s : q) n += s.size(); return n; }
  bool Finished() const override { return fin; }
};
static std::string frame(const std::string& m, unsigned char flag = 0) { std::string s(1, (char)flag); for (int i = 3; i >= 0; i--) s += (char)(m.size() >> (8 * i)); return s + m; }
static bool next(MessageReader& r, std::string* out) {
  auto m = r.NextMessage(); if (!m) return false; out->clear(); const void* d; int n; while (m->Next(&d, &n)) { if (n == 0) break; out->append((const char*)d, n); } return true;
}
struct Msgs : MessageStream {   // "\1" entries are gaps: nothing available at that poll
  std::deque<std::string> q; bool fin = false;
  bool NextMessage(std::string* m) override { if (q.empty()) return false; std::string s = q.front(); q.pop_front(); if (s == "\1") return false; *m = s; return true; }
  bool Finished() const override { return q.empty() && fin; }
  absl::Status Status() const override { return absl::OkStatus(); }
};
