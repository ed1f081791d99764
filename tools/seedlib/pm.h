#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include "grpc_transcoding/path_matcher.h"
using namespace google::grpc::transcoding;
typedef const char* M;
static int failures = 0;
#define EXPECT(c) do { if (!(c)) { failures++; printf("%s:%d: %s\n", __FILE__, __LINE__, #c); } } while (0)
static std::string look(const PathMatcher<M>& m, const char* method, const std::string& path, const std::string& query = "", std::string* body = nullptr) {
  std::vector<VariableBinding> b; M r = m.Lookup(method, path, query, &b, body); if (!r) return "null"; std::string s = r;
  for (auto& x : b) { s += " "; for (size_t i = 0; i < x.field_path.size(); i++) s += (i ? "." : "") + x.field_path[i]; s += "=" + x.value; } return s;
}
static void expectEq(const std::string& got, const std::string& want, int line) { if (got != want) { failures++; printf("line %d: got '%s' want '%s'\n", line, got.c_str(), want.c_str()); } }
#define EQ(a, b) expectEq(a, b, __LINE__)
