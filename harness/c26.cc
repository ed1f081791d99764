// C26: every use of the type cache happens under one and the same exclusively held lock
#include "common.h"
#include <memory>
#include "absl/synchronization/mutex.h"
#include "google/protobuf/util/converter/type_info.h"
#include "grpc_transcoding/type_helper.h"
using namespace google::grpc::transcoding;
namespace pb = google::protobuf; namespace pbc = google::protobuf::util::converter;
// the locks held exclusively at the moment (fixed storage: this also runs before main)
struct Held { void* m; } static gHeld[16]; static int gN; static int gReaders; static bool gWatch; static int gRelocked;
static void lock(void* m) { symx_lock(m); if (!gWatch) return; for (int i = 0; i < gN; i++) if (gHeld[i].m == m) gRelocked++; if (gN < 16) gHeld[gN++].m = m; }
static void unlock(void* m) { for (int i = gWatch ? gN : 0; i-- > 0;) if (gHeld[i].m == m) { for (int j = i; j + 1 < gN; j++) gHeld[j] = gHeld[j + 1]; gN--; break; } symx_unlock(m); }
static void readers(int d) { if (!gWatch) return; symx_lock(&gReaders); gReaders += d; symx_unlock(&gReaders); }
static int gGone; static void* gGoneM[16];   // locks destroyed so far
#ifndef TSAN_REPLAY
namespace absl {
ABSL_NAMESPACE_BEGIN
Mutex::~Mutex() { symx_lock(this); if (gWatch && gGone < 16) gGoneM[gGone++] = this; symx_unlock(this); }
void Mutex::Lock() { lock(this); }
void Mutex::Unlock() { unlock(this); }
bool Mutex::TryLock() { lock(this); return true; }
void Mutex::ReaderLock() { readers(1); }
void Mutex::ReaderUnlock() { readers(-1); }
bool Mutex::ReaderTryLock() { readers(1); return true; }
void Mutex::AssertHeld() const {}
void Mutex::AssertReaderHeld() const {}
ABSL_NAMESPACE_END
}
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { lock(m); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { unlock(m); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { lock(m); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t*) noexcept { readers(1); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept { for (int i = 0; i < gN; i++) if (gHeld[i].m == m) { unlock(m); return 0; } readers(-1); return 0; }
}
#endif
// the cache: not thread safe; what it returns is chosen by the checker
static bool gFixed;   // the answers are not chosen but fixed
static std::vector<void*> gCommon; static bool gFirst = true; static int gUses;
static pb::Type gT[2]; static pb::Enum gE; static pb::Field gF[2];
static void use() {
#ifdef TSAN_REPLAY
  gUses++; return;
#endif
  CHECK(gN > 0, gReaders ? "the type cache is used under a shared lock only" : "the type cache is used without holding a lock"); gUses++;
  std::vector<void*> now; for (int i = 0; i < gN; i++) { bool gone = false; for (int j = 0; j < gGone; j++) gone |= gGoneM[j] == gHeld[i].m; if (!gone && (gFirst || std::find(gCommon.begin(), gCommon.end(), gHeld[i].m) != gCommon.end())) now.push_back(gHeld[i].m); }
  gFirst = false; gCommon = now; CHECK(!gCommon.empty(), "two uses of the type cache are not under the same lock");
}
struct Want { int op; std::string arg; const void* ret; int code; const pb::Type* type; }; static std::vector<Want> gCalls;
#ifdef TSAN_REPLAY
#include <thread>
struct Cache : pbc::TypeInfo {
  absl::StatusOr<const pb::Type*> ResolveTypeUrl(absl::string_view u) const override { use(); return &gT[0]; }
  const pb::Type* GetTypeByTypeUrl(absl::string_view u) const override { use(); return &gT[0]; }
  const pb::Enum* GetEnumByTypeUrl(absl::string_view u) const override { use(); return &gE; }
  const pb::Field* FindField(const pb::Type* t, absl::string_view n) const override { use(); return n.size() == 2 ? nullptr : &gF[0]; }
};
#else
struct Cache : pbc::TypeInfo {
  mutable uint64_t writes = 0;
  absl::StatusOr<const pb::Type*> ResolveTypeUrl(absl::string_view u) const override { use(); writes++; int c = gFixed ? 0 : symx_int("code", 4); gCalls.push_back({0, std::string(u.data(), u.size()), c ? nullptr : &gT[0], c, nullptr}); if (c) return absl::Status((absl::StatusCode)c, "x"); return &gT[0]; }
  const pb::Type* GetTypeByTypeUrl(absl::string_view u) const override { use(); writes++; const pb::Type* r = gFixed || symx_range("type", 0, 1) ? &gT[1] : nullptr; gCalls.push_back({1, std::string(u.data(), u.size()), r, 0, nullptr}); return r; }
  const pb::Enum* GetEnumByTypeUrl(absl::string_view u) const override { use(); writes++; const pb::Enum* r = gFixed || symx_range("enum", 0, 1) ? &gE : nullptr; gCalls.push_back({2, std::string(u.data(), u.size()), r, 0, nullptr}); return r; }
  const pb::Field* FindField(const pb::Type* t, absl::string_view n) const override { use(); writes++; const pb::Field* r = gFixed ? &gF[0] : symx_range("field", 0, 1) ? &gF[symx_range("which", 0, 1)] : nullptr; gCalls.push_back({3, std::string(n.data(), n.size()), r, 0, t}); return r; }
};
#endif
namespace google { namespace protobuf { namespace util { namespace converter { TypeInfo* TypeInfo::NewTypeInfo(TypeResolver*) { return new Cache; } }}}}
unsigned symx_jobs(int tier) { return 2 * 6 * 6 + 2; }
void symx_main(unsigned job) {
  int tier = symx_tier(); gT[0].set_name("T"); gT[1].set_name("U"); gF[0].set_name("m"); gF[0].set_kind(pb::Field::TYPE_MESSAGE); gF[0].set_type_url("u"); gF[1].set_name("s"); gF[1].set_kind(pb::Field::TYPE_STRING);
  std::vector<pb::Type> types(1); types[0].set_name("T"); std::vector<pb::Enum> enums;
  struct R : pb::util::TypeResolver { absl::Status ResolveMessageType(const std::string&, pb::Type*) override { return absl::OkStatus(); } absl::Status ResolveEnumType(const std::string&, pb::Enum*) override { return absl::OkStatus(); } };
  std::unique_ptr<TypeHelper> hp(job % 2 ? new TypeHelper(types, enums) : new TypeHelper(new R)); const TypeHelper& h = *hp; pbc::TypeInfo* info = h.Info();
#ifdef TSAN_REPLAY
  {
    auto all = [&] { for (int i = 0; i < 100; i++) for (const char* a : {"", "a", "%61", "bc"}) { (void)info->ResolveTypeUrl(a); info->GetTypeByTypeUrl(a); info->GetEnumByTypeUrl(a); info->FindField(&gT[0], a); std::vector<const pb::Field*> out; (void)h.ResolveFieldPath(gT[0], std::vector<std::string>{a, "x"}, &out); (void)h.ResolveFieldPath(gT[0], std::string(a) + ".x", &out); pb::Type t; pb::Enum e; (void)h.Resolver()->ResolveMessageType("type.googleapis.com/T", &t); (void)h.Resolver()->ResolveEnumType("type.googleapis.com/E", &e); } };
    std::thread th(all); all(); th.join(); return;
  }
#endif
  gN = 0; gReaders = 0; gWatch = true; symx_freeze();
  bool many = job >= 72;   // many queries before
  if (many) {
    symx_lock(&gFixed); gFixed = true; symx_unlock(&gFixed);
    for (unsigned i = 0; i < 262; i++) {
      std::string arg = i % 3 ? "k" + std::to_string(i) : "k"; (void)info->ResolveTypeUrl(arg); info->GetTypeByTypeUrl(arg); info->GetEnumByTypeUrl(arg); info->FindField(&gT[0], arg);
      std::vector<const pb::Field*> out; (void)h.ResolveFieldPath(gT[0], arg + ".m", &out); CHECK(gN == 0 && gReaders == 0, "a lock is still held after the query"); CHECK(gRelocked == 0, "a lock is taken while it is held");
    }
    symx_lock(&gFixed); gFixed = false; symx_unlock(&gFixed);
  }
  unsigned ops[3] = {job / 2 % 6, many ? (unsigned)symx_range("op", 0, 4) : job / 12, 0}; unsigned n = many ? 1 : tier ? 3 : 2; if (many) ops[0] = ops[1]; if (n == 3) ops[2] = symx_range("op", 0, 5);
  for (unsigned i = 0; i < n; i++) {
    size_t before = gCalls.size(); std::string arg = symStr(symx_range("len", 0, ops[i] == 5 ? 0 : 3), "arg");
    switch (ops[i]) {
      case 0: { auto r = info->ResolveTypeUrl(arg); symx_obs("ok", r.ok()); CHECK(gCalls.size() == before + 1 && gCalls.back().op == 0 && strEq(gCalls.back().arg, arg), "another query is made"); CHECK((int)r.status().code() == gCalls.back().code, "another status is returned than the cache's"); if (r.ok()) CHECK(r.value() == gCalls.back().ret, "another type is returned than the cache's"); break; }
      case 1: { auto r = info->GetTypeByTypeUrl(arg); CHECK(gCalls.size() == before + 1 && gCalls.back().op == 1 && strEq(gCalls.back().arg, arg), "another query is made"); CHECK(r == gCalls.back().ret, "another type is returned than the cache's"); break; }
      case 2: { auto r = info->GetEnumByTypeUrl(arg); CHECK(gCalls.size() == before + 1 && gCalls.back().op == 2 && strEq(gCalls.back().arg, arg), "another query is made"); CHECK(r == gCalls.back().ret, "another enum is returned than the cache's"); break; }
      case 3: { auto r = info->FindField(&gT[0], arg); CHECK(gCalls.size() == before + 1 && gCalls.back().op == 3 && gCalls.back().type == &gT[0] && strEq(gCalls.back().arg, arg), "another query is made"); CHECK(r == gCalls.back().ret, "another field is returned than the cache's"); break; }
      case 4: { std::vector<const pb::Field*> out; std::vector<std::string> names(1, arg); names.push_back(symStr(1, "arg2")); absl::Status s = h.ResolveFieldPath(gT[0], names, &out); symx_obs("code", (uint64_t)s.code()); symx_cover(s.ok() ? "resolved" : "not resolved"); break; }
      case 5: { pb::Type t; h.Resolver()->ResolveMessageType("type.googleapis.com/T", &t); pb::Enum e; h.Resolver()->ResolveEnumType("type.googleapis.com/E", &e); break; }
    }
    CHECK(gN == 0 && gReaders == 0, "a lock is still held after the query"); CHECK(gRelocked == 0, "a lock is taken while it is held");
    if (ops[i] < 4) symx_cover("query");
  }
  symx_unfreeze(); if (gUses) symx_cover("cache used"); gWatch = false;
}
