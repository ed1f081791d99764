// Native implementation of the harness API: replays recorded inputs on the real code.
// usage: prog TIER FILE [single]   FILE: one case per line: the job, then the input values
// Prints one line per case: "CASE <n> <status> name=value;..."
#include "symx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <sstream>
#include <iostream>
static std::vector<uint64_t> in; static size_t pos; static std::string obs; static int tier;
static uint64_t next() { if (pos >= in.size()) { printf("END short\n"); fflush(stdout); _exit(7); } return in[pos++]; }
[[noreturn]] static void done(const char* st, const char* msg) { printf("END %s|%s|%s\n", st, msg, obs.c_str()); fflush(stdout); _exit(strcmp(st, "ok") ? 9 : 0); }
extern "C" {
uint64_t symx_int(const char*, unsigned) { return next(); }
uint64_t symx_range(const char*, uint64_t, uint64_t) { return next(); }
void symx_bytes(void* p, size_t n, const char*) { for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)next(); }
void symx_assume(bool c) { if (!c) done("assume", ""); }
void symx_assert(bool c, const char* msg) { if (!c) done("assert", msg); }
void symx_fail(const char* msg) { done("assert", msg); }
void symx_obs(const char* name, uint64_t v) { obs += std::string(name) + "=" + std::to_string(v) + ";"; }
void symx_obs_bytes(const char* name, const void* p, size_t n) { obs += std::string(name) + "="; for (size_t i = 0; i < n; i++) { char b[4]; snprintf(b, 4, "%02x", ((const unsigned char*)p)[i]); obs += b; } obs += ";"; }
void symx_freeze(void) {}
void symx_unfreeze(void) {}
void symx_lenient(void) {}
void symx_cover(const char*) {}
int symx_tier(void) { return tier; }
uint64_t symx_concretize(uint64_t v) { return v; }
void symx_stop(void) { done("ok", ""); }
__attribute__((weak)) void symx_lock(void*) {}
__attribute__((weak)) void symx_unlock(void*) {}
}
int main(int argc, char** argv) {
  if (argc < 3) return 2;
  unsigned job = 0; tier = atoi(argv[1]);
  std::ifstream f(argv[2]); std::string line; int n = 0;
  bool single = argc > 3;   // replay in this process, so that sanitizer reports are visible
  while (std::getline(f, line)) {
    std::istringstream is(line); in.clear(); uint64_t v; is >> job; while (is >> v) in.push_back(v);
    pos = 0; obs.clear();
    printf("CASE %d\n", n++); fflush(stdout);
    if (single) { const char* a = getenv("SYMX_ALARM"); alarm(a ? atoi(a) : 60); symx_main(job); done("ok", ""); }
    pid_t p = fork();
    if (p == 0) { alarm(60); symx_main(job); done("ok", ""); }
    int st; waitpid(p, &st, 0);
    if (WIFSIGNALED(st)) { printf("END signal %d\n", WTERMSIG(st)); }
    else if (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 9 && WEXITSTATUS(st) != 7) printf("END exit %d\n", WEXITSTATUS(st));
    fflush(stdout);
  }
  return 0;
}
