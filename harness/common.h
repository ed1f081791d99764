#pragma once
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include "symx.h"
// a string of n fresh bytes
static inline std::string symStr(size_t n, const char* name) { std::string s(n, 'x'); if (n) symx_bytes(&s[0], n, name); return s; }
static inline void obsStr(const char* n, const std::string& s) { symx_obs_bytes(n, s.data(), s.size()); }
#define CHECK(c, msg) symx_assert((c), msg)
static inline bool strEq(const std::string& a, const std::string& b) { return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size()) == 0); }
