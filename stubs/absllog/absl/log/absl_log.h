// Not installed here: a fatal log entry ends the program.
#pragma once
#include <cstdlib>
namespace absl_log_stub { struct Fatal { ~Fatal() { ::abort(); } template <class T> Fatal& operator<<(const T&) { return *this; } }; }
#define ABSL_LOG(level) ::absl_log_stub::Fatal()
