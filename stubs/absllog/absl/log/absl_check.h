// Not installed here: a check that fails ends the program.
#pragma once
#include <cstdlib>
#define ABSL_CHECK(c) do { if (!(c)) ::abort(); } while (0)
