// Threads over an instrumented build.  The configuration is compiled with -fsanitize=thread and linked with the runtime
// in conc.cpp instead of the compiler's: every access to the library's blocks, to the tree objects and to global
// variables is recorded, and one thread runs at a time, switching where the schedule says.
#pragma once
#include <cstddef>
namespace vx {
constexpr int MAXT = 4;     // the main thread and three more
} // namespace vx
