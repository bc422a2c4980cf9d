// The work the library does: executed basic blocks, and the bytes given to the
// memory and string functions and to new.
#pragma once
#include <cstdint>

namespace work {

extern bool on;
extern uint64_t units;
extern bool reallocs; // whether the sizes given to realloc count

struct Count {
    Count() { on = true; }
    ~Count() { on = false; }
};

} // namespace work
