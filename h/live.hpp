// Live bytes of the process and the contents of new memory.
#pragma once
#include <cstddef>

namespace live {

bool active(); // not with sanitizers, which have allocators of their own
size_t bytes();
void fill(int byte); // new blocks are filled with it, -1 for none

} // namespace live
