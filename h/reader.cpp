// The line reader for systems without getline.
#include <algorithm>
#include <array>
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>
#define ss ss_portable
#undef __unix__
#include <ss/common.hpp>

long long portable_line(char*& line, size_t& n, FILE* f) {
    return ss::get_line_file(line, n, f);
}
