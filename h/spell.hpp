// Families of setups which are written differently but mean the same.
#pragma once
#include "sut.hpp"

namespace h {

struct Spelling {
    str text;
    std::unique_ptr<ISut> (*file)(const str& path, const str& delim);
    std::unique_ptr<ISut> (*buffer)(const char* data, size_t size, const str& delim);
    std::unique_ptr<IConv> (*conv)();
};

struct Family {
    str name;
    Cfg cfg;
    Mode mode;
    std::vector<Spelling> spellings;
};

std::vector<Family>& families();

} /* namespace h */
