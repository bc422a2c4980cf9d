// The same workload on two builds of the library in one program. trace.cpp and
// setups.cpp are compiled once as usual and once with h and ss renamed; only
// the functions below, which use standard types, connect them.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace tr {

struct Call {
    int kind = 0, k = 1;
    size_t max = 0;
    std::vector<std::string> names;
};

struct Job {
    enum Kind { PARSER, CONVERTER, TYPED, READER } kind = PARSER;
    std::string setup;
    int mode = 0;
    std::string path; // reads the file if not empty, else the data
    const char* data = nullptr;
    size_t size = 0;
    std::string delim;
    std::vector<Call> calls;
    std::vector<std::string> lines; // of the converter
    uint64_t seed = 0;
    size_t initial = 0; // size of the first buffer of the line reader
    std::function<void()> between; // called after every call
};

using Trace = std::vector<std::string>;

} // namespace tr

void trace_main(const tr::Job& job, tr::Trace& out);
void trace_alt(const tr::Job& job, tr::Trace& out);
