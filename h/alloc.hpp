// Accounting of allocations: what is live, freed twice, written past its end or
// used after it was freed, and making a chosen allocation fail. Only what is
// allocated while tracking is on is accounted for. Inactive with sanitizers.
#pragma once
#include <cstddef>

namespace alloc {

bool active(); // false if built with a sanitizer

// tracking of the calling thread's allocations
void on();
void off();
struct Track {
    Track() {
        on();
    }
    ~Track() {
        off();
    }
    Track(const Track&) = delete;
};
// suspends tracking, for work of the harness inside callbacks
struct Pause {
    bool was;
    Pause();
    ~Pause();
    Pause(const Pause&) = delete;
};

size_t live();         // tracked blocks not freed yet
size_t live_bytes();
size_t count();        // allocations since the last reset
size_t double_frees(); // since the last reset
size_t overruns();     // damaged bytes behind blocks, found when freed
size_t late_writes();  // blocks written to after they were freed
void fail_at(long n);  // the n-th tracked allocation from now on fails, -1 none
bool failed();         // it did
// forgets everything, checks and releases the blocks kept since they were freed
void reset();

} /* namespace alloc */
