#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <string>
namespace mem {
void start();             // forget everything, begin tracking
void stop();
size_t live_count();
std::string report();
void fail_at(int64_t n);  // the n-th allocation from now fails
extern uint64_t calls, failed;
// several simulated processes: each allocation belongs to the one running
extern const void *owner;
size_t live_count(const void *owner);
std::string report(const void *owner);
void drop(const void *owner);  // the process died: its memory is gone
}
