// A race detector for code compiled with -fsanitize=thread, driven by a harness that owns the schedule.
// Two accesses race when they come from different threads, touch the same 4 bytes, at least one writes,
// and no synchronisation point lies between them. Detection does not depend on the order of execution.
#pragma once
#include <cstddef>
#include <cstdint>
void mt_start();                 // from here on, record; all previous accesses are forgotten
void mt_stop();
void mt_thread(int tid, void* stack_lo, void* stack_hi);   // the logical thread of the calling OS thread; its own stack is not shadowed
void mt_sync();                  // everything before is ordered before everything after
void mt_ignore(int d);           // +1 / -1: accesses of the calling OS thread are not recorded
const char* mt_report();         // first race since mt_start, or null
struct MtStats { uint64_t reads, writes, shared_cells; };
MtStats mt_stats();
void mt_count_only(bool c);      // only count accesses, look for no races
