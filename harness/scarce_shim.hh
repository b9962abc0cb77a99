// Interposed memory (operator new) and thread creation, either of which can be
// refused while a call into the library is being made.
#pragma once
#include <cstddef>
namespace scarce {
// of the allocations of at least min bytes made while calling, refuse the ones
// from the at-th (1-based) on, len of them (len < 0: for ever); at <= 0: none
void memory(long at, long len, size_t min);
void threads(long at, long len);
void calling(bool on);
void pause(int n);     // (this thread's allocations do not count while positive)
long allocs();         // ... that counted
long starts();         // threads
long refused();        // of both
}
