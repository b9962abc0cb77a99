// Counts the live heap blocks allocated while counting is on and the calling
// thread is not paused (harness code pauses).
#pragma once
namespace heap {
void on();
long blocks();
long bytes();
long peak();        // most bytes since the last call
void pause(int n); // +1: stop counting on this thread, -1: resume
struct Pause { Pause(); ~Pause(); };
}
