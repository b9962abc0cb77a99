// Interposed file-system calls: counting, crashing and failing at a chosen
// operation. Only operations on paths below the watched root count.
#pragma once
#include <string>
#include <vector>
namespace io {
enum class Kind { None, Crash, Torn, Fail, Short };
struct Op { const char* what; std::string path; };
void watch(const std::string& root);          // start counting from 0
void unwatch();
void rewatch();                               // go on counting
void plan(Kind kind, long at, int err = 0, long len = 1); // at: 1-based; len < 0: for ever
long count();
long makes();                                 // ... other than removals
long hits();                                  // operations failed so far
std::vector<Op> log();
extern bool logging;                          // whether to keep the log
void nprocs(int n);                           // what get_nprocs reports, 0: real
extern void (*on_op)();                       // called before every counted operation
// Every operation that changed something anywhere in the file system, with the
// real path of what it changed; only while tracing.
void trace(bool on);
std::vector<Op> touched();
}
