#pragma once
// An exception that leaves the C interface ends the process.
#define C_CALL(e) ([&]() noexcept { return e; }())
