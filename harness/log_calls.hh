#pragma once
#include <string>
struct LogMessage { int level, shape, line; std::string file, func, text; long n; };
std::string log_call(const LogMessage&);
std::string log_says(const LogMessage&);
std::string log_macro(int level, const std::string& text, int& line, std::string& file, std::string& func);
bool log_set(int);
int log_get();
