// Calls of the log with arguments of every kind, and what each must say.
#include "log_calls.hh"
#include "logger.hh"
#include <cstdio>
#include <iomanip>
#include <string_view>

namespace {
struct Thing { int a; };
std::ostream& operator<<(std::ostream& s, const Thing& t) { return s << "<" << t.a << ">"; }
std::string num(double d) { char b[64]; snprintf(b, sizeof b, "%g", d); return b; }
std::string hex(unsigned long n) { char b[64]; snprintf(b, sizeof b, "%lx", n); return b; }
enum Colour { Red = 7 };
}
std::string log_call(const LogMessage& m)
{
    const auto l = (LogLevel)m.level;
    const char* f = m.file.c_str();
    const char* g = m.func.c_str();
    const std::string& t = m.text;
    const long n = m.n;
    switch (m.shape) {
        case 0: return Logger::log(l, f, m.line, g, t);
        case 1: return Logger::log(l, f, m.line, g, t.c_str(), " = ", n, ", ", -n, '.');
        case 2: return Logger::log(l, f, m.line, g, n, t, std::string("s"), std::string_view("v"), "c");
        case 3: return Logger::log(l, f, m.line, g, t, std::hex, n, " ", 255);
        case 4: return Logger::log(l, f, m.line, g, 1.5, " ", true, " ", 'x', " ", (size_t)-1, " ", (int64_t)-5, t);
        case 5: return Logger::log(l, f, m.line, g, Thing{ 4 }, t, Thing{ (int)n }, Red);
        case 6: return Logger::log(l, f, m.line, g, t, std::setw(6), n, std::setfill('*'), std::setw(4), 1);
        case 7: return Logger::log(l, f, m.line, g, t, "", std::string(), "", n, "");
        case 8: return Logger::log(l, f, m.line, g, t, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, n);
        case 9: return Logger::log(l, f, m.line, g, t, (uint8_t)'u', (short)3, 2.5f, 1e300, -0.25);
        default: return "?";
    }
}
std::string log_says(const LogMessage& m)
{
    const std::string n = std::to_string(m.n), &t = m.text;
    std::string a;
    switch (m.shape) {
        case 0: a = t; break;
        case 1: a = t + " = " + n + ", " + std::to_string(-m.n) + "."; break;
        case 2: a = n + t + "svc"; break;
        case 3: a = t + hex(m.n) + " ff"; break;
        case 4: a = "1.5 1 x " + std::to_string((size_t)-1) + " -5" + t; break;
        case 5: a = "<4>" + t + "<" + n + ">7"; break;
        case 6: a = t + std::string(n.size() < 6 ? 6 - n.size() : 0, ' ') + n + "***1"; break;
        case 7: a = t + n; break;
        case 8: a = t + "123456789101112" + n; break;
        case 9: a = t + "u3" + num(2.5) + num(1e300) + num(-0.25); break;
    }
    static const char* names[] = { "DEBUG", "INFO", "WARNING", "ERROR" };
    const auto slash = m.file.rfind('/');
    return std::string("[") + names[m.level] + "] " +
           (slash == std::string::npos ? m.file : m.file.substr(slash + 1)) + ":" + std::to_string(m.line) + " " + m.func +
           ": " + a;
}
std::string log_macro(int level, const std::string& t, int& line, std::string& file, std::string& func)
{
    file = __FILE__;
    func = __func__;
    switch (level) {
        case 0: line = __LINE__; return LOG_DEBUG(t, 1);
        case 1: line = __LINE__; return LOG_INFO(t, 1);
        case 2: line = __LINE__; return LOG_WARNING(t, 1);
        default: line = __LINE__; return LOG_ERROR(t, 1);
    }
}
bool log_set(int l)
{
    try {
        Logger::set_log_level((LogLevel)l);
        return true;
    } catch (const std::exception&) {
        return false;
    }
}
int log_get() { return (int)Logger::get_log_level(); }
