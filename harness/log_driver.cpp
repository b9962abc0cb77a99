// The log under a controlled scheduler, its two streams captured. Operations of
// standard streams are schedule points.
#include "log_calls.hh"
#include "sched.hh"
#include <dlfcn.h>
#include <map>
#include <sys/mman.h>
#include <sys/stat.h>
#include <thread>

#define PT(ret, name, args, call)                                                                                     \
    extern "C" ret name args                                                                                           \
    {                                                                                                                  \
        static auto f = (ret(*) args)dlsym(RTLD_NEXT, #name);                                                          \
        if (sched::active()) sched::point();                                                                           \
        return f call;                                                                                                 \
    }
PT(size_t, fwrite, (const void* p, size_t a, size_t b, FILE* f_), (p, a, b, f_))
PT(int, putc, (int ch, FILE* f_), (ch, f_))
PT(int, fputc, (int ch, FILE* f_), (ch, f_))
PT(int, fputs, (const char* s, FILE* f_), (s, f_))
PT(int, puts, (const char* s), (s))
PT(int, fflush, (FILE * f_), (f_))

static off_t size(int fd) { struct stat s; return fstat(fd, &s) ? -1 : s.st_size; }
static std::string all(int fd)
{
    std::string s(size(fd), '\0');
    size_t at = 0;
    while (at < s.size()) {
        auto n = pread(fd, s.data() + at, s.size() - at, at);
        if (n <= 0) break;
        at += n;
    }
    return s;
}
static void run(const json& c, const std::string&)
{
    sched::explore(c.at("explore"), [&] {
        const int o = memfd_create("out", 0), e = memfd_create("err", 0);
        dup2(o, 1);
        dup2(e, 2);
        std::map<int, LogMessage> ms;
        std::map<int, std::string> said;
        std::map<int, std::string> expect;
        for (auto& [k, m] : c.at("messages").items()) {
            LogMessage x{ m["l"], m["shape"], m["line"], m["file"], m["func"], m["text"], m["n"] };
            if (m.contains("pad")) x.text += std::string(m["pad"].get<size_t>(), 'p');
            ms[std::stoi(k)] = x;
            if (x.shape >= 0) expect[std::stoi(k)] = log_says(x);
        }
        // containers the threads use are filled before they start
        for (auto& [k, m] : ms) said[k];
        auto play = [&](int t, const json& ops) {
            for (auto& op : ops) {
                const std::string w = op.at(0);
                const int x = op.size() > 1 ? op[1].get<int>() : 0;
                if (w == "log") {
                    auto& m = ms.at(x);
                    sched::note({ { "e", "log" }, { "t", t }, { "m", x }, { "l", m.level } });
                    if (m.shape < 0) {
                        LogMessage y = m;
                        y.shape = 0;
                        std::string r = log_macro(m.level, m.text, y.line, y.file, y.func);
                        y.text += "1";
                        said[x] = r;
                        expect[x] = log_says(y);
                    } else
                        said[x] = log_call(m);
                    sched::note({ { "e", "logged" }, { "t", t }, { "m", x }, { "said", !said[x].empty() },
                                  { "out", size(o) }, { "err", size(e) } });
                } else if (w == "set") {
                    sched::note({ { "e", "set" }, { "t", t }, { "l", x } });
                    const bool ok = log_set(x);
                    sched::note({ { "e", "wasset" }, { "t", t }, { "ok", ok } });
                } else if (w == "get")
                    sched::note({ { "e", "get" }, { "t", t }, { "l", log_get() } });
            }
        };
        for (auto& [k, m] : ms) if (m.shape < 0) expect[k];
        play(0, c.at("before"));
        std::vector<std::thread> ts;
        int k = 0;
        for (auto& ops : c.at("threads")) ts.emplace_back([&, k = ++k, &ops = ops] { play(k, ops); });
        for (auto& t : ts) t.join();
        play(0, c.at("after"));
        json bad = json::array();
        std::map<int, std::string> seen;
        auto lines = [&](int fd, json& ids, json& ends) {
            const std::string s = all(fd);
            size_t at = 0;
            ids = json::array();
            ends = json::array();
            while (at < s.size()) {
                const auto nl = s.find('\n', at);
                const std::string l = s.substr(at, nl == s.npos ? s.npos : nl - at);
                int id = 0;
                if (nl != s.npos)
                    for (auto& [k, x] : expect) {
                        if (x.empty() || l.size() < x.size() || l.compare(l.size() - x.size(), x.size(), x)) continue;
                        if (l.substr(0, l.size() - x.size()).find('[') == l.npos) { id = k; seen[k] = l; }
                    }
                ids.push_back(id);
                ends.push_back(nl == s.npos ? s.size() : nl + 1);
                at = nl == s.npos ? s.size() : nl + 1;
            }
        };
        json f{ { "e", "end" } };
        lines(o, f["out"], f["outends"]);
        lines(e, f["err"], f["errends"]);
        for (auto& [k, r] : said)
            if (!r.empty() && (!seen.count(k) || seen[k] != r)) bad.push_back(k);
        f["bad"] = bad;
        sched::note(f);
    });
}
int main(int argc, char** argv) { return cases::main(argc, argv, run); }
