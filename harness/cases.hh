// Runs the cases of an input file, each in a forked child:  EXE IN.json OUT.ndjson WORKDIR
#pragma once
#include <nlohmann/json.hpp>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <string>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
using json = nlohmann::json;
namespace cases {
inline int g_out = -1;
inline void emit(const json& j)
{
    const std::string s = j.dump(-1, ' ', false, json::error_handler_t::replace) + "\n";
    size_t at = 0;
    while (at < s.size()) {
        auto n = ::write(g_out, s.data() + at, s.size() - at);
        if (n <= 0) _exit(9);
        at += n;
    }
}
template<typename F> int main(int argc, char** argv, F&& run)
{
    if (argc < 4) return 2;
    json in = json::parse(std::ifstream(argv[1]));
    g_out = ::open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    int hangs = 0;
    for (auto& c : in) {
        const std::string dir = std::string(argv[3]) + "/" + c.at("id").get<std::string>();
        emit({ { "ev", "scenario" }, { "id", c["id"] } });
        if (hangs > 12) { // (a tree on which everything hangs should not take for ever)
            emit({ { "ev", "exit" }, { "how", "hang" }, { "skipped", true } });
            continue;
        }
        fflush(nullptr);
        const pid_t pid = fork();
        if (pid == 0) {
            if (c.value("quiet", true) && !getenv("VERIF_STDERR")) {
                int n = ::open("/dev/null", O_WRONLY);
                dup2(n, 1);
                dup2(n, 2);
            }
#ifndef __SANITIZE_ADDRESS__ // (a tree that takes memory without end should not take the machine's)
            const rlim_t most = c.value("gigabytes", rlim_t(5)) << 30;
            const struct rlimit data{ most, most };
            setrlimit(RLIMIT_DATA, &data);
#endif
            alarm(hangs > 1 ? 2 : c.value("timeout", 20));
            try {
                run(c, dir);
            } catch (const std::bad_alloc&) {
                abort(); // it took all there was
            } catch (const std::exception& e) {
                emit({ { "ev", "driver-error" }, { "what", e.what() } });
                _exit(3);
            }
            fflush(nullptr);
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        json e{ { "ev", "exit" } };
        if (WIFSIGNALED(st)) {
            hangs += WTERMSIG(st) == SIGALRM;
            e["how"] = WTERMSIG(st) == SIGALRM ? "hang" : "signal";
            e["sig"] = WTERMSIG(st);
        } else {
            e["how"] = WEXITSTATUS(st) == 0 ? "ok" : WEXITSTATUS(st) == 77 ? "crashpoint" : "error";
            e["code"] = WEXITSTATUS(st);
        }
        emit(e);
    }
    return 0;
}
}
