// The job pool under a controlled scheduler.
#include "sched.hh"
#include "io_shim.hh"
#include "thread.pool.hh"
#include <map>
#include <set>

static void run(const json& c, const std::string&)
{
    io::nprocs(c.value("hw", 4));
    sched::explore(c.at("explore"), [&] {
        struct
        {
            std::mutex m;
            std::condition_variable cv;
            std::set<int> done;
        } st;
        auto pool = std::make_unique<zarr::ThreadPool>(c.at("n").get<unsigned>(), [](const std::string& m) {
            sched::note({ { "e", "cb" }, { "m", m } });
            sched::point();
        });
        auto* pp = pool.get();
        std::function<void(int)> push = [&](int j) {
            const json& d = c["jobs"].at(std::to_string(j));
            sched::note({ { "e", "push" }, { "j", j } });
            const bool ok = pp->push_job([&, j, d](std::string& err) {
                const bool good = d.value("ok", true);
                sched::note({ { "e", "begin" }, { "j", j } });
                for (int k = 0; k < d.value("yields", 0); ++k) sched::point();
                if (d.contains("pushes"))
                    for (int k : d["pushes"]) push(k);
                if (d.contains("msg")) err = d["msg"].get<std::string>();
                sched::note({ { "e", "end" }, { "j", j }, { "ok", good } });
                {
                    std::scoped_lock l(st.m);
                    st.done.insert(j);
                    st.cv.notify_all();
                }
                return good;
            });
            sched::note({ { "e", "pushed" }, { "j", j }, { "ok", ok } });
        };
        std::map<int, std::thread> pushers;
        for (auto& op : c.at("main")) {
            const std::string w = op.at(0);
            const int x = op.size() > 1 ? op[1].get<int>() : 0;
            if (w == "push") push(x);
            else if (w == "spawn") pushers[x] = std::thread([&, x] { for (int j : c["pushers"].at(std::to_string(x))) push(j); });
            else if (w == "join") { pushers[x].join(); pushers.erase(x); }
            else if (w == "wait") {
                std::unique_lock l(st.m);
                st.cv.wait(l, [&] { return st.done.count(x) > 0; });
            } else if (w == "stop") {
                sched::note({ { "e", "stop" } });
                pp->await_stop();
                sched::note({ { "e", "stopped" } });
            } else if (w == "drop") {
                sched::note({ { "e", "drop" } });
                pool.reset();
                sched::note({ { "e", "gone" } });
            }
        }
        for (auto& [k, t] : pushers) t.join();
    });
}
int main(int argc, char** argv) { return cases::main(argc, argv, run); }
