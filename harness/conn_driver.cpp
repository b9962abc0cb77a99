// The S3 connection pool, and operations that use it, under a controlled scheduler.
#include "sched.hh"
#include "io_shim.hh"
#include "s3.connection.hh"
#include "s3.sink.hh"
#include "sink.creator.hh"
#include <miniocpp/client.h>
#include <map>
#include <set>
#include <thread>

static void run(const json& c, const std::string&)
{
    sched::explore(c.at("explore"), [&] {
        auto& srv = fakes3::Server::get();
        srv.reset();
        srv.buckets["b"];
        const int n = c.at("n");
        auto pool = std::make_shared<zarr::S3ConnectionPool>(n, "http://s3", "id", "key");
        // who is who: the pool is emptied and filled once
        std::map<zarr::S3Connection*, int> ids;
        {
            std::vector<std::unique_ptr<zarr::S3Connection>> all;
            for (int k = 0; k < n; ++k) all.push_back(pool->get_connection());
            for (int k = 0; k < n; ++k) ids[all[k].get()] = k + 1;
            for (int k = n; k-- > 0;) pool->return_connection(std::move(all[k]));
        }
        std::set<int> fail;
        for (auto& x : c.value("fail", json::array())) fail.insert(x.get<int>());
        const bool failall = c.value("failall", false);
        int reqs = 0;
        srv.fail = [&](const fakes3::Request& r, int) { return ++reqs, failall || fail.count(reqs) > 0; };
        srv.on_request = [](const char*) { sched::point(); };
        struct
        {
            std::mutex m;
            std::condition_variable cv;
            std::set<int> set;
        } st;
        auto play = [&](int t, const json& ops) {
            std::vector<std::unique_ptr<zarr::S3Connection>> mine;
            for (auto& op : ops) {
                const std::string w = op.at(0);
                const int x = op.size() > 1 ? op[1].get<int>() : 0;
                if (w == "get") {
                    sched::note({ { "e", "get" }, { "t", t } });
                    auto cn = pool->get_connection();
                    sched::note({ { "e", "got" }, { "t", t }, { "c", ids.count(cn.get()) ? ids[cn.get()] : 0 } });
                    mine.push_back(std::move(cn));
                } else if (w == "use") {
                    for (auto& cn : mine) if (cn) (void)cn->bucket_exists("b");
                } else if (w == "put") {
                    auto cn = std::move(mine.front());
                    mine.erase(mine.begin());
                    const int id = ids.count(cn.get()) ? ids[cn.get()] : 0;
                    sched::note({ { "e", "put" }, { "t", t }, { "c", id } });
                    pool->return_connection(std::move(cn));
                    sched::note({ { "e", "was" }, { "t", t }, { "c", id } });
                } else if (w == "signal") {
                    std::scoped_lock l(st.m);
                    st.set.insert(x);
                    st.cv.notify_all();
                } else if (w == "await") {
                    std::unique_lock l(st.m);
                    st.cv.wait(l, [&] { return st.set.count(x) > 0; });
                } else {
                    // operations of the library that take and return connections themselves
                    sched::note({ { "e", "op" }, { "t", t }, { "w", w } });
                    bool ok = true;
                    try {
                        if (w == "sink") {
                            auto s = std::make_unique<zarr::S3Sink>("b", "k" + std::to_string(t), pool);
                            std::vector<std::byte> d(x, std::byte{ 7 });
                            ok = s->write(0, d);
                            std::unique_ptr<zarr::Sink> b = std::move(s);
                            ok = zarr::finalize_sink(std::move(b)) && ok;
                        } else if (w == "drop") { // given up without finalization
                            zarr::S3Sink s("b", "d" + std::to_string(t), pool);
                            std::vector<std::byte> d(x, std::byte{ 7 });
                            ok = s.write(0, d);
                        } else if (w == "bucket") {
                            zarr::SinkCreator cr(nullptr, pool);
                            ok = cr.make_sink(x ? "b" : "none", "key") != nullptr;
                        } else if (w == "meta") {
                            zarr::SinkCreator cr(nullptr, pool);
                            std::unordered_map<std::string, std::unique_ptr<zarr::Sink>> named;
                            ok = cr.make_metadata_sinks(x, "b", "base", named);
                        }
                    } catch (const std::exception&) {
                        ok = false;
                    }
                    sched::note({ { "e", "done" }, { "t", t }, { "ok", ok } });
                }
            }
        };
        std::vector<std::thread> ts;
        int k = 0;
        for (auto& ops : c.at("threads")) ts.emplace_back([&, k = ++k, &ops = ops] { play(k, ops); });
        for (auto& t : ts) t.join();
        // full strength: all can be taken at once (if not, this never ends)
        std::vector<std::unique_ptr<zarr::S3Connection>> all;
        std::set<zarr::S3Connection*> distinct;
        for (int k = 0; k < n; ++k) {
            all.push_back(pool->get_connection());
            if (all.back()) distinct.insert(all.back().get());
        }
        sched::note({ { "e", "end" }, { "strength", distinct.size() }, { "clashes", srv.busy_violations } });
        for (auto& x : all) pool->return_connection(std::move(x));
        srv.fail = nullptr;
        srv.on_request = nullptr;
    });
}
int main(int argc, char** argv) { return cases::main(argc, argv, run); }
