// Drives dottorrent::concurrent_queue_processor under vsched.
// stdin: "<id> <cap> <workers> <dfs|rand> <bound> <spurious> <maxexecs> <maxsec> <seed> | main ops | T1 ops | ..."
// ops: put:i try:i start stop cancel wait destroy fork join (main only: start / wait for the other threads)
#include "vsched.hpp"
#include <functional>
#include <atomic>
#include <chrono>
#include <algorithm>
#include <optional>
#include <vector>
#include <gsl-lite/gsl-lite.hpp>
#include <dottorrent/concurrent_queue_processor.hpp>
#include <cstdio>
#include <iostream>
#include <sstream>
#include <thread>

struct op { std::string k; int a = 0; };
// a move-only item: a moved-from one has no number, so an item handed over twice or torn shows
struct item_t {
    int v = -1;
    item_t() = default;
    explicit item_t(int x) : v(x) {}
    item_t(item_t&& o) noexcept : v(o.v) { o.v = -1; }
    item_t& operator=(item_t&& o) noexcept { v = o.v; o.v = -1; return *this; }
};
using proc_t = dottorrent::concurrent_queue_processor<item_t>;
static void ev(const char* k) { vs::event(std::string("[\"") + k + "\"]"); }
static void ev(const char* k, int a) { vs::event(std::string("[\"") + k + "\"," + std::to_string(a) + "]"); }

int main(int argc, char** argv)
{
    std::vector<uint8_t> replay; bool do_replay = argc > 1;
    if (do_replay) { std::istringstream is(argv[1]); int x; while (is >> x) replay.push_back((uint8_t)x); }
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        std::vector<std::string> parts; std::string cell; std::istringstream ls(line);
        while (std::getline(ls, cell, '|')) parts.push_back(cell);
        std::istringstream hs(parts[0]);
        std::string id, mode; int cap, workers; vs::options o;
        hs >> id >> cap >> workers >> mode >> o.bound >> o.spurious >> o.max_execs >> o.max_seconds >> o.seed;
        o.random = mode == "rand"; o.step_limit = 6000;
        std::vector<std::vector<op>> prog;
        for (size_t i = 1; i < parts.size(); ++i) {
            std::istringstream os(parts[i]); std::string w; std::vector<op> v;
            while (os >> w) { op x; char k[32] = ""; sscanf(w.c_str(), "%31[^:]:%d", k, &x.a); x.k = k; v.push_back(x); }
            prog.push_back(v);
        }
        auto body = [&] {
            auto pr = std::make_unique<proc_t>(cap);
            auto q = pr->get_queue();
            pr->set_work_function([&](item_t&& x) {
                item_t mine(std::move(x));
                ev("work", mine.v); vs::point(); ev("worked", mine.v);
            });
            pr->set_max_concurrency(workers);
            std::vector<std::thread> th;
            auto act = [&](const op& o) {
                if (o.k == "put") { ev("put", o.a); q->push(item_t(o.a)); ev("putret", o.a); }
                else if (o.k == "start") { ev("start"); pr->start(); ev("started"); }
                else if (o.k == "stop") { ev("stop"); pr->request_stop(); }
                else if (o.k == "cancel") { ev("cancel"); pr->request_cancellation(); }
                else if (o.k == "wait") { ev("wait"); pr->wait(); ev("waited"); ev("done", pr->done()); }
                else if (o.k == "state") { vs::event("[\"state\"," + std::to_string(pr->started() + 2 * pr->cancelled()) + "," + std::to_string(pr->running()) + "," + std::to_string(pr->done()) + "]"); }
                else if (o.k == "destroy") { ev("destroy"); pr.reset(); ev("destroyed"); }
                else if (o.k == "join") { for (auto& t : th) t.join(); th.clear(); }
            };
            auto fork = [&] {
                for (size_t i = 1; i < prog.size(); ++i)
                    th.emplace_back([&, i] { for (auto& o : prog[i]) act(o); });
            };
            bool later = std::any_of(prog[0].begin(), prog[0].end(), [](const op& o) { return o.k == "fork"; });
            if (!later) fork();
            for (auto& o : prog[0]) if (o.k == "fork") fork(); else act(o);
            for (auto& t : th) t.join();
            pr.reset(); q.reset();
            ev("end");
        };
        auto emit = [&](const vs::outcome& out) {
            std::string h = out.events; if (!h.empty()) h.pop_back();
            for (auto& c : h) if (c == '\n') c = ',';
            std::string m; for (char c : out.message) if (c == '\n') m += "; "; else if (c == '"' || c == '\\') m += '\''; else if ((unsigned char)c >= 32) m += c;
            std::string ch; for (auto c : out.choices) ch += std::to_string(c) + " ";
            printf("{\"id\":\"%s\",\"cap\":%d,\"st\":\"%s\",\"race\":%d,\"msg\":\"%s\",\"h\":[%s],\"sched\":\"%s\",\"n\":%d}\n",
                   id.c_str(), cap, vs::to_string(out.st), (int)out.race, m.c_str(), h.c_str(), ch.c_str(), workers);
            return true;
        };
        if (do_replay) { emit(vs::replay(body, o, replay)); continue; }
        auto st = vs::explore(body, o, emit);
        printf("{\"id\":\"%s\",\"summary\":1,\"execs\":%lu,\"distinct\":%zu,\"steps\":%lu,\"exhausted\":%d}\n", id.c_str(),
               (unsigned long)st.execs, (size_t)st.distinct, (unsigned long)st.steps, (int)st.exhausted);
        fflush(stdout);
    }
}
