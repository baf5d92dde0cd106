// Drives dottorrent::concurrent_queue under vsched.
// stdin lines: "<id> <capacity> <dfs|rand> <bound> <spurious> <maxexecs> <maxsec> <seed> | ops of T1 | ops of T2 | ..."
// a first part starting with '@' is run by the main thread before the others start
// ops: push:v  pushc:v (copying)  try:v  pop  trypop  size  cap:n      (values are positive ints)
// stdout: one JSON line per distinct history + a summary line per program.
#include "vsched.hpp"
#include <dottorrent/concurrent_queue.hpp>
#include <cstdio>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <thread>

struct item {
    int v = 0;
    item() = default;
    explicit item(int x) : v(x) {}
    item(const item& o) = default;
    item& operator=(const item& o) = default;
    item(item&& o) noexcept : v(o.v) { o.v = -1; }
    item& operator=(item&& o) noexcept { if (this != &o) { v = o.v; o.v = -1; } return *this; }
};
using queue_t = dottorrent::concurrent_queue<item>;
struct op { std::string k; int a; };

static void ev(int t, const char* ph, const std::string& k, int v)
{
    vs::event("[" + std::to_string(t) + ",\"" + ph + "\",\"" + k + "\"," + std::to_string(v) + "]");
}

static void run_op(queue_t& q, int t, const op& o)
{
    std::string k = o.k == "pushc" ? "push" : o.k;
    ev(t, "inv", k, o.a);
    int r = 0;
    if (o.k == "push") { item i(o.a); q.push(std::move(i)); }
    else if (o.k == "pushc") { const item i(o.a); q.push(i); r = i.v == o.a ? 0 : -2; }
    else if (o.k == "try") { item i(o.a); r = q.try_push(std::move(i)) ? 1 : 0; if (!r && i.v != o.a) r = -3; }
    else if (o.k == "pop") { item i; q.pop(i); r = i.v; }
    else if (o.k == "trypop") { item i(-7); r = q.try_pop(i) ? i.v : (i.v == -7 ? 0 : -4); }
    else if (o.k == "size") r = (int)q.size();
    else if (o.k == "cap") q.set_capacity((size_t)o.a);
    ev(t, "res", k, r);
}

// sequential replay: "<cap> op:arg ..." -> "ret/size ..." (an operation that would block ends the process: alarm)
static int seq_main()
{
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line); int cap; is >> cap;
        queue_t q(cap); std::string w;
        while (is >> w) {
            auto c = w.find(':'); std::string k = w.substr(0, c); int a = atoi(w.c_str() + c + 1), r = 0;
            if (k == "push") { if (q.size() > 1000) return 1; item i(a); q.push(std::move(i)); }
            else if (k == "pushc") { const item i(a); q.push(i); r = i.v == a ? 0 : -2; }
            else if (k == "try") { item i(a); r = q.try_push(std::move(i)) ? 1 : 0; if (!r && i.v != a) r = -3; }
            else if (k == "pop") { item i; q.pop(i); r = i.v; }
            else if (k == "trypop") { item i(-7); r = q.try_pop(i) ? i.v : (i.v == -7 ? 0 : -4); }
            else if (k == "size") r = (int)q.size();
            else if (k == "cap") q.set_capacity((size_t)a);
            printf("%d/%d ", r, (int)q.size());
        }
        printf("\n");
        fflush(stdout);
    }
    return 0;
}

int main(int argc, char** argv)
{
    if (argc > 1 && std::string(argv[1]) == "--seq") return seq_main();
    std::vector<uint8_t> replay;
    bool do_replay = argc > 1;
    if (do_replay) { std::istringstream is(argv[1]); int x; while (is >> x) replay.push_back((uint8_t)x); }
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        std::vector<std::string> parts; std::string cell;
        std::istringstream ls(line);
        while (std::getline(ls, cell, '|')) parts.push_back(cell);
        std::istringstream hs(parts[0]);
        std::string id, mode; int cap; vs::options o;
        hs >> id >> cap >> mode >> o.bound >> o.spurious >> o.max_execs >> o.max_seconds >> o.seed;
        o.random = mode == "rand";
        std::vector<std::vector<op>> prog;
        std::vector<op> pre;
        for (size_t i = 1; i < parts.size(); ++i) {
            std::istringstream os(parts[i]); std::string w; std::vector<op> v;
            while (os >> w) { auto c = w.find(':'); v.push_back({ w.substr(0, c), c == w.npos ? 0 : atoi(w.c_str() + c + 1) }); }
            if (!v.empty() && v[0].k == "@") pre.assign(v.begin() + 1, v.end());
            else prog.push_back(v);
        }
        auto body = [&] {
            queue_t q(cap);
            for (auto& o : pre) run_op(q, 0, o);
            {
                std::vector<std::thread> th;
                for (size_t i = 0; i < prog.size(); ++i)
                    th.emplace_back([&, i] { for (auto& o : prog[i]) run_op(q, (int)i + 1, o); });
                for (auto& t : th) t.join();
            }
            // final observation: drain
            run_op(q, 0, { "size", 0 });
            for (int i = 0; i < 40; ++i) {
                item x(-7); ev(0, "inv", "trypop", 0);
                bool ok = q.try_pop(x); ev(0, "res", "trypop", ok ? x.v : 0);
                if (!ok) break;
            }
        };
        auto emit = [&](const vs::outcome& out) {
            std::string h = out.events; if (!h.empty()) h.pop_back();
            for (auto& c : h) if (c == '\n') c = ',';
            std::string m; for (char c : out.message) if (c == '\n') m += "; "; else if (c == '"' || c == '\\') m += '\''; else if ((unsigned char)c >= 32) m += c;
            std::string ch; for (auto c : out.choices) ch += std::to_string(c) + " ";
            printf("{\"id\":\"%s\",\"cap\":%d,\"st\":\"%s\",\"race\":%d,\"msg\":\"%s\",\"h\":[%s],\"sched\":\"%s\"}\n",
                   id.c_str(), cap, vs::to_string(out.st), (int)out.race, m.c_str(), h.c_str(), ch.c_str());
            return true;
        };
        if (do_replay) { emit(vs::replay(body, o, replay)); continue; }
        auto st = vs::explore(body, o, emit);
        printf("{\"id\":\"%s\",\"summary\":1,\"execs\":%lu,\"distinct\":%zu,\"steps\":%lu,\"exhausted\":%d}\n", id.c_str(),
               (unsigned long)st.execs, (size_t)st.distinct, (unsigned long)st.steps, (int)st.exhausted);
        fflush(stdout);
    }
}
