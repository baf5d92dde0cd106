// Drives dottorrent::pool::object_pool under vsched.
// stdin: "<id> <cap> <initial> <dfs|rand> <bound> <spurious> <maxexecs> <maxsec> <seed> | owner ops | T1 ops | ..."
// owner ops: get:s  rel:s  cp:s:d  size  close  move  ;  thread ops: rel:s
// slots hand references from one thread to another; `rel:s` waits until slot s is filled.
#include "vsched.hpp"
#include <functional>
#include <dottorrent/object_pool.hpp>
#include <condition_variable>
#include <cstdio>
#include <iostream>
#include <map>
#include <mutex>
#include <sstream>
#include <thread>
#include <optional>

static int next_id = 0;          // only touched by the requesting thread / constructor
static const char* making = "make";

struct resource {
    int id, v = 0;
    int canary = 0x5afe;
    resource() : id(++next_id) { vs::event(std::string("[\"") + making + "\"," + std::to_string(id) + "]"); }
    resource(const resource&) = delete;
    ~resource() { vs::event("[\"kill\"," + std::to_string(id) + "]"); canary = 0xdead; }
};
struct policy {
    static std::shared_ptr<resource> construct() { return std::make_shared<resource>(); }
    static void recycle(std::shared_ptr<resource>& r)
    {
        vs::event("[\"recycle\"," + std::to_string(r ? r->id : -1) + "]");
        if (r) r->v = 0;
    }
};
using pool_t = dottorrent::pool::object_pool<resource, policy>;
struct op { std::string k; int a = 0, b = 0; };

struct slots_t {
    std::mutex m; std::condition_variable cv;
    std::map<int, std::shared_ptr<resource>> s;
    void put(int k, std::shared_ptr<resource> p) { { std::unique_lock l(m); s[k] = std::move(p); } cv.notify_all(); }
    std::shared_ptr<resource> take(int k)
    {
        std::unique_lock l(m);
        cv.wait(l, [&] { return s.count(k) > 0; });
        auto r = std::move(s[k]); s.erase(k);
        return r;
    }
};

static int counts[64];
static void drop(std::shared_ptr<resource> p)
{
    int id = p->id;
    if (p.use_count() == 1) { if (p->v != 1000 + id || p->canary != 0x5afe) vs::event("[\"corrupt\"," + std::to_string(id) + "]"); }
    std::string tok = std::to_string(id) + "," + std::to_string(vs::self() * 1000 + ++counts[vs::self()]) + "]";
    vs::event("[\"drop\"," + tok);
    p.reset();
    vs::event("[\"dropped\"," + tok);
}

int main(int argc, char** argv)
{
    std::vector<uint8_t> replay; bool do_replay = argc > 1;
    if (do_replay) { std::istringstream is(argv[1]); int x; while (is >> x) replay.push_back((uint8_t)x); }
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        std::vector<std::string> parts; std::string cell; std::istringstream ls(line);
        while (std::getline(ls, cell, '|')) parts.push_back(cell);
        std::istringstream hs(parts[0]);
        std::string id, mode; int cap, initial; vs::options o;
        hs >> id >> cap >> initial >> mode >> o.bound >> o.spurious >> o.max_execs >> o.max_seconds >> o.seed;
        o.random = mode == "rand";
        std::vector<std::vector<op>> prog;
        for (size_t i = 1; i < parts.size(); ++i) {
            std::istringstream os(parts[i]); std::string w; std::vector<op> v;
            while (os >> w) { op x; char k[32] = ""; sscanf(w.c_str(), "%31[^:]:%d:%d", k, &x.a, &x.b); x.k = k; v.push_back(x); }
            prog.push_back(v);
        }
        auto body = [&] {
            next_id = 0;
            for (auto& c : counts) c = 0;
            slots_t slots;
            making = "new";
            std::optional<pool_t> pool;
            if (initial < 0) pool.emplace(cap); else pool.emplace(cap, initial);
            making = "make";
            auto close = [&] { if (pool) { vs::event("[\"close\"]"); pool.reset(); } };
            std::vector<std::thread> th;
            for (size_t i = 1; i < prog.size(); ++i)
                th.emplace_back([&, i] {
                    for (auto& o : prog[i]) { auto p = slots.take(o.a); drop(std::move(p)); }
                });
            for (auto& o : prog[0]) {
                if (o.k == "get") {
                    vs::event("[\"get\"]");
                    auto p = pool->get();
                    if (!p) { vs::event("[\"null\"]"); continue; }
                    vs::event("[\"got\"," + std::to_string(p->id) + "]");
                    if (p->v != 0 || p->canary != 0x5afe) vs::event("[\"corrupt\"," + std::to_string(p->id) + "]");
                    p->v = 1000 + p->id;
                    // every reference to it is made before any of them is handed on
                    std::vector<std::pair<int, std::shared_ptr<resource>>> refs;
                    for (auto& c : prog[0]) if (c.k == "cp" && c.a == o.a) { vs::event("[\"share\"," + std::to_string(p->id) + "]"); refs.emplace_back(c.b, p); }
                    refs.emplace_back(o.a, std::move(p));
                    for (auto& [k, r] : refs) slots.put(k, std::move(r));
                }
                else if (o.k == "cp") {}   // done by the get
                else if (o.k == "rel") { auto p = slots.take(o.a); drop(std::move(p)); }
                else if (o.k == "size") { vs::event("[\"size\"]"); auto n = pool->size(); vs::event("[\"sized\"," + std::to_string(n) + "]"); }
                else if (o.k == "close") close();
                else if (o.k == "move") { pool_t q = std::move(*pool); pool.reset(); pool.emplace(std::move(q)); }
            }
            for (auto& t : th) t.join();
            close();
            for (auto& [k, p] : slots.s) drop(std::move(p));
            vs::event("[\"end\"]");
        };
        auto emit = [&](const vs::outcome& out) {
            std::string h = out.events; if (!h.empty()) h.pop_back();
            for (auto& c : h) if (c == '\n') c = ',';
            std::string m; for (char c : out.message) if (c == '\n') m += "; "; else if (c == '"' || c == '\\') m += '\''; else if ((unsigned char)c >= 32) m += c;
            std::string ch; for (auto c : out.choices) ch += std::to_string(c) + " ";
            printf("{\"id\":\"%s\",\"cap\":%d,\"st\":\"%s\",\"race\":%d,\"msg\":\"%s\",\"h\":[%s],\"sched\":\"%s\"}\n",
                   id.c_str(), cap, vs::to_string(out.st), (int)out.race, m.c_str(), h.c_str(), ch.c_str());
            return true;
        };
        if (do_replay) { emit(vs::replay(body, o, replay)); continue; }
        auto st = vs::explore(body, o, emit);
        printf("{\"id\":\"%s\",\"summary\":1,\"execs\":%lu,\"distinct\":%zu,\"steps\":%lu,\"exhausted\":%d}\n", id.c_str(),
               (unsigned long)st.execs, (size_t)st.distinct, (unsigned long)st.steps, (int)st.exhausted);
        fflush(stdout);
    }
}
