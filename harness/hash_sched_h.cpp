// Hashers in several threads under vsched.
// stdin: "<id> <dfs|rand> <bound> <spurious> <maxexecs> <maxsec> <seed> | alg ops | alg ops ..." ; ops: c u<part> f d
#include "vsched.hpp"
#include <algorithm>
#include <iostream>
#include <memory>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <vector>
#include <dottorrent/hasher/openssl_hasher.hpp>
namespace dt = dottorrent;
int main(int argc, char** argv)
{
    std::vector<uint8_t> replay; bool do_replay = argc > 1;
    if (do_replay) { std::istringstream is(argv[1]); int x; while (is >> x) replay.push_back((uint8_t)x); }
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        std::vector<std::string> parts; std::string cell; std::istringstream ls(line);
        while (std::getline(ls, cell, '|')) parts.push_back(cell);
        std::istringstream hs(parts[0]); std::string id, mode; vs::options o;
        hs >> id >> mode >> o.bound >> o.spurious >> o.max_execs >> o.max_seconds >> o.seed; o.random = mode == "rand";
        std::vector<std::pair<dt::hash_function, std::vector<std::string>>> prog;
        for (size_t i = 1; i < parts.size(); ++i) {
            std::istringstream os(parts[i]); std::string a, w; os >> a; std::vector<std::string> v; while (os >> w) v.push_back(w);
            auto f = dt::make_hash_function(a);
            prog.emplace_back(f.value_or(dt::hash_function::sha1), v);
        }
        auto body = [&] {
            std::vector<std::thread> th;
            for (size_t k = 0; k < prog.size(); ++k)
                th.emplace_back([&, k] {
                    std::unique_ptr<dt::single_buffer_hasher> h; std::string K = std::to_string(k + 1);
                    for (auto& w : prog[k].second) {
                        if (w == "c") { h = std::make_unique<dt::openssl_hasher>(prog[k].first); vs::event("[\"c\"," + K + "]"); }
                        else if (w == "d") { h.reset(); vs::event("[\"d\"," + K + "]"); }
                        else if (w == "f") {
                            std::byte buf[64]{}; size_t n = prog[k].first == dt::hash_function::sha256 ? 32 : prog[k].first == dt::hash_function::md5 ? 16 : 20;
                            h->finalize_to(std::span(buf, n));
                            std::string s; for (size_t i = 0; i < n; ++i) { char b[3]; snprintf(b, 3, "%02x", (unsigned)buf[i]); s += b; }
                            vs::event("[\"f\"," + K + ",\"" + s + "\"]");
                        }
                        else { char c = w[1]; h->update(std::string_view(&c, 1)); vs::event("[\"u\"," + K + "," + std::string(1, c) + "]"); }
                    }
                });
            for (auto& t : th) t.join();
        };
        auto emit = [&](const vs::outcome& out) {
            std::string h = out.events; if (!h.empty()) h.pop_back();
            for (auto& c : h) if (c == '\n') c = ',';
            std::string m; for (char c : out.message) if (c == '\n') m += "; "; else if (c == '"' || c == '\\') m += '\''; else if ((unsigned char)c >= 32) m += c;
            std::string ch; for (auto c : out.choices) ch += std::to_string(c) + " ";
            printf("{\"id\":\"%s\",\"st\":\"%s\",\"race\":%d,\"msg\":\"%s\",\"h\":[%s],\"sched\":\"%s\"}\n", id.c_str(), vs::to_string(out.st), (int)out.race, m.c_str(), h.c_str(), ch.c_str());
            return true;
        };
        if (do_replay) { emit(vs::replay(body, o, replay)); continue; }
        auto st = vs::explore(body, o, emit);
        printf("{\"id\":\"%s\",\"summary\":1,\"execs\":%lu,\"distinct\":%zu,\"steps\":%lu,\"exhausted\":%d}\n", id.c_str(), (unsigned long)st.execs, (size_t)st.distinct, (unsigned long)st.steps, (int)st.exhausted);
        fflush(stdout);
    }
}
