// The stages of the pipeline, each on its own (chunk readers, chunk hashers, piece writers, piece verifiers). argv[1]: scratch directory; one case per line:
//   <id> <read|hash|sum|write|verify> key=value ...
// keys: proto piece threads cap multi ; files size, p<size> (padding) or m<size> (missing), comma separated ; queues chunk (read) ; items (hash: piece:file:from:to:data ; others: 1:index:seed or 2:file:leaf:seed) ;
//   v1 v2 (stored hashes, verify) ; ops start g<item> stop cancel early wait p<n>, for readers also badstart badwait again ; with vsched also: mode bound execs sec seed
// Answers what the stage says of itself after each call, and the result.
#include <algorithm>
#include <atomic>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <filesystem>
#include <fstream>
#include <unistd.h>
#include <openssl/sha.h>
#include <dottorrent/v1_chunk_reader.hpp>
#include <dottorrent/v2_chunk_reader.hpp>
#include <dottorrent/v1_chunk_hasher_sb.hpp>
#include <dottorrent/v2_chunk_hasher_sb.hpp>
#ifdef DOTTORRENT_USE_ISAL
#include <dottorrent/v1_chunk_hasher_mb.hpp>
#include <dottorrent/v2_chunk_hasher_mb.hpp>
#endif
#include <dottorrent/v1_checksum_hasher.hpp>
#include <dottorrent/v2_checksum_hasher.hpp>
#include <dottorrent/v1_piece_verifier.hpp>
#include <dottorrent/v1_piece_writer.hpp>
#include <dottorrent/v2_piece_verifier.hpp>
#include <dottorrent/v2_piece_writer.hpp>
#ifdef VSCHED
#include "vsched.hpp"
#endif
namespace dt = dottorrent;
static std::vector<std::string> split(const std::string& s, char c)
{ std::vector<std::string> r; std::string x; std::istringstream is(s); while (std::getline(is, x, c)) r.push_back(x); return r; }
template <typename R> static std::string hex(const R& h)
{ std::string s; const char* d = "0123456789abcdef"; for (auto c : h) { auto u = (unsigned)(unsigned char)c; s += d[u >> 4]; s += d[u & 15]; } return s; }
template <typename H> static H unhex(const std::string& s)
{ H h {}; for (size_t i = 0; i < H::size(); ++i) h.data()[i] = std::byte(std::stoi(s.substr(2 * i, 2), nullptr, 16)); return h; }
template <typename H> static H token(long t)
{ H h {}; for (size_t i = 0; i < H::size(); ++i) h.data()[i] = std::byte((t * 37 + i * 11 + (t >> 8) * 5 + 1) & 0xff); return h; }
static std::byte content(size_t f, size_t x) { return std::byte((x * 131 + (x >> 8) * 7 + (x >> 13) * 29 + f * 57 + 3) & 0xff); }

struct case_t {
    std::string id, mode; std::map<std::string, std::string> k;
    long num(const char* n, long d) const { auto i = k.find(n); return i == k.end() ? d : std::stol(i->second); }
    std::string str(const char* n, const char* d = "") const { auto i = k.find(n); return i == k.end() ? d : i->second; }
};
static void ev_raw(std::string& log, const std::string& s)
{
#ifdef VSCHED
    (void)log; vs::event(s);
#else
    if (!log.empty()) log += ","; log += s;
#endif
}
template <typename P, typename G> static void life(std::unique_ptr<P>& p, const case_t& c, G give, std::string& log)
{
    std::thread waiter; std::atomic<int> back {0};
    for (auto& o : split(c.str("ops"), ',')) {
        if (o == "start") p->start();
        else if (o == "stop") p->request_stop();
        else if (o == "cancel") p->request_cancellation();
        else if (o == "early") waiter = std::thread([&] { p->wait(); back.store(1); });
        else if (o == "wait") { if (waiter.joinable()) waiter.join(); p->wait(); }
        else if (o[0] == 'g') give(std::stoul(o.substr(1)) - 1);
        else if (o[0] == 'p') {
#ifdef VSCHED
            for (int i = std::stoi(o.substr(1)); i > 0; --i) vs::point();
#else
            usleep(std::stoi(o.substr(1)) * 200);
#endif
            continue;
        }
        ev_raw(log, "[\"" + o + "\"," + std::to_string(p->started()) + "," + std::to_string(p->running()) + "," + std::to_string(p->cancelled()) + "," + std::to_string(p->done()) + "," + std::to_string(back.load()) + "]");
    }
    if (waiter.joinable()) waiter.join();
}
static std::string scratch;
static void read_case(const case_t& c, dt::file_storage& st, std::string& log)
{
    using queue = dt::concurrent_queue<dt::data_chunk>;
    std::unique_ptr<dt::chunk_reader> p;
    size_t piece = st.piece_size(), chunk = c.num("chunk", piece), pool = c.num("cap", 2);
    if (c.str("proto") == "v1") p = std::make_unique<dt::v1_chunk_reader>(st, chunk, pool); else p = std::make_unique<dt::v2_chunk_reader>(st, chunk, pool);
    std::vector<std::shared_ptr<queue>> qs; std::vector<std::thread> th; long n = c.num("queues", 1); std::vector<std::string> out(n);
    for (long i = 0; i < n; ++i) {
        qs.push_back(std::make_shared<queue>(c.num("threads", 1)));
        if (i == 1) p->register_checksum_queue(qs[i]); else p->register_hash_queue(qs[i]);
    }
    for (long i = 0; i < n; ++i) {
        th.emplace_back([&, i] {
            for (dt::data_chunk d;;) {
                qs[i]->pop(d); if (d.piece_index == 0xffffffff && d.file_index == 0xffffffff) break;
                auto where = [&](size_t k) { return (c.str("proto") == "v1" ? std::string("0") : std::to_string(d.file_index + 1)) + ":" + std::to_string(d.piece_index + k) + ":"; };
                if (!d.data) out[i] += where(0) + "- ";
                else for (size_t k = 0; k * piece < d.data->size(); ++k) {
                    unsigned char md[20]; size_t len = std::min(piece, d.data->size() - k * piece); SHA1((const unsigned char*)d.data->data() + k * piece, len, md);
                    out[i] += where(k) + std::to_string(len) + ":" + hex(md) + " ";
                }
                d.data.reset();
            }
        });
    }
    for (auto o : split(c.str("ops"), ',')) {
        if (o.starts_with("bad")) { try { o == "badstart" ? p->start() : p->wait(); o += "!"; } catch (const std::exception&) {} }
        else if (o == "start" || o == "again") p->start(); else if (o == "cancel") p->request_cancellation(); else if (o == "wait") p->wait();
        else if (o[0] == 'p') {
#ifdef VSCHED
            for (int i = std::stoi(o.substr(1)); i > 0; --i) vs::point();
#else
            usleep(std::stoi(o.substr(1)) * 20);
#endif
            continue;
        }
        ev_raw(log, "[\"" + o + "\"," + std::to_string(p->started()) + ",2," + std::to_string(p->cancelled()) + "," + std::to_string(p->done()) + ",0]");
    }
    std::string r = std::to_string(p->bytes_read()); p->rethrow_error(); p.reset();
    for (auto& q : qs) q->push({0xffffffff, 0xffffffff, nullptr});
    for (auto& t : th) t.join();
    for (auto& x : out) r += ";" + x;
    ev_raw(log, "[\"result\",\"" + r + "\"]");
}
static std::string run(const case_t& c)
{
    std::string log;
    dt::file_storage st; size_t n = 0; if (c.mode == "read") st.set_root_directory(std::filesystem::path(scratch));
    for (auto& f : split(c.str("files"), ',')) {
        if (f[0] == 'p') st.add_file(dt::make_padding_file_entry(std::stoul(f.substr(1))));
        else st.add_file(dt::file_entry("f" + std::to_string(n), std::stoul(f[0] == 'm' ? f.substr(1) : f)));
        ++n;
    }
    st.set_piece_size(c.num("piece", 16384));
    if (c.mode == "read") { read_case(c, st, log); return log; }
    auto proto = c.str("proto"); size_t threads = c.num("threads", 1), cap = c.num("cap", 1);
    std::vector<std::vector<long>> items;
    for (auto& i : split(c.str("items"), ',')) { items.emplace_back(); for (auto& x : split(i, ':')) items.back().push_back(std::stol(x)); }
#ifdef DOTTORRENT_USE_ISAL
    isal_shim::lanes = c.num("lanes", 8); isal_shim::order = c.num("order", 0);
#endif
    std::ostringstream r;
    if (c.mode == "hash") {
        std::unique_ptr<dt::chunk_processor_base> p;
#ifdef DOTTORRENT_USE_ISAL
        if (c.num("multi", 0)) { if (proto == "v1") p = std::make_unique<dt::v1_chunk_hasher_mb>(st, cap, threads); else p = std::make_unique<dt::v2_chunk_hasher_mb>(st, cap, proto == "hybrid", threads); }
        else
#endif
        if (proto == "v1") p = std::make_unique<dt::v1_chunk_hasher_sb>(st, cap, threads); else p = std::make_unique<dt::v2_chunk_hasher_sb>(st, cap, proto == "hybrid", threads);
        auto q1 = std::make_shared<dt::concurrent_queue<std::optional<dt::v1_hashed_piece>>>(100000);
        auto q2 = std::make_shared<dt::concurrent_queue<std::optional<dt::v2_hashed_piece>>>(100000);
        if (proto != "v2") p->register_v1_hashed_piece_queue(q1);
        if (proto != "v1") p->register_v2_hashed_piece_queue(q2);
        life(p, c, [&](size_t i) {
            auto& x = items.at(i); dt::data_chunk d; d.piece_index = x[0]; d.file_index = x[1];
            if (x[4]) { d.data = std::make_shared<dt::data_chunk::data_type>(x[3] - x[2]); for (long k = x[2]; k < x[3]; ++k) (*d.data)[k - x[2]] = content(x[1], k); }
            p->get_queue()->push(std::move(d));
        }, log);
        auto hashed = p->bytes_hashed(), done = p->bytes_done();
        p.reset();
        std::vector<std::string> out; std::optional<dt::v1_hashed_piece> a; std::optional<dt::v2_hashed_piece> b;
        while (q1->try_pop(a)) out.push_back(a ? "1:" + std::to_string(a->index) + ":" + hex(a->hash) : "1:none");
        while (q2->try_pop(b)) out.push_back(b ? "2:" + std::to_string(b->file_index) + ":" + std::to_string(b->leaf_index) + ":" + hex(b->hash) : "2:none");
        std::sort(out.begin(), out.end());
        r << done << " " << hashed; for (auto& x : out) r << " " << x;
    } else if (c.mode == "sum") {
        std::unique_ptr<dt::chunk_processor_base> p; auto f = dt::make_hash_function(c.str("alg")).value();
        if (proto == "v1") p = std::make_unique<dt::v1_checksum_hasher>(st, f, cap); else p = std::make_unique<dt::v2_checksum_hasher>(st, f, cap);
        std::vector<std::byte> whole; std::size_t k = 0; if (proto == "v1") for (auto& e : st) { for (std::size_t x = 0; x < e.file_size(); ++x) whole.push_back(e.is_padding_file() ? std::byte(0) : content(k, x)); ++k; }
        life(p, c, [&](size_t i) {
            auto& x = items.at(i); dt::data_chunk d; d.piece_index = x[0]; d.file_index = x[1];
            if (x[4]) { d.data = std::make_shared<dt::data_chunk::data_type>(x[3] - x[2]); for (long k = x[2]; k < x[3]; ++k) (*d.data)[k - x[2]] = proto == "v1" ? whole.at(k) : content(x[1], k); }
            p->get_queue()->push(std::move(d));
        }, log);
        r << p->bytes_hashed() << " "; p.reset();
        for (auto& e : st) { for (auto& [n, v] : e.checksums()) r << n << ":" << hex(v->value()); r << ","; }
    } else {
        std::unique_ptr<dt::hashed_piece_processor> p; dt::hashed_piece_verifier* v = nullptr;
        if (proto != "v2") st.allocate_pieces();
        if (c.mode == "write") {
            if (proto == "v1") p = std::make_unique<dt::v1_piece_writer>(st, cap, threads); else p = std::make_unique<dt::v2_piece_writer>(st, cap, proto == "hybrid", threads);
        } else {
            if (auto w = c.str("v1"); !w.empty()) for (size_t i = 0; i < st.piece_count(); ++i) st.set_piece_hash(i, unhex<dt::sha1_hash>(w.substr(40 * i, 40)));
            for (auto& x : split(c.str("v2"), ',')) {
                auto eq = x.find('='), sl = x.find('/'); auto& e = st[std::stoul(x.substr(0, eq))];
                e.set_pieces_root(unhex<dt::sha256_hash>(x.substr(eq + 1, 64)));
                std::vector<dt::sha256_hash> l; for (size_t i = sl + 1; i + 64 <= x.size(); i += 64) l.push_back(unhex<dt::sha256_hash>(x.substr(i, 64)));
                e.set_piece_layer(l);
            }
            if (proto == "v1") { auto o = std::make_unique<dt::v1_piece_verifier>(st, cap, threads); v = o.get(); p = std::move(o); }
            else { auto o = std::make_unique<dt::v2_piece_verifier>(st, cap, threads); v = o.get(); p = std::move(o); }
        }
        life(p, c, [&](size_t i) {
            auto& x = items.at(i);
            if (x[0] == 1) p->get_v1_queue()->push(dt::v1_hashed_piece{.hash = token<dt::sha1_hash>(x[2]), .index = (size_t)x[1]});
            else p->get_v2_queue()->push(dt::v2_hashed_piece{.hash = token<dt::sha256_hash>(x[3]), .file_index = (size_t)x[1], .leaf_index = (size_t)x[2]});
        }, log);
        if (v) {
            for (auto x : v->result()) r << (int)x;
            r << " "; for (size_t i = 0; i < st.file_count(); ++i) { char b[32]; snprintf(b, sizeof b, "%.4f,", v->percentage(i)); r << b; }
        }
        p.reset();
        if (c.mode == "write") {
            for (auto& x : st.pieces()) r << hex(x) << ","; r << " ";
            for (auto& e : st) { if (e.has_v2_data()) { r << hex(e.pieces_root()) << "/"; for (auto& l : e.piece_layer()) r << hex(l); } else r << "-"; r << ","; }
        }
    }
    ev_raw(log, "[\"result\",\"" + r.str() + "\"]");
    return log;
}
static void make_files(const case_t& c)
{
    auto dir = std::filesystem::path(scratch); std::filesystem::remove_all(dir); std::filesystem::create_directories(dir);
    size_t n = 0;
    for (auto& f : split(c.str("files"), ',')) {
        if (isdigit(f[0])) { std::ofstream o(dir / ("f" + std::to_string(n)), std::ios::binary); std::string d; size_t s = std::stoul(f); for (size_t x = 0; x < s; ++x) d += (char)content(n, x); o << d; }
        ++n;
    }
}
int main(int argc, char** argv)
{
    scratch = std::string(argv[1]) + "/w" + std::to_string(getpid());
    std::vector<uint8_t> replay; bool do_replay = argc > 2; (void)do_replay;
    if (do_replay) { std::istringstream is(argv[2]); int x; while (is >> x) replay.push_back((uint8_t)x); }
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) { std::cout << std::endl; continue; }
        case_t c; { std::istringstream is(line); std::string w; is >> c.id >> c.mode; while (is >> w) { auto e = w.find('='); c.k[w.substr(0, e)] = w.substr(e + 1); } }
        if (c.mode == "read") make_files(c);
#ifdef VSCHED
        vs::options o; o.bound = c.num("bound", 1); o.spurious = c.num("spurious", 0); o.max_execs = c.num("execs", 1); o.max_seconds = c.num("sec", 5); o.seed = c.num("seed", 1);
        auto mode = c.str("mode", "rand"); o.random = mode != "dfs"; o.pct = mode == "pct"; o.step_limit = c.num("steps", 20000);
        auto body = [&] { (void)run(c); };
        auto emit = [&](const vs::outcome& out) {
            std::string h = out.events; if (!h.empty()) h.pop_back();
            for (auto& x : h) if (x == '\n') x = ',';
            std::string m; for (char x : out.message) if (x == '\n') m += "; "; else if (x == '"' || x == '\\') m += '\''; else if ((unsigned char)x >= 32) m += x;
            std::string ch; for (auto x : out.choices) ch += std::to_string(x) + " ";
            printf("{\"id\":\"%s\",\"st\":\"%s\",\"race\":%d,\"msg\":\"%s\",\"h\":[%s],\"sched\":\"%s\"}\n", c.id.c_str(), vs::to_string(out.st), (int)out.race, m.c_str(), h.c_str(), ch.c_str());
            return true;
        };
        if (do_replay) emit(vs::replay(body, o, replay));
        else {
            auto st = vs::explore(body, o, emit);
            printf("{\"id\":\"%s\",\"summary\":1,\"execs\":%lu,\"distinct\":%zu,\"steps\":%lu,\"exhausted\":%d}\n", c.id.c_str(),
                   (unsigned long)st.execs, (size_t)st.distinct, (unsigned long)st.steps, (int)st.exhausted);
        }
        fflush(stdout);
#else
        std::string out;
        try { out = run(c); } catch (const std::exception& e) { out = std::string("[\"exception\",\"") + e.what() + "\"]"; }
        std::cout << "[" << out << "]" << std::endl;
#endif
    }
    std::filesystem::remove_all(std::filesystem::path(scratch));
}
