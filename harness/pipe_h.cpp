// Hashing and verifying storages. argv[1]: scratch directory holding the contents c0, c1, ... ; one case per line:
//   <id> <hash|verify> key=value ... | name:size:content[+start][:damage,damage] | name:size:S+mark+mark[:flip@mark,...] | pad:size | ...
// keys: proto piece block threads mem sums ops io v1 (hex of the stored piece hashes) v2 (file=root[/layer],...) ; with vsched also: mode bound execs sec seed
// damage: flip@i trunc@n ext@n miss dir ; ops: start wait cancel poll state destroy
// The answer is a list of observations; with VSCHED one line per distinct outcome.
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <sys/syscall.h>
#include <unistd.h>
#include <cstring>
#include <dlfcn.h>
#include <sys/stat.h>
#include <dottorrent/storage_hasher.hpp>
#include <dottorrent/storage_verifier.hpp>
#ifdef VSCHED
#include "vsched.hpp"
#endif
namespace dt = dottorrent;
namespace fs = std::filesystem;

// faults of the storage device: short reads, an error at the n-th read, and a refusal to open the n-th file that has data
static long io_short = 0, io_fail = 0, io_count = 0, io_open = 0, io_opened = 0;
static std::atomic<int> io_failed {0};
extern "C" ssize_t read(int fd, void* b, size_t n)
{
    if (fd > 2 && io_short && (long)n > io_short) n = io_short;
    if (fd > 2 && io_fail && ++io_count == io_fail) { io_failed.store(1, std::memory_order_relaxed); errno = EIO; return -1; }
    return syscall(SYS_read, fd, b, n);
}

extern "C" FILE* fopen(const char* path, const char* mode)
{
    struct stat st;
    if (io_open && strncmp(path, "/proc/", 6) && stat(path, &st) == 0 && S_ISREG(st.st_mode) && st.st_size > 0 && ++io_opened == io_open) { io_failed.store(1, std::memory_order_relaxed); errno = EACCES; return nullptr; }
    static auto real = (FILE* (*)(const char*, const char*))dlsym(RTLD_NEXT, "fopen");
    return real(path, mode);
}

static std::vector<std::string> split(const std::string& s, char c)
{ std::vector<std::string> r; std::string x; std::istringstream is(s); while (std::getline(is, x, c)) r.push_back(x); return r; }
template <typename R> static std::string hex(const R& h)
{ std::string s; const char* d = "0123456789abcdef"; for (auto c : h) { auto u = (unsigned)(unsigned char)c; s += d[u >> 4]; s += d[u & 15]; } return s; }
template <typename H> static H unhex(const std::string& s)
{ H h {}; for (size_t i = 0; i < H::size(); ++i) h.data()[i] = std::byte(std::stoi(s.substr(2 * i, 2), nullptr, 16)); return h; }

static const std::map<std::string, dt::hash_function> FN = {
    {"md5", dt::hash_function::md5}, {"sha1", dt::hash_function::sha1}, {"sha256", dt::hash_function::sha256}, {"sha512", dt::hash_function::sha512},
    {"sha224", dt::hash_function::sha224}, {"sha384", dt::hash_function::sha384}, {"sha3_256", dt::hash_function::sha3_256}, {"sha3_512", dt::hash_function::sha3_512},
    {"blake2b_512", dt::hash_function::blake2b_512}, {"blake2s_256", dt::hash_function::blake2s_256}};

struct file_t { std::string name; size_t size = 0; int content = 0; size_t start = 0; std::vector<std::string> damage; bool pad = false; std::vector<size_t> marks; bool sparse = false; };
struct case_t {
    std::string id, mode; std::map<std::string, std::string> k; std::vector<file_t> files;
    long num(const char* n, long d) const { auto i = k.find(n); return i == k.end() ? d : std::stol(i->second); }
    std::string str(const char* n, const char* d = "") const { auto i = k.find(n); return i == k.end() ? d : i->second; }
};
static std::string scratch; static std::map<int, std::string> contents;
static const std::string& content(int i)
{
    auto& c = contents[i];
    if (c.empty()) { std::ifstream f(scratch + "/c" + std::to_string(i), std::ios::binary); std::ostringstream o; o << f.rdbuf(); c = o.str(); }
    return c;
}
static void make_files(const case_t& c, const fs::path& root)
{
    fs::remove_all(root); fs::create_directories(root);
    for (auto& f : c.files) {
        if (f.pad) continue;
        if (f.sparse) {      // zeros but for the marked bytes
            fs::create_directories((root / f.name).parent_path());
            { std::ofstream o(root / f.name); } fs::resize_file(root / f.name, f.size);
            std::fstream o(root / f.name, std::ios::binary | std::ios::in | std::ios::out);
            for (auto m : f.marks) { o.seekp(m); o.put('\xa5'); }
            for (auto& x : f.damage) { o.seekp(std::stoul(x.substr(5))); o.put('\x5a'); }
            continue;
        }
        std::string d = content(f.content).substr(f.start, f.size); bool there = true;
        fs::create_directories((root / f.name).parent_path());
        for (auto& x : f.damage) {
            auto at = x.find('@'); size_t n = at == std::string::npos ? 0 : std::stoul(x.substr(at + 1)); auto w = x.substr(0, at);
            if (w == "flip") d.at(n) ^= 0x41;
            else if (w == "trunc") d.resize(std::min(n, d.size()));
            else if (w == "ext") d += content((f.content + 1) % 9).substr(0, n);
            else if (w == "miss") there = false;
            else if (w == "dir") { there = false; fs::create_directories(root / f.name); }
        }
        if (there) { std::ofstream o(root / f.name, std::ios::binary); o.write(d.data(), d.size()); }
    }
}
static void ev_raw(std::string& log, const std::string& s)
{
#ifdef VSCHED
    (void)log; vs::event(s);
#else
    if (!log.empty()) log += ","; log += s;
#endif
}

template <typename T> static void life(T*& p, std::unique_ptr<T>& own, const case_t& c, std::string& log)
{
    auto ev = [&](const std::string& s) { ev_raw(log, "[\"" + s + "]"); };
    auto state = [&](const char* w) { ev(std::string(w) + "\"," + std::to_string(p->started()) + "," + std::to_string(p->running()) + "," + std::to_string(p->cancelled()) + "," + std::to_string(p->done())); };
    for (auto& o : split(c.str("ops", "start,wait,poll"), ',')) {
        try {
            if (o == "start" || o == "wait" || o == "cancel") {
                ev("call\",\"" + o + "\"");
                if (o == "start") p->start(); else if (o == "wait") p->wait(); else p->cancel();
                ev("return\",\"" + o + "\"," + std::to_string(io_failed.load(std::memory_order_relaxed)));
            }
            else if (o == "state") state("state");
            else if (o[0] == 'p' && isdigit(o[1])) {       // let the others go on
#ifdef VSCHED
                for (int i = std::stoi(o.substr(1)); i > 0; --i) vs::point();
#else
                usleep(std::stoi(o.substr(1)) * 5);
#endif
            }
            else if (o == "poll") {
                auto r = p->bytes_read(); auto h = p->bytes_hashed(); auto d = p->bytes_done(); auto f = p->current_file_progress();
                ev("poll\"," + std::to_string(r) + "," + std::to_string(h) + "," + std::to_string(d) + "," + std::to_string(f.file_index) + "," + std::to_string(f.bytes_hashed));
            }
            else if (o == "destroy") { ev("call\",\"destroy\""); own.reset(); ev("return\",\"destroy\",0"); return; }
        } catch (const std::exception& e) { ev("raise\",\"" + o + "\"," + std::to_string(io_failed.load(std::memory_order_relaxed))); }
    }
}
template <typename O> static void set_options(O& o, const case_t& c)
{
    static const std::map<std::string, dt::protocol> P = {{"v1", dt::protocol::v1}, {"v2", dt::protocol::v2}, {"hybrid", dt::protocol::hybrid}, {"none", dt::protocol::none}};
    o.protocol_version = P.at(c.str("proto", "v1"));
    if (auto b = c.num("block", 0)) o.min_io_block_size = b;
    if (auto b = c.num("mem", 0)) o.max_memory = b;
    o.threads = c.num("threads", 2);
    o.enable_multi_buffer_hashing = c.num("multi", 1);
#ifdef DOTTORRENT_USE_ISAL
    isal_shim::lanes = c.num("lanes", 8); isal_shim::order = c.num("order", 0);
#endif
}
static std::string run(const case_t& c, const fs::path& root)
{
    std::string log;
    dt::file_storage st;
    st.set_root_directory(root);
    for (auto& f : c.files) {
        if (f.pad) st.add_file(dt::make_padding_file_entry(f.size));
        else if (f.damage.empty() && c.num("disk", 0)) st.add_file(root / f.name);
        else st.add_file(dt::file_entry(f.name, f.size));
    }
    if (c.num("piece", 0)) st.set_piece_size(c.num("piece", 0));
    if (c.mode == "hash") {
        dt::storage_hasher_options o; set_options(o, c);
        for (auto& s : split(c.str("sums"), ',')) o.checksums.insert(FN.at(s));
        std::unique_ptr<dt::storage_hasher> h; h = std::make_unique<dt::storage_hasher>(st, o); auto* p = h.get();
        if (&h->storage() != &st || &std::as_const(*h).storage() != &st) ev_raw(log, "[\"wrong\",\"storage()\"]");
        if (h->protocol() != o.protocol_version) ev_raw(log, "[\"wrong\",\"protocol()\"]");
        life(p, h, c, log);
        if (h && h->started() && !h->done()) { try { h->cancel(); } catch (const std::exception&) {} }
        bool result = !h || h->done();
        h.reset();
        if (result) {
            std::ostringstream r; r << "piece=" << st.piece_size() << " v1=";
            for (auto& x : st.pieces()) r << hex(x) << ",";
            std::vector<bool> vl; if (c.num("layers", 0)) dt::verify_piece_layers(st, std::back_inserter(vl));
            for (size_t i = 0; i < st.file_count(); ++i) {
                auto& e = st[i];
                r << " " << (e.is_padding_file() ? "pad" : e.path().string()) << ":" << e.file_size() << ":";
                if (e.has_v2_data()) { r << "root=" << hex(e.pieces_root()) << "/"; for (auto& l : e.piece_layer()) r << hex(l) << ","; } else r << "none";
                std::map<std::string, std::string> sums; for (auto& [n, s] : e.checksums()) sums[n] = hex(s->value());
                for (auto& [n, s] : sums) r << ":" << n << "=" << s;
                if (c.num("layers", 0)) r << ":" << (vl[i] ? "ok" : "BAD");
                if (!e.is_padding_file() && c.num("times", 0)) r << ":" << (e.last_modified_time() && *e.last_modified_time() == fs::last_write_time(root / e.path()) ? "t" : "T");
            }
            ev_raw(log, "[\"result\",\"" + r.str() + "\"]");
        }
    } else {
        if (auto v = c.str("v1"); !v.empty()) { st.allocate_pieces(); for (size_t i = 0; i < st.piece_count(); ++i) st.set_piece_hash(i, unhex<dt::sha1_hash>(v.substr(40 * i, 40))); }
        for (auto& x : split(c.str("v2"), ',')) {
            auto eq = x.find('='), sl = x.find('/'); auto& e = st[std::stoul(x.substr(0, eq))];
            e.set_pieces_root(unhex<dt::sha256_hash>(x.substr(eq + 1, 64)));
            std::vector<dt::sha256_hash> l; if (sl != std::string::npos) for (size_t i = sl + 1; i + 64 <= x.size(); i += 64) l.push_back(unhex<dt::sha256_hash>(x.substr(i, 64)));
            e.set_piece_layer(l);
        }
        if (c.mode == "layers") {
            std::vector<bool> vl; dt::verify_piece_layers(st, std::back_inserter(vl));
            std::string r; for (auto b : vl) r += b ? '1' : '0';
            return "[\"result\",\"" + r + "\"]";
        }
        dt::storage_verifier_options o; set_options(o, c);
        std::unique_ptr<dt::storage_verifier> h; h = std::make_unique<dt::storage_verifier>(st, o); auto* p = h.get();
        if (&h->storage() != &st || &std::as_const(*h).storage() != &st) ev_raw(log, "[\"wrong\",\"storage()\"]");
        life(p, h, c, log);
        if (h && h->started() && !h->done()) { try { h->cancel(); } catch (const std::exception&) {} }
        if (h && h->started() && h->done() && !h->cancelled()) {
            std::ostringstream r; r << "proto=" << (int)h->protocol() << " map=";
            for (auto x : h->result()) r << (int)x;
            r << " pct=";
            for (size_t i = 0; i < st.file_count(); ++i) { double a = h->percentage(i); if (c.num("entry", 0) && !st[i].is_padding_file() && h->percentage(st[i]) != a) r << "!"; char b[32]; snprintf(b, sizeof b, "%.4f,", a); r << b; }
            if (c.num("entry", 0)) { try { h->percentage(dt::file_entry("a file the storage does not have", 5)); ev_raw(log, "[\"wrong\",\"the share of an unknown file\"]"); } catch (const std::invalid_argument&) {} }
            ev_raw(log, "[\"result\",\"" + r.str() + "\"]");
        }
    }
    return log;
}

int main(int argc, char** argv)
{
    scratch = argv[1];
    std::vector<uint8_t> replay; bool do_replay = argc > 2; (void)do_replay;
    if (do_replay) { std::istringstream is(argv[2]); int x; while (is >> x) replay.push_back((uint8_t)x); }
    fs::path root = fs::path(scratch) / ("w" + std::to_string(getpid()));
    std::string line;
    while (std::getline(std::cin, line)) {
        if (line.empty()) { std::cout << std::endl; continue; }
        auto cells = split(line, '|'); case_t c;
        { std::istringstream is(cells[0]); std::string w; is >> c.id >> c.mode; while (is >> w) { auto e = w.find('='); c.k[w.substr(0, e)] = w.substr(e + 1); } }
        for (size_t i = 1; i < cells.size(); ++i) {
            std::string w; { std::istringstream is(cells[i]); is >> w; }
            auto p = split(w, ':'); file_t f;
            if (p[0] == "pad") { f.pad = true; f.size = std::stoul(p[1]); }
            else { f.name = p[0]; f.size = std::stoul(p[1]); if (p[2][0] == 'S') { f.sparse = true; for (auto& m : split(p[2].substr(1), '+')) if (!m.empty()) f.marks.push_back(std::stoul(m)); } else f.content = std::stoi(p[2]); if (!f.sparse) if (auto u = p[2].find('+'); u != std::string::npos) f.start = std::stoul(p[2].substr(u + 1)); if (p.size() > 3) f.damage = split(p[3], ','); }
            c.files.push_back(f);
        }
        make_files(c, root);
        io_short = c.num("short", 0); io_fail = c.num("eio", 0); io_count = 0; io_open = c.num("eopen", 0); io_opened = 0; io_failed.store(0, std::memory_order_relaxed);
#ifdef VSCHED
        vs::options o; o.bound = c.num("bound", 1); o.spurious = c.num("spurious", 0); o.max_execs = c.num("execs", 1); o.max_seconds = c.num("sec", 5); o.seed = c.num("seed", 1);
        auto mode = c.str("mode", "rand"); o.random = mode != "dfs"; o.pct = mode == "pct"; o.step_limit = c.num("steps", 20000);
        auto body = [&] { io_count = io_opened = 0; io_failed.store(0, std::memory_order_relaxed); (void)run(c, root); };
        auto emit = [&](const vs::outcome& out) {
            std::string h = out.events; if (!h.empty()) h.pop_back();
            for (auto& x : h) if (x == '\n') x = ',';
            std::string m; for (char x : out.message) if (x == '\n') m += "; "; else if (x == '"' || x == '\\') m += '\''; else if ((unsigned char)x >= 32) m += x;
            std::string ch; for (auto x : out.choices) ch += std::to_string(x) + " ";
            printf("{\"id\":\"%s\",\"st\":\"%s\",\"race\":%d,\"msg\":\"%s\",\"h\":[%s],\"sched\":\"%s\"}\n", c.id.c_str(), vs::to_string(out.st), (int)out.race, m.c_str(), h.c_str(), ch.c_str());
            return true;
        };
        if (do_replay) emit(vs::replay(body, o, replay));
        else {
            auto st = vs::explore(body, o, emit);
            printf("{\"id\":\"%s\",\"summary\":1,\"execs\":%lu,\"distinct\":%zu,\"steps\":%lu,\"exhausted\":%d}\n", c.id.c_str(),
                   (unsigned long)st.execs, (size_t)st.distinct, (unsigned long)st.steps, (int)st.exhausted);
        }
        fflush(stdout);
#else
        std::string out;
        try { out = run(c, root); } catch (const std::exception& e) { out = std::string("[\"exception\",\"") + e.what() + "\"]"; }
        std::cout << "[" << out << "]" << std::endl;
#endif
        io_short = io_fail = io_open = 0;
    }
    fs::remove_all(root);
}
