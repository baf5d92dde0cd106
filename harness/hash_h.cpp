// Incremental hashers. One call sequence per line: "<kind> <alg1> <alg2> op op ..."
//  kind: h hasher through the interface | t same, every call on hasher k made by thread k | m openssl::message_digest | p one-shot pieces through string_view
//  ops: c:k u:k:part f:k d:k ; answers the digests of the f calls, in order, or "refused"
#include <cstring>
#include <sys/mman.h>
#include <algorithm>
#include <condition_variable>
#include <deque>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <vector>
#include <dottorrent/hasher/openssl_hasher.hpp>
namespace dt = dottorrent;
static const size_t sizes[] = {0, 1, 63, 64, 65, 127, 128, 129, 1000, 4096, 16384, 100003, 255, 256, 257, 512, 1024, 2048, 8192, 32767, 32768, 65535, 65536, 65537, 131072, 196608, 262144, 1048576, 1048577};

static std::vector<std::byte> part(int c)
{
    size_t n = sizes[c];
    std::vector<std::byte> v(n);
    for (size_t i = 0; i < n; ++i) v[i] = std::byte((i * 131 + c * 17 + 7) & 0xff);
    return v;
}
static std::string show(const std::vector<std::byte>& v)
{ std::string s; const char* d = "0123456789abcdef"; for (auto c : v) { auto u = (unsigned)c; s += d[u >> 4]; s += d[u & 15]; } return s; }

struct alg { dt::hash_function f; openssl::message_digest_algorithm m; size_t size; };
static const std::map<std::string, alg> algs = {
#define A(n, m, s) {#n, {dt::hash_function::n, openssl::message_digest_algorithm::m, s}}
    A(md2, md2, 16), A(md4, md4, 16), A(md5, md5, 16), A(blake2b_512, blake2b512, 64), A(blake2s_256, blake2s256, 32), A(sha1, sha1, 20), A(sha224, sha224, 28),
    A(sha256, sha256, 32), A(sha384, sha384, 48), A(sha512, sha512, 64), A(sha3_224, sha3_224, 28), A(sha3_256, sha3_256, 32), A(sha3_384, sha3_384, 48),
    A(sha3_512, sha3_512, 64), A(shake128, shake128, 16), A(shake256, shake256, 32), A(ripemd160, ripemd160, 20), A(whirlpool, whirlpool, 64), A(none, md2, 16),
#undef A
    // only reachable through the message digest class
    {"md5_sha1", {dt::hash_function::none, openssl::message_digest_algorithm::md5_sha1, 36}},
    {"sha512_224", {dt::hash_function::none, openssl::message_digest_algorithm::sha512_224, 28}},
    {"sha512_256", {dt::hash_function::none, openssl::message_digest_algorithm::sha512_256, 32}},
    {"sm3", {dt::hash_function::none, openssl::message_digest_algorithm::sm3, 32}},
};

// a worker that runs closures one at a time, in its own thread
struct worker {
    std::mutex m; std::condition_variable cv; std::function<void()> job; bool stop = false, busy = false; std::thread th{[this] { run(); }};
    void run() { std::unique_lock l(m); for (;;) { cv.wait(l, [&] { return stop || job; }); if (job) { auto j = std::move(job); job = nullptr; l.unlock(); j(); l.lock(); busy = false; cv.notify_all(); } else return; } }
    void call(std::function<void()> f) { std::unique_lock l(m); busy = true; job = std::move(f); cv.notify_all(); cv.wait(l, [&] { return !busy; }); }
    ~worker() { { std::unique_lock l(m); stop = true; } cv.notify_all(); th.join(); }
};

static std::string one(std::istringstream& is)
{
    std::string kind, a1, a2, w; is >> kind >> a1 >> a2;
    const alg* as[3] = {nullptr, &algs.at(a1), &algs.at(a2)};
    std::unique_ptr<dt::single_buffer_hasher> h[3];
    std::unique_ptr<openssl::message_digest> d[3];
    std::unique_ptr<worker> ws[3];
    if (kind == "t") for (int k = 1; k < 3; ++k) ws[k] = std::make_unique<worker>();
    std::string out, bad;
    while (is >> w) {
        char op; int k, c = 0; sscanf(w.c_str(), "%c:%d:%d", &op, &k, &c);
        auto act = [&] {
            try {
                if (op == "c"[0]) { if (kind == "m") d[k] = std::make_unique<openssl::message_digest>(as[k]->m); else h[k] = std::make_unique<dt::openssl_hasher>(as[k]->f); }
                else if (op == 'd') { h[k].reset(); d[k].reset(); }
                else if (op == 'u') {
                    auto p = part(c);
                    if (kind == "m") d[k]->update(p);
                    else if (kind == "p") h[k]->update(std::string_view((const char*)p.data(), p.size()));
                    else h[k]->update(std::span<const std::byte>(p));
                    std::fill(p.begin(), p.end(), std::byte(0xEE));     // the hasher must not keep references to the data
                }
                else if (op == 'r') d[k]->reset();
                else {
                    size_t n = as[k]->size;
                    std::vector<std::byte> o(n + 5, std::byte(0xAB)), want(5, std::byte(0xAB));
                    // alternately an exact-size buffer and one with room to spare
                    size_t room = c % 2 ? n + 5 : n;
                    if (kind == "m") { d[k]->finalize_to(std::span(o).first(room)); d[k]->reset(); } else h[k]->finalize_to(std::span(o).first(room));
                    if (!std::equal(o.begin() + n, o.end(), want.begin())) bad = "wrote beyond the digest";
                    o.resize(n);
                    out += show(o) + " ";
                }
            } catch (const std::exception&) { bad = op == 'c' ? "refused" : std::string("threw on ") + op; }
        };
        if (kind == "t") ws[k]->call(act); else act();
        if (!bad.empty()) return bad;
    }
    if (!out.empty()) out.pop_back();
    return out;
}
// one update call with more bytes than 32 bits can count: "big <kind> <alg> <bytes>"
static std::string big(std::istringstream& is)
{
    std::string kind, a; size_t n; is >> kind >> a >> n;
    void* m = mmap(nullptr, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) return "nomem";
    std::vector<std::byte> o(algs.at(a).size);
    std::span<const std::byte> d((const std::byte*)m, n);
    if (kind == "m") { openssl::message_digest x(algs.at(a).m); x.update(d); x.finalize_to(o); }
    else { dt::openssl_hasher xx(algs.at(a).f); dt::single_buffer_hasher& x = xx; if (kind == "p") x.update(std::string_view((const char*)m, n)); else x.update(d); x.finalize_to(o); }
    munmap(m, n);
    return show(o);
}
int main() { std::string l; while (std::getline(std::cin, l)) { std::istringstream is(l); std::string f; is >> f; bool b = f == "big"; is.seekg(b ? is.tellg() : std::streampos(0)); std::cout << (b ? big(is) : one(is)) << std::endl; } }
