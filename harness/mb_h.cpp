// Multi-buffer hashers (the machine of shim/isa-l_crypto). One call sequence per line: "<alg> <lanes> <order> op op ...";
// calls as in MultiBuffer.tla (jobs from 1; parts are sizes); answers what the calls return.
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <dottorrent/hasher/factory.hpp>
namespace dt = dottorrent;
static const std::map<std::string, dt::hash_function> FN = {{"md5", dt::hash_function::md5}, {"sha1", dt::hash_function::sha1}, {"sha256", dt::hash_function::sha256},
    {"sha512", dt::hash_function::sha512}, {"sha224", dt::hash_function::sha224}, {"sha384", dt::hash_function::sha384}, {"blake2b_512", dt::hash_function::blake2b_512}, {"none", dt::hash_function::none}};
static const std::map<std::string, size_t> SIZE = {{"md5", 16}, {"sha1", 20}, {"sha256", 32}, {"sha512", 64}, {"sha224", 28}, {"sha384", 48}, {"blake2b_512", 64}, {"none", 0}};
using buffer = std::shared_ptr<std::byte[]>;
static std::string run(std::istringstream& is)
{
    std::string alg, w, out; is >> alg >> isal_shim::lanes >> isal_shim::order;
    std::unique_ptr<multi_buffer_hasher> h;
    try { h = dt::make_multi_buffer_hasher(FN.at(alg)); } catch (const std::invalid_argument&) { return "refused"; }
    if (!h) return "none";
    std::vector<std::vector<buffer>> held;       // the data of a job stays until its digest is taken or it is discarded
    bool text = false;
    auto part = [&](int n) {
        buffer b(new std::byte[n]); for (int i = 0; i < n; ++i) b[i] = std::byte((i * 131 + n * 17 + 7) & 0xff);
        return b;
    };
    while (is >> w) {
        char op = w[0]; int a = 0, b = 0; sscanf(w.c_str() + 1, ":%d:%d", &a, &b);
        text = !text;        // both overloads
        auto go = [&](int n, auto with_span, auto with_text) {
            auto d = part(n);
            if (text) with_text(std::string_view(reinterpret_cast<const char*>(d.get()), n)); else with_span(std::span<const std::byte>(d.get(), n));
            return d;
        };
        switch (op) {
        case 'z': h->resize(a); held.resize(a); out += "n" + std::to_string(h->job_count()) + " "; break;
        case 'r': h->reset(); held.clear(); out += "n" + std::to_string(h->job_count()) + " "; break;
        case 'E': case 'F': {
            size_t id = 0;
            auto d = op == 'E' ? go(a, [&](auto s) { id = h->submit(s); }, [&](auto s) { id = h->submit(s); }) : go(a, [&](auto s) { id = h->submit_first(s); }, [&](auto s) { id = h->submit_first(s); });
            held.push_back({d}); out += "#" + std::to_string(id + 1) + " "; break;
        }
        case 'e': held.at(a - 1).push_back(go(b, [&](auto s) { h->submit(a - 1, s); }, [&](auto s) { h->submit(a - 1, s); })); break;
        case 'f': { auto d = part(b); h->submit_first(a - 1, std::span<const std::byte>(d.get(), b)); held.at(a - 1).push_back(d); break; }
        case 'u': held.at(a - 1).push_back(go(b, [&](auto s) { h->submit_update(a - 1, s); }, [&](auto s) { h->submit_update(a - 1, s); })); break;
        case 'l': held.at(a - 1).push_back(go(b, [&](auto s) { h->submit_last(a - 1, s); }, [&](auto s) { h->submit_last(a - 1, s); })); break;
        case 't': {
            std::vector<std::byte> d(SIZE.at(alg)); h->finalize_to(a - 1, d); held.at(a - 1).clear();
            const char* x = "0123456789abcdef"; for (auto c : d) { out += x[(int)c >> 4]; out += x[(int)c & 15]; } out += " ";
        }
        }
    }
    if (!out.empty()) out.pop_back();
    return out;
}
int main()
{
    std::string l;
    while (std::getline(std::cin, l)) {
        std::istringstream is(l); std::string r;
        try { r = run(is); } catch (const std::exception& e) { r = std::string("exception ") + e.what(); }
        std::cout << r << std::endl;
    }
}
