// Names, digests, checksums, info hashes. Arguments in hexadecimal, "-" = empty.
#include <iostream>
#include <sstream>
#include <dottorrent/hash_function.hpp>
#include <dottorrent/hash.hpp>
#include <dottorrent/checksum.hpp>
#include <dottorrent/hash_function_traits.hpp>
#include <dottorrent/info_hash.hpp>
#include <dottorrent/hasher/factory.hpp>
#include "tight.hpp"
namespace dt = dottorrent;
using str = std::string;
static str arg(const str& s) { str b; if (s == "-") return b; for (size_t i = 0; i < s.size(); i += 2) b += (char)std::stoi(s.substr(i, 2), nullptr, 16); return b; }
template <typename R> static str show(const R& r) { str s; for (auto c : r) { char b[3]; snprintf(b, 3, "%02x", (unsigned)(unsigned char)c); s += b; } return s.empty() ? "-" : s; }
static str ord(auto o) { return o < 0 ? "-1" : o > 0 ? "1" : o == 0 ? "0" : "unordered"; }
template <typename F> static str with(const str& name, F f)
{
    str r = "?";
    std::apply([&](auto... h) { ((dt::to_string(decltype(h)::algorithm) == name ? (r = f(h), 0) : 0), ...); }, dt::hash_types{});
    return r;
}
template <typename F> static str guard(F f) { try { return f(); } catch (const std::exception&) { return "no"; } }
static str same(const std::vector<str>& v) { for (auto& x : v) if (x != v[0]) { str r = "differ"; for (auto& y : v) r += " " + y; return r; } return v[0]; }
template <dt::hash_function F> static str traits() { using t = dt::hash_function_traits<F>;
    return std::to_string(t::digest_size_bytes) + " " + std::to_string(t::digest_size_bits) + " " + str(dt::to_string(F)) + (t::hash_type::algorithm == F ? "" : " alg") + (typename t::checksum_type().algorithm() == F ? "" : " chk"); }
static dt::info_hash info(const str& a, const str& b, int way)
{
    auto A_ = arg(a), B_ = arg(b); auto A = tight(A_), B = tight(B_);
    if (way == 0) return b == "-" ? dt::info_hash(dt::protocol::v1, A) : a == "-" ? dt::info_hash(dt::protocol::v2, B) : dt::info_hash(A, B);
    if (way == 1) return b == "-" ? dt::info_hash(dt::sha1_hash(A)) : a == "-" ? dt::info_hash(dt::sha256_hash(B)) : dt::info_hash(dt::sha1_hash(A), dt::sha256_hash(B));
    return b == "-" ? dt::info_hash::from_hex(dt::protocol::v1, tight(a)) : a == "-" ? dt::info_hash::from_hex(dt::protocol::v2, tight(b)) : dt::info_hash::from_hex(tight(a), tight(b));
}
static str one(std::istringstream& is)
{
    str op, a, b, c, d; is >> op >> a >> b >> c >> d;
    if (op == "name") {
        str n = arg(a); auto f = dt::make_hash_function(tight(n));
        return str(dt::is_hash_function_name(tight(n)) ? "1 " : "0 ") + (f ? str(dt::to_string(*f)) : "no");
    }
    if (op == "traits") {
        using F = dt::hash_function; str r = "?";
#define T(x) if (a == #x) r = traits<F::x>() + (str(dt::to_string(F::x)) == #x ? "" : " name") + (dt::make_hash_function(#x) == F::x ? "" : " make") \
        + " " + std::to_string(std::count(dt::supported_hash_functions.begin(), dt::supported_hash_functions.end(), F::x)) + " " + std::to_string(dt::hasher_supported_algorithms().count(F::x)) \
        + " " + std::to_string(dt::make_checksum(F::x)->size()) + " " + str(dt::make_checksum(F::x)->name()) + " " + std::to_string(dt::make_checksum(str(#x))->size());
        T(md4) T(md5) T(blake2b_512) T(blake2s_256) T(sha1) T(sha224) T(sha256) T(sha384) T(sha512) T(sha3_224) T(sha3_256) T(sha3_384) T(sha3_512) T(shake128) T(shake256) T(ripemd160) T(whirlpool)
        return r;
    }
    if (op == "count") return std::to_string(dt::supported_hash_functions.size()) + " " + std::to_string(dt::hasher_supported_algorithms().size());
    if (op == "badfn") { std::vector<str> r; for (auto f : {dt::hash_function::none, dt::hash_function::md2, (dt::hash_function)99}) { r.push_back(guard([&] { return str(dt::to_string(f)); })); r.push_back(guard([&] { return str(dt::make_checksum(f)->name()); })); } return same(r); }
    if (op == "digest") {
        str v = arg(b);
        return with(a, [&](auto h) {
            using H = decltype(h); std::vector<str> r;
            auto full = [&](const H& x) { std::vector<str> q = {show(x), x.hex_string() == "" ? "-" : x.hex_string(), show(std::string_view(x)), show(static_cast<std::span<const std::byte>>(x)), show(x.value()), show(std::vector<std::byte>(x.data(), x.data() + x.size()))};
                if (H::size() != x.value().size() || H::size_bytes * 8 != H::size_bits || H::size_hex != 2 * H::size_bytes) q.push_back("size"); return same(q); };
            r.push_back(guard([&] { return full(H(std::string_view(v))); }));
            r.push_back(guard([&] { return full(H(std::span<const std::byte>((const std::byte*)v.data(), v.size()))); }));
            r.push_back(guard([&] { return full(H(std::span<char>(v))); }));
            r.push_back(guard([&] { std::vector<unsigned char> u(v.begin(), v.end()); return full(H(std::span<unsigned char>(u))); }));
            r.push_back(guard([&] { return full(dt::make_hash_from_hex<H>(show(v) == "-" ? "" : show(v))); }));
            r.push_back(guard([&] { str u = show(v) == "-" ? "" : show(v); for (auto& ch : u) ch = (char)toupper(ch); return full(dt::make_hash_from_hex<H>(u)); }));
            if (v.size() == H::size_bytes) { typename H::storage_type s; std::memcpy(s.data(), v.data(), v.size()); r.push_back(full(H(s))); H y; y = H(s); H z(y); r.push_back(full(z)); r.push_back(show(std::vector<std::byte>(y.begin(), y.end()))); }
            return same(r);
        });
    }
    if (op == "badhex") return with(a, [&](auto h) { using H = decltype(h); return guard([&] { return dt::make_hash_from_hex<H>(tight(arg(b))).hex_string(); }); });
    if (op == "cmp") {
        str x = arg(b), y = arg(c);
        return with(a, [&](auto h) {
            using H = decltype(h); H p{std::string_view(x)}, q{std::string_view(y)}; str r = ord(p <=> q); 
            using B = dt::basic_hash<H::size_bytes>; const B &pb = p, &qb = q;
            r += (pb == qb) ? " eq" : " ne"; r += pb < qb ? " lt" : " ge";
            r += std::hash<H>{}(p) == std::hash<H>{}(q) || pb != qb ? "" : " hash"; r += std::hash<B>{}(pb) == std::hash<B>{}(qb) || pb != qb ? "" : " hash";
            auto cp = dt::make_checksum(a, std::string_view(x)), cq = dt::make_checksum(a, std::string_view(y));
            str r2 = ord(*cp <=> *cq); r2 += *cp == *cq ? " eq" : " ne"; r2 += *cp < *cq ? " lt" : " ge";
            return same({r, r2});
        });
    }
    if (op == "chk") {
        str n = arg(a), v = arg(b); std::vector<str> r; auto fn = dt::make_hash_function(n);
        auto full = [&](std::unique_ptr<dt::checksum> p) { const dt::checksum& cc = *p; std::vector<str> q = {show(p->value()), show(cc.value()), p->hex_string() == "" ? "-" : p->hex_string()}; if (p->size() != v.size()) q.push_back("size");
            str alg = p->algorithm() == dt::hash_function::none ? "generic" : str(dt::to_string(p->algorithm())); return show(p->name()) + " " + alg + " " + same(q); };
        std::span<const std::byte> s((const std::byte*)v.data(), v.size()); str hex = show(v) == "-" ? "" : show(v);
        r.push_back(guard([&] { return full(dt::make_checksum(tight(n), s)); })); r.push_back(guard([&] { return full(dt::make_checksum(tight(n), tight(v))); })); r.push_back(guard([&] { return full(dt::make_checksum_from_hex(tight(n), tight(hex))); }));
        if (fn) { r.push_back(guard([&] { return full(dt::make_checksum(*fn, s)); })); r.push_back(guard([&] { return full(dt::make_checksum(*fn, tight(v))); })); r.push_back(guard([&] { return full(dt::make_checksum_from_hex(*fn, tight(hex))); })); }
        else { r.push_back(guard([&] { return full(std::make_unique<dt::generic_checksum>(n, std::span<const char>(v.data(), v.size()))); })); }
        return same(r);
    }
    if (op == "badchk") { std::vector<str> r; r.push_back(guard([&] { return dt::make_checksum_from_hex(a, arg(b))->hex_string(); })); auto fn = dt::make_hash_function(a); if (fn) r.push_back(guard([&] { return dt::make_checksum_from_hex(*fn, arg(b))->hex_string(); })); return same(r); }
    if (op == "cmpchk") { auto p = dt::make_checksum(arg(a), std::string_view(arg(b))), q = dt::make_checksum(arg(c), std::string_view(arg(d))); return ord(*p <=> *q) + (*p == *q ? " eq" : " ne"); }
    if (op == "info") {
        std::vector<str> r;
        for (int w1 = 0; w1 < 3; ++w1) for (int w2 = 0; w2 < 3; ++w2) {
            auto i = info(a, b, w1), j = info(c, d, w2);
            str s = ord(i <=> j) + (i == j ? " eq" : " ne") + (std::hash<dt::info_hash>{}(i) == std::hash<dt::info_hash>{}(j) || !(i == j) ? "" : " hash") + " " + std::to_string((int)i.version());
            if (a != "-") { s += " " + show(i.get_binary(dt::protocol::v1)) + " " + i.get_hex(dt::protocol::v1); if (show(i.v1()) != a) s += " v1"; }
            if (b != "-") { s += " " + show(i.get_binary(dt::protocol::v2)) + " " + i.get_hex(dt::protocol::v2) + " " + i.truncated_v2().hex_string(); if (show(i.v2()) != b) s += " v2"; }
            r.push_back(s);
        }
        return same(r);
    }
    if (op == "badinfo") { std::vector<str> r; for (int w = 0; w < 3; ++w) r.push_back(guard([&] { info(a, b, w); return str("made"); })); return same(r); }
    return "?";
}
int main() { str l; while (std::getline(std::cin, l)) { std::istringstream is(l); str r; try { r = one(is); } catch (const std::exception& x) { r = str("threw ") + x.what(); } std::cout << r << std::endl; } }
