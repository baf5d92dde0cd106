// Hexadecimal and percent coding, one request per line. Arguments are hexadecimal (decoded here independently), "-" = empty.
#include <algorithm>
#include <string>
#include <cstring>
#include <iostream>
#include <iterator>
#include <list>
#include <memory>
#include <sstream>
#include <vector>
#include <stdexcept>
#include <system_error>
#include <dottorrent/hex.hpp>
#include <dottorrent/percent_encoding.hpp>
namespace dt = dottorrent;
using bytes = std::vector<unsigned char>;

static bytes arg(const std::string& s)
{
    bytes b;
    if (s == "-") return b;
    auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back((unsigned char)(v(s[i]) * 16 + v(s[i + 1])));
    return b;
}
template <typename R> static std::string show(const R& r)
{
    std::string s; const char* d = "0123456789abcdef";
    for (auto c : r) { auto u = (unsigned char)c; s += d[u >> 4]; s += d[u & 15]; }
    return s.empty() ? "-" : s;
}
// exact-size heap copy so that any read beyond the end is caught
struct exact {
    std::unique_ptr<char[]> p; size_t n;
    explicit exact(const bytes& b) : p(new char[b.size()]), n(b.size()) { if (n) std::memcpy(p.get(), b.data(), n); }
    std::string_view sv() const { return {p.get(), n}; }
};

template <size_t N> static std::string fixed(std::string_view t)
{
    auto r = dt::from_hexadecimal_string<N>(t);
    return r ? show(*r) : "no";
}
static std::string fixed_n(size_t n, std::string_view t)
{
    switch (n) {
    case 0: return fixed<0>(t); case 1: return fixed<1>(t); case 2: return fixed<2>(t); case 3: return fixed<3>(t);
    case 4: return fixed<4>(t); case 16: return fixed<16>(t); case 20: return fixed<20>(t); case 32: return fixed<32>(t);
    case 64: return fixed<64>(t); default: return "?";
    }
}
static std::string one(std::istringstream& is)
{
    std::string op, a; is >> op >> a;
    bytes b = arg(a); exact e(b);
    if (op == "fromhex") {
        std::vector<std::string> r;
        auto stream = [&](auto f) { try { r.push_back(f()); } catch (const std::exception&) { r.push_back("no"); } };
        stream([&] { std::vector<std::byte> v; dt::from_hexadecimal_string(std::back_inserter(v), e.sv()); return show(v); });
        stream([&] { auto p = std::make_unique<std::byte[]>(b.size() / 2); dt::from_hexadecimal_string(p.get(), e.sv());
                     return show(std::vector<unsigned char>((unsigned char*)p.get(), (unsigned char*)p.get() + b.size() / 2)); });
        stream([&] { std::list<std::byte> v(b.size() / 2); dt::from_hexadecimal_string(v.begin(), e.sv()); return show(v); });
        for (auto& x : r) if (x != r[0]) return "differ " + r[0] + " " + x;
        return r[0];
    }
    if (op == "fixed") { size_t n; is >> n; return fixed_n(n, e.sv()); }
    if (op == "pair") {
        std::string r;
        for (int k = 0; k < 2; ++k) {
            std::byte out{0x5a};
            bool ok = k ? dt::detail::hex_to_byte(e.sv(), out) : dt::detail::hex_to_byte((char)b[0], (char)b[1], out);
            std::string x = ok ? show(std::vector<unsigned char>{(unsigned char)out}) : "no";
            if (k && x != r) return "differ " + r + " " + x;
            r = x;
        }
        return r;
    }
    if (op == "tohex") {
        std::span<const std::byte> s((const std::byte*)e.p.get(), e.n);
        std::string x = dt::to_hexadecimal_string(s), y; dt::to_hexadecimal_string(std::back_inserter(y), s);
        auto buf = std::make_unique<char[]>(e.n * 2); auto end = dt::to_hexadecimal_string(buf.get(), s);
        if (x != y || end != buf.get() + e.n * 2 || x != std::string(buf.get(), e.n * 2)) return "differ " + show(x) + " " + show(y) + " " + show(std::string(buf.get(), e.n * 2));
        return show(x);
    }
    if (op == "b2h") { char o[4] = {1, 1, 1, 1}; dt::detail::byte_to_hex(std::byte(b[0]), o); char u[4] = {1, 1, 1, 1}; dt::detail::byte_to_hex_uppercase(std::byte(b[0]), u);
        return show(std::string(o, 4)) + " " + show(std::string(u, 4)); }
    if (op == "encode") {
        std::string x = dt::detail::percent_encode(e.sv()), y;
        dt::detail::percent_encode(e.sv().begin(), e.sv().end(), std::back_inserter(y));
        auto buf = std::make_unique<char[]>(x.size()); dt::detail::percent_encode(e.sv().begin(), e.sv().end(), buf.get());
        std::list<char> in(e.sv().begin(), e.sv().end()); std::string z; dt::detail::percent_encode(in.begin(), in.end(), std::back_inserter(z));
        std::vector<char> in2(e.sv().begin(), e.sv().end()), w(x.size()); dt::detail::percent_encode(in2.begin(), in2.end(), w.begin());
        std::string q; for (char c : e.sv()) { char o[8]; auto n = dt::detail::percent_encode_char(c, o); q.append(o, n); }
        for (auto& s : {y, std::string(buf.get(), x.size()), z, std::string(w.begin(), w.end()), q}) if (s != x) return "differ " + show(x) + " " + show(s);
        return show(x);
    }
    if (op == "decode") {
        std::string y; int st = (int)dt::detail::percent_decode(e.sv().begin(), e.sv().end(), std::back_inserter(y));
        std::string x = dt::detail::percent_decode(e.sv());
        auto buf = std::make_unique<char[]>(b.size() + 1); int st2 = (int)dt::detail::percent_decode(e.sv().begin(), e.sv().end(), buf.get());
        std::istringstream ss(std::string(e.sv())); ss >> std::noskipws; std::string z;
        int st3 = (int)dt::detail::percent_decode(std::istream_iterator<char>(ss), std::istream_iterator<char>(), std::back_inserter(z));
        if (x != y || z != y || st != st2 || st != st3 || std::string(buf.get(), y.size()) != y) return "differ " + std::to_string(st) + " " + show(x) + " " + std::to_string(st2) + " " + show(y) + " " + show(z);
        return std::to_string(st) + " " + show(y);
    }
    if (op == "class") {
        char c = (char)b[0]; std::string r;
        for (bool x : {dt::detail::is_numeric(c), dt::detail::is_alpha(c), dt::detail::is_alphanumerical(c), dt::detail::is_unreserved(c), dt::detail::is_reserved_character(c)}) r += x ? '1' : '0';
        return r;
    }
    return "?";
}
int main() { std::string l; while (std::getline(std::cin, l)) { std::istringstream is(l); std::string r; try { r = one(is); } catch (const std::exception& x) { r = std::string("threw ") + x.what(); } std::cout << r << std::endl; } }
