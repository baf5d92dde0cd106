// Flag operators. Lines: "x a b" -> results of every expression form ; "s init ops..." -> final a b
#include <array>
#include <cstdint>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <dottorrent/bitmask_operators.hpp>
enum class e8 : std::uint8_t {}; enum class i8 : std::int8_t {}; enum class e16 : std::uint16_t {}; enum class i16 : std::int16_t {};
enum class e32 : std::uint32_t {}; enum class i32 : int {}; enum class e64 : std::uint64_t {}; enum class i64 : std::int64_t {}; enum u8fixed : std::uint8_t {};
DOTTORRENT_ENABLE_BITMASK_OPERATORS(e8) DOTTORRENT_ENABLE_BITMASK_OPERATORS(i8) DOTTORRENT_ENABLE_BITMASK_OPERATORS(e16) DOTTORRENT_ENABLE_BITMASK_OPERATORS(i16)
DOTTORRENT_ENABLE_BITMASK_OPERATORS(e32) DOTTORRENT_ENABLE_BITMASK_OPERATORS(i32) DOTTORRENT_ENABLE_BITMASK_OPERATORS(e64) DOTTORRENT_ENABLE_BITMASK_OPERATORS(i64)
DOTTORRENT_ENABLE_BITMASK_OPERATORS(u8fixed)
using namespace dottorrent;

static const std::array<std::array<int, 8>, 4> pos = {{{0, 1, 2, 3, 4, 5, 6, 7}, {0, 1, 2, 7, 8, 9, 14, 15}, {0, 1, 7, 8, 15, 16, 30, 31}, {0, 1, 7, 8, 15, 31, 32, 63}}};
template <typename E> struct coder {
    using T = std::underlying_type_t<E>; using U = std::make_unsigned_t<T>;
    static const std::array<int, 8>& p() { return pos[sizeof(T) == 1 ? 0 : sizeof(T) == 2 ? 1 : sizeof(T) == 4 ? 2 : 3]; }
    static E enc(int m) { U v = 0; for (int i = 0; i < 8; ++i) if (m >> i & 1) v |= U(1) << p()[i]; return static_cast<E>(static_cast<T>(v)); }
    // bits outside the eight modelled flags must be all zero (fill=0) or all one (fill=1)
    static std::string dec(E e, bool fill = false)
    {
        U v = static_cast<U>(static_cast<T>(e)); int m = 0; U mask = 0;
        for (int i = 0; i < 8; ++i) { mask |= U(1) << p()[i]; if (v >> p()[i] & 1) m |= 1 << i; }
        U rest = v & U(~mask), want = fill ? U(~mask) : U(0);
        return rest == want ? std::to_string(m) : "stray" + std::to_string(m);
    }
};
template <typename E> static std::string expr(int x, int y)
{
    using C = coder<E>; const E a = C::enc(x), b = C::enc(y);
    std::string r;
    auto put = [&](auto v, bool fill = false) { static_assert(std::is_same_v<decltype(v), E>); r += C::dec(v, fill) + " "; };
    put(a | b); put(a & b); put(a ^ b); put(~a, true);
    { E c = a; E& ref = (c |= b); put(c); r += &ref == &c ? "r " : "noref "; }
    { E c = a; E& ref = (c &= b); put(c); r += &ref == &c ? "r " : "noref "; }
    { E c = a; E& ref = (c ^= b); put(c); r += &ref == &c ? "r " : "noref "; }
    put((a | b) & ~a);      // b without a
    return r;
}
template <typename E> static std::string seq(const std::vector<std::string>& ops)
{
    using C = coder<E>; int x, y; sscanf(ops[0].c_str(), "%d,%d", &x, &y);
    E a = C::enc(x), b = C::enc(y); bool fa = false, fb = false;
    for (size_t i = 1; i < ops.size(); ++i) {
        auto& w = ops[i];
        if (w == "swap") { std::swap(a, b); std::swap(fa, fb); continue; }
        auto k = w.substr(0, w.find(',')), o = w.substr(w.find(',') + 1);
        auto run = [&](E v) { if (k == "or") a |= v; else if (k == "and") a &= v; else a ^= v; };
        bool fv = o == "b" ? fb : o == "self" ? fa : !fb;
        fa = k == "or" ? (fa || fv) : k == "and" ? (fa && fv) : (fa != fv);
        if (o == "b") run(b); else if (o == "notb") run(~b);
        else if (k == "or") a |= a; else if (k == "and") a &= a; else a ^= a;
    }
    return C::dec(a, fa) + " " + C::dec(b, fb);
}
template <typename F> static std::string all(F f)
{
    std::string r[] = {f(e8{}), f(i8{}), f(e16{}), f(i16{}), f(e32{}), f(i32{}), f(e64{}), f(i64{}), f(u8fixed{})};
    for (auto& x : r) if (x != r[0]) return "differ " + r[0] + " / " + x;
    return r[0];
}
int main()
{
    std::string l;
    while (std::getline(std::cin, l)) {
        std::istringstream is(l); std::string k; is >> k;
        if (k == "x") { int a, b; is >> a >> b; std::cout << all([&](auto e) { return expr<decltype(e)>(a, b); }) << std::endl; }
        else { std::vector<std::string> v; std::string w; while (is >> w) v.push_back(w); std::cout << all([&](auto e) { return seq<decltype(e)>(v); }) << std::endl; }
    }
}
