// The same expressions evaluated by the compiler: prints "a b or and xor not or= and= xor=" for three flags, and the library's own flag enumerations.
#include <array>
#include <cstdio>
#include <string>
#include <utility>
#include <dottorrent/bitmask_operators.hpp>
enum class ct : unsigned char {}; enum class cti : int {}; enum class unmarked : int {}; enum class other : unsigned char { x = 1 };
DOTTORRENT_ENABLE_BITMASK_OPERATORS(ct) DOTTORRENT_ENABLE_BITMASK_OPERATORS(cti)
using namespace dottorrent;
template <typename E> struct row { int v[7]; };
template <typename E> constexpr row<E> eval(int x, int y)
{
    E a = static_cast<E>(x), b = static_cast<E>(y), c = a, d = a, e = a;
    c |= b; d &= b; e ^= b;
    return {{(int)(a | b), (int)(a & b), (int)(a ^ b), (int)(~a) & 0xff, (int)c, (int)d, (int)e}};
}
template <typename E> constexpr std::array<row<E>, 64> table() { std::array<row<E>, 64> t{}; for (int i = 0; i < 64; ++i) t[i] = eval<E>(i / 8, i % 8); return t; }
constexpr auto t1 = table<ct>(); constexpr auto t2 = table<cti>();
// enumerations that were not made flags have no such operators
template <typename E> constexpr int usable()
{
    return (requires (E a, E b) { a | b; }) + 2 * (requires (E a, E b) { a & b; }) + 4 * (requires (E a, E b) { a ^ b; }) + 8 * (requires (E a) { ~a; })
        + 16 * (requires (E a, E b) { a |= b; }) + 32 * (requires (E a, E b) { a &= b; }) + 64 * (requires (E a, E b) { a ^= b; });
}
int main() { printf("usable %d %d %d %d\n", usable<ct>(), usable<cti>(), usable<unmarked>(), usable<other>()); for (int i = 0; i < 64; ++i) for (auto* v : {t1[i].v, t2[i].v}) { printf("%d %d", i / 8, i % 8); for (int k = 0; k < 7; ++k) printf(" %d", v[k]); puts(""); } }
