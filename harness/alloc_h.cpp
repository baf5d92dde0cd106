// Aligned allocator. "a op op ..." with ops a:<type>:<count> f:<k> -> events ; "b op ..." container operations -> contents
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <iostream>
#include <list>
#include <map>
#include <malloc.h>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <dottorrent/aligned_allocator.hpp>
#include <dottorrent/data_chunk.hpp>
using namespace dottorrent;
// glibc accepts sizes that are not multiples of the alignment; AddressSanitizer's aligned_alloc does not
extern "C" void* aligned_alloc(size_t a, size_t n) noexcept { return memalign(a, n); }
struct s24 { char c[24]; };
struct block { void* p; size_t n; std::function<void()> release; unsigned char tag; };

template <typename T, size_t A> static std::string alloc(size_t n, bool huge, int id, std::map<int, block>& live)
{
    aligned_allocator<T, A> al, cp(al);
    aligned_allocator<char, A> other; aligned_allocator<T, A> conv(other);
    std::string ID = std::to_string(id);
    if (!(al == cp) || al != conv) return "[\"unequal\"," + ID + "]";
    T* p;
    try { p = id % 2 ? al.allocate(n) : conv.allocate(n, (const int*)nullptr); }
    catch (const std::exception&) { return "[\"error\"," + ID + "," + (huge ? "1" : "0") + "]"; }
    if (n == 0) { cp.deallocate(p, 0); return "[\"none\"," + ID + "]"; }
    auto u = (std::uintptr_t)p;
    if (huge || !p) return "[\"alloc\"," + ID + ",1,1,0]";
    block b{p, n * sizeof(T), [=] { aligned_allocator<T, A>().deallocate(p, n); }, (unsigned char)(id * 37 + 11)};
    std::memset(p, b.tag, b.n);
    live[id] = b;
    return "[\"alloc\"," + ID + "," + std::to_string(u) + "," + std::to_string(u + b.n) + "," + std::to_string(u % A) + "]";
}
template <typename T, size_t A> static std::string alloc(const std::string& c, int id, std::map<int, block>& live)
{
    size_t n; bool huge = true;
    if (c == "max") n = SIZE_MAX / sizeof(T); else if (c == "over") n = sizeof(T) == 1 ? SIZE_MAX : SIZE_MAX / sizeof(T) + 1; else if (c == "all") n = SIZE_MAX;
    else if (c == "over2") n = sizeof(T) == 1 ? SIZE_MAX - 1 : SIZE_MAX / sizeof(T) + 1 + 64 / sizeof(T) + 5; else { n = std::stoul(c); huge = false; }
    return alloc<T, A>(n, huge, id, live);
}
static std::string blocks(std::istringstream& is)
{
    std::map<int, block> live; std::string w, out = "["; int id = 0;
    auto release = [&](int k) {
        auto& b = live[k]; bool ok = true; for (size_t i = 0; i < b.n; ++i) ok &= ((unsigned char*)b.p)[i] == b.tag;
        b.release(); live.erase(k); return "[\"free\"," + std::to_string(k) + "," + (ok ? "1" : "0") + "]";
    };
    while (is >> w) {
        ++id; if (out.size() > 1) out += ",";
        if (w[0] == 'f') { out += release(std::stoi(w.substr(2))); continue; }
        auto t = w.substr(2, w.find(':', 2) - 2), c = w.substr(w.find(':', 2) + 1);
        if (t == "b64") out += alloc<std::byte, 64>(c, id, live); else if (t == "u32x64") out += alloc<std::uint32_t, 64>(c, id, live);
        else if (t == "s24x32") out += alloc<s24, 32>(c, id, live); else if (t == "b4096") out += alloc<std::byte, 4096>(c, id, live);
        else if (t == "u16x16") out += alloc<std::uint16_t, 16>(c, id, live); else if (t == "d8") out += alloc<double, 8>(c, id, live);
    }
    while (!live.empty()) { if (out.size() > 1) out += ","; out += release(live.begin()->first); }
    return out + "]";
}
template <typename V, size_t A> static std::string containers(const std::vector<std::string>& ops)
{
    using T = typename V::value_type; V v, w; int nxt = 1; bool aligned = true;
    auto mk = [](int x) { T t{}; std::memcpy(&t, &x, 1); return t; };
    for (auto& o : ops) {
        if (o == "push") v.push_back(mk(nxt)); else if (o == "insert") v.insert(v.begin(), mk(nxt)); else if (o == "grow") v.resize(v.size() + 70, mk(0));
        else if (o == "pop") v.pop_back(); else if (o == "erase") v.erase(v.begin()); else if (o == "resize3") v.resize(3, mk(0));
        else if (o == "copy") { if (nxt % 2) v = w; else { V c(w); v.swap(c); } } else if (o == "move") { if (nxt % 2) v = std::move(w); else { V c(std::move(w)); v.swap(c); } w.clear(); }
        else if (o == "swap") { if (nxt % 2) std::swap(v, w); else v.swap(w); }
        else if (o == "shrink") { if constexpr (requires { v.shrink_to_fit(); }) v.shrink_to_fit(); } else if (o == "reserve") { if constexpr (requires { v.reserve(300); }) v.reserve(300); }
        else if (o == "clear") v.clear(); else if (o == "append") { V c(w); v.insert(v.end(), c.begin(), c.end()); }
        ++nxt;
        if constexpr (requires { v.data(); }) { aligned &= (std::uintptr_t)v.data() % A == 0 && (std::uintptr_t)w.data() % A == 0; }
    }
    std::string r; auto put = [&](V& x) { r += "["; for (auto& e : x) { unsigned char c; std::memcpy(&c, &e, 1); r += std::to_string(c) + " "; } r += "]"; };
    put(v); put(w); return r + (aligned ? "" : " misaligned");
}
int main()
{
    std::string l;
    while (std::getline(std::cin, l)) {
        std::istringstream is(l); std::string k; is >> k;
        if (k == "a") { std::cout << blocks(is) << std::endl; continue; }
        std::vector<std::string> ops; std::string w; while (is >> w) ops.push_back(w);
        std::string r[] = {containers<data_chunk::data_type, 64>(ops), containers<std::vector<s24, aligned_allocator<s24, 32>>, 32>(ops),
                           containers<std::vector<unsigned, aligned_allocator<unsigned, 4096>>, 4096>(ops), containers<std::list<unsigned char, aligned_allocator<unsigned char, 128>>, 128>(ops)};
        std::string out = r[0]; for (auto& x : r) if (x != r[0]) out = "differ " + r[0] + " / " + x;
        std::cout << out << std::endl;
    }
}
