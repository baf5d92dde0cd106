// Size literals: "lit <unit> <decimal>" ; DHT nodes: "node <hex> <port> <hex> <port>"
#include <compare>
#include <cstdint>
#include <iostream>
#include <sstream>
#include <string>
#include <string_view>
#include <fmt/format.h>
#include <dottorrent/literals.hpp>
#include <dottorrent/dht_node.hpp>
using namespace dottorrent;
using namespace dottorrent::literals;
static std::string arg(const std::string& s) { std::string b; if (s == "-") return b; for (size_t i = 0; i < s.size(); i += 2) b += (char)std::stoi(s.substr(i, 2), nullptr, 16); return b; }
static std::string show(const std::string& r) { std::string s; for (unsigned char c : r) { char b[3]; snprintf(b, 3, "%02x", c); s += b; } return s.empty() ? "-" : s; }
static std::string cmp(const dht_node& a, const dht_node& b)
{
    auto o = a <=> b; std::string r = o < 0 ? "-1" : o > 0 ? "1" : "0";
    r += a == b ? " eq" : " ne"; r += a != b ? " ne" : " eq"; r += a < b ? " lt" : " ge"; r += a > b ? " gt" : " le"; r += a <= b ? " le" : " gt"; r += a >= b ? " ge" : " lt";
    return r;
}
int main()
{
    std::string l;
    while (std::getline(std::cin, l)) {
        std::istringstream is(l); std::string k; is >> k;
        if (k == "lit") {
            std::string u; unsigned long long v; is >> u >> v; std::size_t r = 0;
            if (u == "KiB") r = operator""_KiB(v); else if (u == "MiB") r = operator""_MiB(v); else if (u == "GiB") r = operator""_GiB(v); else if (u == "TiB") r = operator""_TiB(v);
            else if (u == "KB") r = operator""_KB(v); else if (u == "MB") r = operator""_MB(v); else if (u == "GB") r = operator""_GB(v); else if (u == "TB") r = operator""_TB(v);
            else if (u == "bits") r = operator""_bits(v);
            std::cout << r << std::endl;
        } else {
            std::string h1, h2; unsigned p1, p2; is >> h1 >> p1 >> h2 >> p2;
            dht_node a(arg(h1), (std::uint16_t)p1), b(arg(h2), (std::uint16_t)p2);
            dht_node c = a, d = std::move(c), e; e = d; dht_node f; f = std::move(d);
            std::string r = cmp(a, b) + " " + show(static_cast<std::string>(a)) + " " + show(a.url) + " " + std::to_string(a.port) + " " + show(get<0>(b)) + " " + std::to_string(get<1>(b));
            { const auto& [u, p] = a; auto [v, q] = b; const dht_node& k = b; const auto& [w, o] = k; if (u != a.url || p != a.port || v != b.url || q != b.port || w != b.url || o != b.port || std::tuple_size<dht_node>::value != 2) r += " bind"; }
            get<1>(e) = 7; get<0>(e) = "x";
            if (!(f == a) || e.port != 7 || e.url != "x") r += " copy";
            std::cout << r << std::endl;
        }
    }
}
