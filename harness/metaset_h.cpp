// Tracker lists and metafile collections. One call sequence per line.
//  T ops...   observations of the tracker list after every call ("." suffix) or only at the end
//  M ops...   collections and fields of the metafile at the end
#include <cstring>
#include <algorithm>
#include <iostream>
#include <memory>
#include <new>
#include <sstream>
#include <string>
#include <vector>
#include <dottorrent/metafile.hpp>
namespace dt = dottorrent;
static std::vector<std::string> split(const std::string& s, char c)
{ std::vector<std::string> r; std::string x; std::istringstream is(s); while (std::getline(is, x, c)) r.push_back(x); return r; }
// texts that are prefixes of one another and of different length
#include "tight.hpp"
static std::string url(int u) { static const char* t[] = {"", "http://a", "http://a/x", "http://b", "udp://a", "udp://a:1/announce?with=query&long=enough-not-to-be-stored-inline", "z"}; return u < 7 ? t[u] : u > 19 ? "zzz" + std::to_string(u + 1000) : "zz" + std::string(1, char('a' + u % 20)) + std::to_string(u + 1000); }
static int num(const std::string& s) { for (int u = 0; u < 400; ++u) if (url(u) == s) return u; return -1; }
static std::string tiers(const dt::announce_url_list& l)
{
    std::string o, bad; const dt::announce_url* prev = nullptr; std::size_t n = 0;
    for (auto& t : dt::as_nested_vector(l)) { for (auto& u : t) o += std::to_string(num(u)) + ","; o += "/"; n += t.size(); }
    if (l.size() != n || l.empty() != (n == 0)) bad += "!size";
    std::size_t i = 0;
    for (auto& a : l) {
        if (prev && !(*prev < a) && !(*prev == a)) bad += "!order";
        if (&a != &l[i] || &a != &l.at(i)) bad += "!access";
        if (a.tier >= l.tier_count()) bad += "!tiers";
        if (!l.contains(a) || !l.contains(tight(a.url))) bad += "!contains";
        if (l.find(a) == l.end() || !(*l.find(a) == a)) bad += "!find";
        if (l.find(tight(a.url)) == l.end() || l.find(std::string_view(a.url))->url != a.url) bad += "!findurl";
        { const auto& [u, t] = a; auto b = a; if (u != a.url || t != a.tier || get<0>(b) != a.url || get<1>(b) != a.tier || std::string_view(a) != a.url) bad += "!bind"; get<0>(b) = "x"; get<1>(b) = 99; if (b.url != "x" || b.tier != 99) bad += "!bind"; }
        if (std::hash<dt::announce_url>{}(a) != std::hash<dt::announce_url>{}(dt::announce_url(a.url, a.tier))) bad += "!hash";
        prev = &a; ++i;
    }
    for (std::size_t t = 0; t < l.tier_count() + 2; ++t) {
        auto [b, e] = l.get_tier(t);
        if ((std::size_t)std::distance(b, e) != l.tier_size(t) || (t < l.tier_count()) != (l.tier_size(t) > 0)) bad += "!tier";
        if (b != l.get_tier_begin(t) || e != l.get_tier_end(t)) bad += "!range";
        for (auto it = b; it != e; ++it) if (it->tier != t) bad += "!view";
    }
    { auto c = l; if (!(c == l) || std::hash<dt::announce_url_list>{}(c) != std::hash<dt::announce_url_list>{}(l)) bad += "!hash"; }
    if (l.tier_count() != dt::as_nested_vector(l).size()) bad += "!count";
    for (int u = 0; u < 8; ++u) { bool in = std::any_of(l.begin(), l.end(), [&](auto& a) { return a.url == url(u); });
        if (l.contains(tight(url(u))) != in || (l.find(tight(url(u))) != l.end()) != in) bad += "!absent";
        for (std::size_t t = 0; t < 4; ++t) { dt::announce_url a(url(u), t); bool is = std::any_of(l.begin(), l.end(), [&](auto& b) { return b == a; }); if (l.contains(a) != is || (l.find(a) != l.end()) != is) bad += "!absentat"; } }
    return o + bad;
}
static std::string run_t(std::istringstream& is)
{
    dt::metafile m {}; std::string w, out; int n = 0;
    while (is >> w) {
        bool dot = w.back() == '.'; if (dot) w.pop_back();
        auto a = split(w, ':'); auto U = [&] { return url(std::stoi(a[1])); }; auto T = [&] { return (std::size_t)std::stoi(a[2]); };
        auto& l = m.trackers(); ++n;
        auto check = [&](auto it) { if (it == l.end() || it->url != U() || it->tier != T()) out += "!iterator"; };
        if (a[0] == "insert") { dt::announce_url x(tight(U()), T()); if (n % 2) check(l.insert(x)); else check(l.insert(dt::announce_url(U(), T()))); }
        else if (a[0] == "move") { dt::announce_url x(tight(U()), T()); check(l.insert(std::move(x))); }
        else if (a[0] == "emplace") check(l.emplace(tight(U()), T()));
        else if (a[0] == "erase") { auto before = l.size(); auto it = l.erase(dt::announce_url(U(), T())); if (l.size() == before && it != l.end()) out += "!erased"; }
        else if (a[0] == "eraseit") { auto it = l.find(dt::announce_url(U(), T())); auto k = it - l.begin(); auto r = l.erase(it); if (r - l.begin() != k) out += "!erased"; if (l.erase(l.end()) != l.end()) out += "!end"; }
        else if (a[0] == "add") { if (n % 2) m.add_tracker(dt::announce_url(U(), T())); else m.add_tracker(tight(U()), T()); }
        else if (a[0] == "addend") m.add_tracker(tight(U()));
        else if (a[0] == "rm") m.remove_tracker(tight(U()));
        else if (a[0] == "rmat") { if (n % 2) m.remove_tracker(tight(U()), T()); else m.remove_tracker(dt::announce_url(U(), T())); }
        else if (a[0] == "clear") { if (n % 2) m.clear_trackers(); else l.clear(); }
        else if (a[0] == "make") {
            auto k = a.size() > 1 ? a[1] : "";
            if (k == "0") l = dt::announce_url_list {{url(3), url(1), url(2)}, {url(5), url(4)}};
            else if (k == "1") l = dt::announce_url_list {{url(2)}, {}, {url(6), url(1)}};
            else if (k == "2") l = dt::announce_url_list {{}, {url(6), url(5), url(3), url(1)}};
            else l = dt::announce_url_list {};
        }
        else if (a[0] == "copy") { dt::metafile c(m); if (!(c == m) || !(c.trackers() == l)) out += "!copy"; m.clear_trackers(); dt::metafile d; d.add_tracker("junk"); d = c; m = std::move(d); if (!(m.trackers() == c.trackers())) out += "!assign"; }
        if (dot) out += tiers(m.trackers()) + " ";
    }
    if (out.empty() || out.back() != ' ') out += tiers(m.trackers());
    return out;
}
static dt::info_hash ih(int v)
{
    dt::sha1_hash a {}; dt::sha256_hash b {}; for (auto& x : a) x = std::byte(v); for (auto& x : b) x = std::byte(v);
    switch (v % 3) { case 0: return dt::info_hash(a); case 1: return dt::info_hash(b); default: return dt::info_hash(a, b); }
}
static dt::dht_node node(int v) { return dt::dht_node(v % 2 ? "host" : "host" + std::to_string(v / 4), uint16_t(v % 2 ? v : 6881 + v % 4)); }
static std::string run_m(std::istringstream& is)
{
    // default-initialised in memory that is not zero
    struct alignas(dt::metafile) Room { unsigned char b[sizeof(dt::metafile)]; };
    auto fresh = [](int fill) { auto r = new Room; std::memset(r->b, fill, sizeof r->b); return std::unique_ptr<dt::metafile, void (*)(dt::metafile*)>(new (r->b) dt::metafile, [](dt::metafile* p) { p->~metafile(); delete reinterpret_cast<Room*>(p); }); };
    auto mp = fresh(0xa5); std::string w, out; int n = 0;
    { auto e = fresh(0x3c); if (!(*e == *mp)) out += "!empty"; }
    while (is >> w) {
        auto& m = *mp;
        auto a = split(w, ':'); ++n; int v = a.size() > 2 ? std::stoi(a[2]) : 0; auto s = url(v);
        auto K = a.size() > 1 ? a[1] : "";
        if (a[0] == "add") { if (K == "web") m.add_web_seed(tight(s)); else if (K == "http") m.add_http_seed(tight(s)); else if (K == "node") { auto d = node(v); if (n % 3 == 0) m.add_dht_node(d); else if (n % 3 == 1) m.add_dht_node(node(v)); else m.add_dht_node(tight(d.url), d.port); }
            else if (K == "similar") m.add_similar_torrent(ih(v)); else m.add_collection(tight(s)); }
        else if (a[0] == "rm") { if (K == "web") m.remove_web_seed(tight(s)); else if (K == "http") m.remove_http_seed(tight(s)); else if (K == "node") { auto d = node(v); m.remove_dht_node(tight(d.url), d.port); } else if (K == "similar") m.remove_similar_torrent(ih(v)); else m.remove_collection(tight(s)); }
        else if (a[0] == "clear") { if (K == "web") m.clear_web_seeds(); else if (K == "http") m.clear_http_seeds(); else if (K == "node") m.clear_dht_nodes(); else if (K == "similar") m.clear_similar_torrents(); else m.clear_collections(); }
        else if (a[0] == "set") { if (K == "name") m.set_name(tight(s)); else if (K == "comment") m.set_comment(tight(s)); else if (K == "created_by") m.set_created_by(tight(s)); else if (K == "date") { auto d = std::time_t(v) * 7; if (n % 3 == 0) m.set_creation_date(d); else if (n % 3 == 1) m.set_creation_date(std::chrono::sys_seconds(std::chrono::seconds(d))); else m.set_creation_date(std::chrono::system_clock::from_time_t(d)); }
            else if (K == "source") m.set_source(tight(s)); else if (K == "private") { if (v == 1 && n % 2) m.set_private(); else m.set_private(v); } else if (K == "cross") m.enable_cross_seeding(v); }
        else if (a[0] == "copy") { dt::metafile c(m); if (!(c == m)) out += "!copy"; auto t = fresh(0x11); *t = c; if (!(*t == c)) out += "!assign"; mp = std::move(t); }
        else if (a[0] == "move") { dt::metafile c(m), d(std::move(m)); if (!(c == d)) out += "!move"; auto t = fresh(0x22); *t = d; mp = std::move(t); }
        else if (a[0] == "assign" || a[0] == "massign") {
            auto t = fresh(0x77); t->set_name("q"); t->add_web_seed("w"); t->add_http_seed("h"); t->add_dht_node("x", 1); t->add_similar_torrent(ih(9)); t->add_collection("c"); t->set_private(); t->set_source("s"); t->set_creation_date(std::time_t(5)); t->set_comment("cc"); t->set_created_by("cb"); t->enable_cross_seeding();
            dt::metafile c(m); if (a[0] == "assign") *t = m; else *t = std::move(m);
            if (!(*t == c)) out += "!assign"; mp = std::move(t);
        }
    }
    auto& m = *mp; std::ostringstream o;
    o << "web="; for (auto& x : m.web_seeds()) o << num(x) << ",";
    o << " http="; for (auto& x : m.http_seeds()) o << num(x) << ",";
    o << " node="; for (auto& x : m.dht_nodes()) { int k = -1; for (int v = 0; v < 400; ++v) if (node(v).url == x.url && node(v).port == x.port) { k = v; break; } o << k << ","; }
    std::vector<int> k; for (auto& x : m.similar_torrents()) { int f = -1; for (int v = 0; v < 400; ++v) if (ih(v) == x) { f = v; break; } k.push_back(f); } std::sort(k.begin(), k.end());
    o << " similar="; for (auto x : k) o << x << ","; k.clear();
    for (auto& x : m.collections()) k.push_back(num(x)); std::sort(k.begin(), k.end());
    o << " collection="; for (auto x : k) o << x << ",";
    o << " name=" << num(m.name()) << " comment=" << num(m.comment()) << " created_by=" << num(m.created_by()) << " date=" << (m.creation_date().count() % 7 ? -1 : m.creation_date().count() / 7) << " source=" << num(m.source()) << " private=" << m.is_private() << " cross=" << m.is_cross_seeding_enabled();
    if (m.storage().file_count() || !m.trackers().empty() || !m.other_info_fields().empty()) o << " extra";
    return o.str() + out;
}
int main()
{
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line); std::string k, r; is >> k;
        try { r = k == "T" ? run_t(is) : run_m(is); } catch (const std::exception& e) { r = std::string("threw ") + e.what(); }
        std::cout << r << std::endl;
    }
}
