// Magnet links. One request per line, texts in hexadecimal ("-" = empty).
//  W xt=h,h dn=h xl=digits ...   builds the link; answers the text written for it and the fields of that text read back
//  R h                           reads the text; answers its fields or "refused"
#include <algorithm>
#include <cstring>
#include <iostream>
#include <memory>
#include <new>
#include <sstream>
#include <string>
#include <vector>
#include <dottorrent/magnet_uri.hpp>
#include "tight.hpp"
namespace dt = dottorrent;
static std::string hx(std::string_view s) { if (s.empty()) return "-"; static const char* d = "0123456789abcdef"; std::string r; for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; } return r; }
static std::string un(const std::string& s) { if (s == "-") return ""; std::string r; for (std::size_t i = 0; i + 1 < s.size(); i += 2) r += char(std::stoi(s.substr(i, 2), nullptr, 16)); return r; }
static std::vector<std::string> split(const std::string& s, char c) { std::vector<std::string> r; std::string x; std::istringstream is(s); while (std::getline(is, x, c)) r.push_back(x); return r; }
template <class C> static std::string lst(const C& c) { std::string r; for (auto& x : c) r += hx(x) + ","; return r; }
static std::string show(const dt::magnet_uri& m)
{
    std::vector<std::string> kt(m.keywords().begin(), m.keywords().end()); std::sort(kt.begin(), kt.end());
    return "xt=" + lst(m.topics()) + " dn=" + hx(m.display_name()) + " xl=" + std::to_string(m.size()) + " tr=" + lst(m.trackers()) + " ws=" + lst(m.web_seeds())
         + " as=" + lst(m.acceptable_sources()) + " xs=" + hx(m.exact_source()) + " kt=" + lst(kt) + " mt=" + hx(m.manifest()) + " pe=" + lst(m.peer_adresses());
}
// memory that is not zero, so that members left uninitialised show
struct Fresh {
    alignas(dt::magnet_uri) unsigned char b[sizeof(dt::magnet_uri)]; dt::magnet_uri* p;
    Fresh() { std::memset(b, 0xa5, sizeof b); p = new (b) dt::magnet_uri; }
    ~Fresh() { p->~magnet_uri(); }
};
static std::string write(std::istringstream& is)
{
    Fresh f; auto& m = *f.p; std::string w; int n = 0;
    while (is >> w) {
        auto i = w.find('='); auto k = w.substr(0, i), v = w.substr(i + 1);
        if (k == "dn") { if (n++ % 2) m.set_display_name(un(v)); else { auto s = un(v); m.set_display_name(tight(s)); } continue; }
        if (k == "xl") { m.set_size(std::stoull(v)); continue; }
        if (k == "xs") { if (n++ % 2) m.set_exact_source(un(v)); else { const auto s = un(v); m.set_exact_source(s); } continue; }
        if (k == "mt") { if (n++ % 2) m.set_manifest(un(v)); else { auto s = un(v); m.set_manifest(tight(s)); } continue; }
        for (auto& h : split(v, ',')) {
            const auto s = un(h); auto sv = std::string_view(s); bool o = n++ % 2;
            if (k == "xt") { if (o) m.add_topic(s); else m.add_topic(un(h)); }
            else if (k == "tr") { if (o) m.add_tracker(tight(sv)); else m.add_tracker(un(h)); }
            else if (k == "ws") { if (o) m.add_web_seed(tight(sv)); else m.add_web_seed(un(h)); }
            else if (k == "as") { if (o) m.add_acceptable_source(tight(sv)); else m.add_acceptable_source(un(h)); }
            else if (k == "kt") { if (o) m.add_keyword(tight(sv)); else m.add_keyword(un(h)); }
            else if (k == "pe") { auto c = s.rfind(':'); bool num = c != s.npos && c + 1 < s.size() && s.find_first_not_of("0123456789", c + 1) == s.npos && s.size() - c < 6 && s[c + 1] != '0';
                if (num) m.add_peer_address(tight(s.substr(0, c)), (std::uint16_t)std::stoi(s.substr(c + 1))); else if (o) m.add_peer_adress(s); else m.add_peer_address(un(h)); }
        }
    }
    auto text = dt::encode_magnet_uri(m);
    { std::string t2; dt::encode_magnet_uri(m, std::back_inserter(t2)); if (t2 != text) return "differs"; }
    { std::vector<char> buf(text.size() + 1, '!'); dt::encode_magnet_uri(m, buf.begin()); if (std::string_view(buf.data(), text.size()) != text || buf[text.size()] != '!') return "iterator"; }
    auto own = show(m); dt::magnet_uri c(m); if (show(c) != own) return "copy";
    // exactly-sized buffer, not terminated
    auto e = std::make_unique<char[]>(text.size()); std::memcpy(e.get(), text.data(), text.size());
    return hx(text) + " ; " + own + " ; " + show(dt::make_magnet_uri(std::string_view(e.get(), text.size())));
}
int main()
{
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line); std::string k, r; is >> k;
        try {
            if (k == "W") r = write(is);
            else { std::string h; is >> h; auto t = un(h); auto e = std::make_unique<char[]>(t.size()); std::memcpy(e.get(), t.data(), t.size()); r = show(dt::make_magnet_uri(std::string_view(e.get(), t.size()))); }
        } catch (const std::exception& e) { r = "refused"; }
        std::cout << r << std::endl;
    }
}
