// File storages. One edit sequence per line, operations separated by spaces; every q answers all public queries.
//  add:path:size:id  pad:size  del:path  clear  piece:e  choose  mode:single  alloc  hash:i:v  align  copy assign move massign  q:dir,dir,...
#include <algorithm>
#include <iostream>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <vector>
#include <dottorrent/file_storage.hpp>
#include <dottorrent/checksum.hpp>
namespace dt = dottorrent;
namespace fs = std::filesystem;
static std::vector<std::string> split(const std::string& s, char c)
{ std::vector<std::string> r; std::string x; std::istringstream is(s); while (std::getline(is, x, c)) r.push_back(x); if (s.empty() || s.back() == c) r.push_back(""); return r; }
// everything about an entry besides path and size follows from its identity; 100 and above: with v2 data
static dt::file_entry entry(const std::string& path, std::size_t size, int id)
{
    int k = id % 100; std::optional<dt::file_attributes> at;
    if (k % 2) at = k % 3 ? dt::file_attributes::executable | dt::file_attributes::hidden : dt::file_attributes::none;
    dt::file_entry e(path, size, at);
    std::vector<std::byte> v(16, std::byte(k));
    e.add_checksum(dt::make_checksum("md5", v));
    e.set_last_modified_time(fs::file_time_type(std::chrono::seconds(1000 + k)));
    if (id >= 100) { dt::sha256_hash r {}; r.data()[5] = std::byte(k); e.set_pieces_root(r); std::vector<dt::sha256_hash> l(k % 4, r); e.set_piece_layer(l); }
    return e;
}
static std::string show(const dt::file_entry& e)
{
    if (e.is_padding_file()) {
        bool ok = e.attributes() == dt::file_attributes::padding_file && !e.has_v2_data() && !e.symlink_path() && e.checksums().empty();
        return "pad:" + e.path().string() + ":" + std::to_string(e.file_size()) + (ok ? "" : ":bad");
    }
    auto* c = e.get_checksum("md5"); int id = -1;
    if (c && c->value().size() == 16) id = (int)c->value()[0];
    if (e.has_v2_data()) id += 100;
    std::string bad;
    if (id >= 0) {
        dt::file_entry w = entry(e.path().string(), e.file_size(), id);
        if (w.attributes() != e.attributes()) bad += ":attributes";
        if (w.last_modified_time() != e.last_modified_time()) bad += ":time";
        if (e.checksums().size() != 1 || !std::ranges::equal(w.get_checksum("md5")->value(), c->value())) bad += ":checksum";
        if (e.has_v2_data() && (!(w.pieces_root() == e.pieces_root()) || !std::ranges::equal(w.piece_layer(), e.piece_layer()))) bad += ":v2";
        if (e.symlink_path()) bad += ":symlink";
    }
    return "file:" + e.path().string() + ":" + std::to_string(e.file_size()) + ":" + std::to_string(id) + bad;
}
static std::string query(const dt::file_storage& s, const std::string& dirs)
{
    std::ostringstream o; std::string bad;
    o << "n=" << s.file_count() << " reg=" << s.regular_file_count() << " total=" << s.total_file_size() << " totalreg=" << s.total_regular_file_size()
      << " psize=" << s.piece_size() << " pieces=" << s.piece_count() << " mode=" << (s.file_mode() == dt::file_mode::empty ? "empty" : s.file_mode() == dt::file_mode::single ? "single" : "multi");
    o << " files=";
    for (auto& f : s) o << show(f) << ",";
    if (s.size() != s.file_count()) bad += "!size";
    for (std::size_t i = 0; i < s.size(); ++i) if (&s[i] != &s.at(i) || &s.at(i) != &*(s.begin() + i) || &s.at(i) != &*(s.cbegin() + i) || &s.at(i) != &*(s.rbegin() + (s.size() - 1 - i))) bad += "!access";
    { std::vector<const dt::file_entry*> a, b; for (auto i = s.crbegin(); i != s.crend(); ++i) a.push_back(&*i); for (auto i = s.cbegin(); i != s.cend(); ++i) b.insert(b.begin(), &*i); if (a != b || a.size() != s.size()) bad += "!reverse";
      auto& m = const_cast<dt::file_storage&>(s); a.clear(); for (auto i = m.rbegin(); i != m.rend(); ++i) a.push_back(&*i); if (a != b) bad += "!reverse"; a.clear(); for (auto i = s.rbegin(); i != s.rend(); ++i) a.push_back(&*i); if (a != b) bad += "!reverse"; }
    if (s.size() && (&s.front() != &s[0] || &s.back() != &s[s.size() - 1])) bad += "!ends";
    o << " v1=";
    for (auto& h : s.pieces()) { unsigned v = (unsigned)h.data()[0]; for (auto b : h) if ((unsigned)b != v) bad += "!hash"; o << v << ","; }
    for (std::size_t i = 0; i < s.pieces().size() && s.pieces().size() == s.piece_count(); ++i) if (!(s.get_piece_hash(i) == s.pieces()[i])) bad += "!piecehash";
    o << " spans=";
    if (s.piece_size()) for (std::size_t i = 0; i < s.size(); ++i) {
        auto [a, b] = s.get_pieces_offsets(i); o << a << "-" << b << ",";
        if (s.pieces().size() == s.piece_count()) { auto sp = s.get_pieces_span(i); if (sp.size() != b - a || (b > a && sp.data() != s.pieces().data() + a)) bad += "!span"; }
    }
    o << " starts="; for (auto x : dt::exclusive_file_size_scan(s)) o << x << ",";
    o << " ends="; for (auto x : dt::inclusive_file_size_scan_v1(s)) o << x << ",";
    o << " ends2="; for (auto x : dt::inclusive_file_size_scan_v2(s)) o << x << ",";
    o << " aligned=" << (s.piece_size() ? (dt::is_piece_aligned(s) ? "1" : "0") : "-");
    o << " dirs=" << dt::directory_count(s) << " dirsnopad=" << dt::directory_count(s, "", false);
    o << " proto=" << (int)s.protocol();
    o << " list=";
    for (auto& d : split(dirs, ',')) {
        std::vector<std::size_t> ix; auto c = s.directory_contents(d);
        for (auto* p : c) ix.push_back(p - &*s.begin() + 1);
        for (std::size_t i = 1; i < c.size(); ++i) if (c[i]->path() < c[i - 1]->path()) bad += "!order";
        std::sort(ix.begin(), ix.end());
        o << d << ":"; for (auto i : ix) o << i << ".";
        o << dt::directory_count(s, d) << "/" << dt::directory_count(s, d, false) << "/" << dt::is_padding_directory(s, d) << ",";
    }
    // equal exactly when root, paths in order and piece size agree
    {
        auto differs = [&](auto change) { dt::file_storage t(s); change(t); if (t == s || s == t) bad += "!equal"; };
        differs([](auto& t) { t.set_piece_size(t.piece_size() == (1 << 26) ? 1 << 27 : 1 << 26); });
        differs([](auto& t) { t.set_root_directory("/"); });
        differs([](auto& t) { t.add_file(entry("one/more", 3, 1)); });
        if (s.size() > 1 && s[0].path() != s[1].path()) differs([](auto& t) { dt::file_storage u; if (t.piece_size()) u.set_piece_size(t.piece_size()); u.set_file_mode(t.file_mode()); for (auto i = t.rbegin(); i != t.rend(); ++i) u.add_file(*i); bool pal = true; for (std::size_t i = 0; i < t.size(); ++i) pal = pal && t[i].path() == u[i].path(); if (pal) u.add_file(entry("one/more", 3, 1)); t = u; });
        if (s.size()) differs([](auto& t) { t.remove_file(t.back()); });
        dt::file_storage t(s); if (!(t == s) || !(s == t) || t != s) bad += "!equal";
    }
    return o.str() + bad;
}
int main()
{
    std::string line;
    while (std::getline(std::cin, line)) {
        auto s = std::make_unique<dt::file_storage>(); std::string out; int n = 0;
        std::istringstream is(line); std::string w;
        try {
            while (is >> w) {
                auto a = split(w, ':'); auto& op = a[0]; ++n;
                if (op == "add") {
                    auto e = entry(a[1], std::stoull(a[2]), std::stoi(a[3]));
                    if (n % 3 == 0) s->add_file(e); else if (n % 3 == 1) s->add_file(std::move(e)); else { std::vector<dt::file_entry> v {e}; s->add_files(v.begin(), v.end()); }
                }
                else if (op == "pad") s->add_file(dt::make_padding_file_entry(std::stoull(a[1])));
                else if (op == "del") s->remove_file(dt::file_entry(a[1], 77));
                else if (op == "clear") s->clear();
                else if (op == "piece") s->set_piece_size(std::size_t(1) << std::stoi(a[1]));
                else if (op == "choose") { auto r = dt::choose_piece_size(*s); if (r != s->piece_size()) out += "!choose "; }
                else if (op == "mode") s->set_file_mode(a[1] == "single" ? dt::file_mode::single : dt::file_mode::multi);
                else if (op == "alloc") s->allocate_pieces();
                else if (op == "hash") { dt::sha1_hash h {}; for (auto& b : h) b = std::byte(std::stoi(a[2])); s->set_piece_hash(std::stoull(a[1]) - 1, h); }
                else if (op == "align") dt::optimize_alignment(*s);
                else if (op == "copy") { auto t = std::make_unique<dt::file_storage>(*s); if (!(*t == *s)) out += "!equal "; s->clear(); s = std::move(t); }
                else if (op == "move") { auto t = std::make_unique<dt::file_storage>(std::move(*s)); s = std::move(t); }
                else if (op == "assign" || op == "massign") {
                    auto t = std::make_unique<dt::file_storage>(); t->set_piece_size(1 << 20); t->add_file(entry("other/z", 9999999, 9)); t->set_file_mode(dt::file_mode::single); t->allocate_pieces(); t->directory_contents("other");
                    if (op == "assign") *t = *s; else *t = std::move(*s);
                    dt::file_storage& self = *t; *t = self; s = std::move(t);
                }
                else if (op == "q") out += query(*s, w.substr(2)) + "|";
            }
        } catch (const std::exception& e) { out += std::string("threw ") + e.what(); }
        std::cout << out << std::endl;
    }
}
